"""C40 A run that failed or was interrupted is completed by the next one"""
import hashlib
import json
import os
import pathlib
from hypothesis import strategies as st
from checks import c13, c22
from checks.c39 import LISTS
from vp import bingen, faults, patcherkit as K, patchgen, ref, skngen, wadgen
from vp import guessgen as G
from vp.cdn import CDN
from vp.cli import run_cli
from vp.core import Sub, eq, expect
from cdtb import hashes as H

ASSUMPTIONS = ["the process is not killed: it can handle the failure, or the interruption",
               "an interruption happens in the main thread, between two executed lines or in a change of the file system, and not while another failure is being handled",
               "a failure happens once", "empty directories are irrelevant"]

POOLS = [p for p in c13.VERSION_POOLS if "main" not in p]


def attempt(argv, events):
    """Run a command with failures: (completed?, status, output)"""
    try:
        with events.installed():
            rc, out, _ = run_cli(argv)
    except (Exception, KeyboardInterrupt) as e:
        return False, f"{type(e).__name__}: {e}", ""
    return rc == 0, rc, out


def files_of(root, ignored=()):
    return {p: x for p, x in ref.read_tree(root).items() if x is not None and not p.endswith(tuple(ignored) or ("\0",))}


def lines(out):
    # paths are tried in no particular order
    return sorted(out.split("\n"))


def play(ctx, commands, plan, roots, cdn, state, before=lambda root: None):
    """Run the commands without failures under a root, and with the planned ones, then again, under another root"""
    hits = 0
    for i, (prepare, argv) in enumerate(commands):
        shown, name = " ".join(argv(".")), argv(".")[0]
        prepare(roots[0])
        before(roots[0])
        reference = faults.Faults(roots[0], cdn, lines=i in plan)
        ok, rc, want = attempt(argv(roots[0]), reference)
        expect(ok, f"{shown} without failure: {rc}")
        want = want.replace(roots[0], "")
        expected = state(roots[0])
        prepare(roots[1])
        what = []
        counts = reference.counts
        for fault in plan.get(i, []):
            chosen = faults.pick(fault, counts)
            if chosen is None:
                continue
            before(roots[1])
            events = faults.Faults(roots[1], cdn, chosen, lines=chosen[0][0] == "line")
            ok, rc, out = attempt(argv(roots[1]), events)
            what.append(f"{chosen}: {rc}")
            if events.hit:
                hits += 1
                ctx.label(chosen[0][0] + ("" if chosen[2] != "interrupt" else "-interrupt"), name, "reported" if not ok else "harmless")
            else:
                expect(ok, f"{shown} after {what}: {rc}")
            if ok:
                # completed: this must be true
                if not (name == "hashes-guess" and len(what) > 1):
                    eq(lines(out.replace(roots[1], "")), lines(want), f"output of {shown} completed with {what}")
                eq(state(roots[1]), expected, f"results of {shown} completed with {what}")
        before(roots[1])
        ok, rc, out = attempt(argv(roots[1]), faults.Faults(roots[1], cdn))
        expect(ok, f"{shown} after {what}: {rc}")
        if name != "hashes-guess":
            # the hashes of the first list may have been found before the failure
            eq(out.replace(roots[1], ""), want, f"output of {shown} after {what}")
        eq(state(roots[1]), expected, f"results of {shown} after {what}")
    ctx.nontrivial(hits)


# --- patches, from the servers to the exported files

@st.composite
def patch_cases(draw):
    versions = draw(st.sampled_from(POOLS))
    i = draw(st.integers(0, len(versions) - 2))
    base = draw(c13.st_files())
    commands = []
    for n in (0, 1):
        commands += draw(st.lists(st.sampled_from(["versions", "download", "download-nolang", "files", "files-rel"]), max_size=2, unique=True))
        commands.append("export" if n else "export-full")
    nfaults = draw(st.integers(1, 4))
    plan = {}
    for _ in range(nfaults):
        plan.setdefault(draw(st.integers(0, len(commands) - 1)), []).append(draw(faults.st_fault()))
    return dict(versions=versions[i:i + 2], contents=[base, draw(c13.st_files(base))], commands=commands, plan=plan, links=draw(st.booleans()), lazy=draw(st.booleans()), extract_links=draw(st.booleans()), whole=draw(st.booleans()), group=draw(st.integers(1, 6)))


def element(files, langs_of, whole, group):
    descs, chunks = [], []
    for p, d in sorted(files.items()):
        cuts = [d] if whole or len(d) < 20 else [d[:len(d) // 3], d[len(d) // 3:]]
        cuts = [c for c in cuts if c]
        descs.append(dict(path=p, chunks=cuts, langs=langs_of(p), link=None))
        chunks += cuts
    chunks = sorted(set(chunks), key=lambda c: hashlib.sha1(c).digest())
    return K.build_element(descs, ["en_US", "windows"], [chunks[i:i + group] for i in range(0, len(chunks), group)])


def check_patches(case, ctx):
    root = ctx.tmp()
    known = c13.KNOWN_GAME + patchgen.data_paths()
    servers = K.Servers()
    clock = K.Clock()
    roots = [f"{root}/a", f"{root}/b"]
    for r in roots:
        ref.write_tree(r, {"storage/cdtb.storage.conf": json.dumps(dict(type="patcher", path="cdn", **({} if case["extract_links"] else {"use_extract_symlinks": False}))).encode()})
        os.makedirs(f"{r}/out")
    published = []
    for v, c in zip(case["versions"], case["contents"]):
        client, game = c13.sources(c13.well_formed(c), v)
        client["system.yaml"] = f"name: x\nbranch: 'Releases/{v}'\n".encode()
        game["content-metadata.json"] = json.dumps({"version": f"{v}.123.4567+branch"}).encode()
        published.append([servers.add(*element(files, lambda p: ["en_US"] if ".en_US." in p else [], case["whole"], case["group"])) for files in (client, game)])
    commands = []
    stage = 0

    def prepare(n):
        def f(r):
            servers.client, servers.game = published[n]
            clock.now = 1500000000 + 1000 * n
        return f
    for name in case["commands"]:
        argv = {"versions": ["versions", "patch", "-a"], "download": ["download", "patch="], "download-nolang": ["download", "--no-lang", "game=", "client="],
                "files": ["files", "patch="], "files-rel": ["files", "-r", "client="]}.get(name)
        if name.startswith("export"):
            mode = ["--full"] if stage == 0 else ["-L"] * case["links"]
            argv = ["export", *mode, *["--lazy"] * case["lazy"], "-o", "{}/out", "latest"]
        commands.append((prepare(stage), lambda r, argv=argv: [argv[0], "-s", f"{r}/storage", *[a.format(r) for a in argv[1:]]]))
        if name.startswith("export"):
            stage += 1

    def state(r):
        return files_of(r, ["latest.timestamp"])
    patchgen.set_hashes(game=known, lcu=c13.LCU_PATHS)
    with clock.installed(), servers.cdn.installed():
        play(ctx, commands, case["plan"], roots, servers.cdn, state)


# --- the former patcher

@st.composite
def rads_cases(draw):
    releases = []
    for sol in ("league_client_sln", "lol_game_client_sln"):
        r = draw(c22.release_cases())
        r["solution"] = sol
        # the main project is the one of the solution
        r["projects"][0]["name"] = c22.SOLUTIONS[sol][0]
        r["projects"] = [p for i, p in enumerate(r["projects"]) if i == 0 or p["name"] not in (q["name"] for q in r["projects"][:i])]
        r["langs"] = {l: [d for d in deps if d < len(r["projects"])] for l, deps in r["langs"].items()}
        for p in r["projects"]:
            p["name"] = p["name"] if p is r["projects"][0] else f"{p['name']}_{sol[:3]}"
        releases.append(r)
    if draw(st.booleans()):
        releases[1]["patch"] = releases[0]["patch"]
    version = ".".join(map(str, releases[0]["patch"]))
    commands = draw(st.lists(st.sampled_from([("versions", "patch", "-a"), ("versions", "game"), ("download", "patch="), ("download", "--no-lang", "client=", "game="), ("download", "--lang", "en_us", "--", "game="),
                                              ("files", "patch="), ("files", "-r", "client="), ("files", "patch=" + version)]), min_size=1, max_size=5, unique=True))
    plan = {}
    for _ in range(draw(st.integers(1, 4))):
        plan.setdefault(draw(st.integers(0, len(commands) - 1)), []).append(draw(faults.st_fault()))
    return dict(releases=releases, commands=commands, plan=plan)


def check_rads(case, ctx):
    root = ctx.tmp()
    cdn = CDN(blocks=case["releases"][0]["blocks"])
    c22.build_release(case["releases"][0], cdn)
    listing = f"{c22.URL}solutions/league_client_sln/releases/releaselisting"
    client = cdn.routes[listing]
    c22.build_release(case["releases"][1], cdn)
    cdn.routes[listing] = client
    roots = [f"{root}/a", f"{root}/b"]
    for r in roots:
        ref.write_tree(r, {"storage/cdtb.storage.conf": json.dumps(dict(type="rads", url=c22.URL, path="RADS")).encode()})
    known = set(case["releases"][1]["langs"])
    commands = [(lambda r: None, lambda r, argv=argv: [argv[0], "-s", f"{r}/storage", *argv[1:]]) for argv in case["commands"] if "en_us" in known or "en_us" not in argv]
    with cdn.installed():
        play(ctx, commands, case["plan"], roots, cdn, files_of)


# --- local files and hash lists

@st.composite
def local_cases(draw):
    lcu = draw(st.lists(st.one_of(G.mentioned_paths("lcu"), G.lcu_paths()), min_size=1, max_size=4, unique=True))
    game = draw(st.lists(st.one_of(G.mentioned_paths("game"), G.game_paths()), min_size=1, max_size=4, unique=True))
    commands = draw(st.lists(st.sampled_from(["extract", "extract-game", "skn", "guess", "guess", "fetch"]), min_size=1, max_size=4, unique=True))
    plan = {}
    for _ in range(draw(st.integers(1, 3))):
        plan.setdefault(draw(st.integers(0, len(commands) - 1)), []).append(draw(faults.st_fault()))
    return dict(lcu=lcu, game=game, known=draw(st.integers(0, 3)), commands=commands, plan=plan, lazy=draw(st.booleans()), methods=draw(st.sampled_from(["grep", "grep,ext", "ext", "grep,numbers"])),
                skn=draw(skngen.st_skn().filter(lambda c: c["major"] == 0 or c["submeshes"])), stale=draw(st.booleans()))


def list_file(mapping, size=16):
    return "".join(f"{h:0{size}x} {s}\n" for h, s in sorted(mapping.items(), key=lambda t: t[1])).encode()


NAMES = ["hashes.binentries.txt", "hashes.binfields.txt", "hashes.binhashes.txt", "hashes.bintypes.txt", "hashes.game.txt", "hashes.lcu.txt", "hashes.rst.txt", "hashes.rst.xxh64.txt", "hashes.rst.xxh3.txt"]
LIST_URL = "https://raw.communitydragon.org/data/hashes/lol/"


def check_local(case, ctx):
    root = ctx.tmp()
    roots = [f"{root}/a", f"{root}/b"]
    lists = {}
    archives = {}
    for kind, ext in (("lcu", ".wad"), ("game", ".wad.client")):
        paths = sorted(set(case[kind]))
        lists[kind] = {wadgen.wad_hash(p): p for p in paths[:case["known"]] + ["zz/known" + ext]}
        archives[f"in/x{ext}"] = patchgen.wad_bytes([(p, b"\x01" + p.encode(), 3) for p in paths] + [("zz/known" + ext, G.mention(kind, paths), 0)])
    published = {name: f"0123456789abcdef {name}\n".encode() for name in NAMES}
    cdn = CDN({LIST_URL + name: (200, data, {"last-modified": "Fri, 01 Jan 2100 00:00:00 GMT"}) for name, data in published.items()})
    for r in roots:
        ref.write_tree(r, {**archives, "in/x.skn": skngen.build_skn(case["skn"]), **{f"lists/hashes.{kind}.txt": list_file(m) for kind, m in lists.items()}})
        if case["stale"]:
            ref.write_tree(r, {f"lists/{name}": b"0000000000000001 old\n" for name in NAMES if name not in ("hashes.lcu.txt", "hashes.game.txt")})

    argvs = {"extract": ["wad-extract", *["--lazy"] * case["lazy"], "{}/in/x.wad"], "extract-game": ["wad-extract", *["--lazy"] * case["lazy"], "-o", "{}/game", "{}/in/x.wad.client"],
             "skn": ["skn-extract", "-o", "{}/mesh", "{}/in/x.skn"], "guess": ["hashes-guess", "-m", case["methods"], "{}/in/x.wad", "{}/in/x.wad.client"], "fetch": ["fetch-hashes"]}
    commands = [(lambda r: None, lambda r, argv=argvs[name]: [a.format(r) for a in argv]) for name in case["commands"]]
    old = {name: (hf.filename, hf.hashes) for name, hf in LISTS.items()}
    old_dir = H.default_hash_dir

    def before(r):
        # as in a new process
        for name, hf in LISTS.items():
            hf.filename = pathlib.Path(f"{r}/lists/hashes.{name}.txt")
            hf.hashes = None
        import cdtb.__main__ as M
        M.default_hash_dir = H.default_hash_dir = pathlib.Path(f"{r}/lists")
    try:
        with cdn.installed():
            play(ctx, commands, case["plan"], roots, cdn, files_of, before)
    finally:
        import cdtb.__main__ as M
        M.default_hash_dir = H.default_hash_dir = old_dir
        for name, hf in LISTS.items():
            hf.filename, hf.hashes = old[name]


SUBS = [Sub("patches", patch_cases, check_patches, 480, 12000, "a failure or an interruption happened", shards=5),
        Sub("rads", rads_cases, check_rads, 400, 16000, "a failure or an interruption happened", shards=3),
        Sub("local", local_cases, check_local, 800, 16000, "a failure or an interruption happened", shards=3)]
