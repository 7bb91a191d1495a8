"""C37 Results depend on the inputs alone"""
import ast
import atexit
import os
import re
import subprocess
import sys
from hypothesis import strategies as st
from checks import c13, c22
from vp import bingen, guessgen as G, patcherkit as K, patchgen, ref, skngen, wadgen
from vp.cdn import CDN
from vp.core import HarnessError, Sub, eq, expect

ASSUMPTIONS = ["the order in which discovered paths are printed is irrelevant", "patches follow the assumptions of C13", "a hash that is not known is the one of a single content (C04 remembers types by hash)"]

POOLS = [p for p in c13.VERSION_POOLS if "main" not in p]
TZS = ["UTC", "Asia/Tokyo", "XXX+11:30", "America/Los_Angeles"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
servers = {}


def server(hash_seed):
    """Process running commands with a given hash randomization"""
    s = servers.get(hash_seed)
    if s is None or s.poll() is not None:
        s = servers[hash_seed] = subprocess.Popen([sys.executable, os.path.join(HERE, "vp/envserver.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env={**os.environ, "PYTHONHASHSEED": str(hash_seed)}, text=True)
        atexit.register(s.kill)
    return s


def submit(hash_seed, job):
    s = server(hash_seed)
    s.stdin.write(repr(job) + "\n")
    s.stdin.flush()
    return s


def collect(s, job):
    line = s.stdout.readline().strip()
    if line != "ok":
        raise HarnessError(f"environment server: {line!r}")
    out = []
    for i in range(len(job["commands"])):
        with open(f"{job['results']}.{i}", encoding="utf-8", errors="surrogatepass") as f:
            out += ast.literal_eval(f.read())
    return out


# --- a patcher storage, as left by downloads

def write_storage(root, patches, shared):
    """patches: [(version, client files, game files)], oldest first"""
    for n, (version, client, game) in enumerate(patches):
        t = 99999990 + 7 * n
        base = f"cdtb/releases/live/{t}"
        tree = {}
        info = {}
        for name, files in (("client", client), ("game", game)):
            desc = [dict(path=p, chunks=[d] if d else [], langs=[], link=None) for p, d in sorted(files.items())]
            manifest, _ = K.build_element(desc, ["en_us"], [[d] for d in sorted({d for d in files.values() if d})])
            url = info[f"{name}_patch_url"] = K.manifest_url(manifest)
            tree[url[len(K.BASE):]] = manifest
            tree[f"{base}/patch_version.{name}"] = f"{version}\n".encode()
            for p, d in files.items():
                tree[f"{base}/files/{p}"] = d
        tree[f"{base}/release.json"] = repr(info).replace("'", '"').encode()
        for p, d in tree.items():
            path = f"{root}/{p}"
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if shared and "/files/" in p:
                name = f"{root}/cdtb/files/{patchgen.hashlib.sha1(d).hexdigest()}"
                os.makedirs(os.path.dirname(name), exist_ok=True)
                with open(name, "wb") as f:
                    f.write(d)
                os.symlink(os.path.relpath(name, os.path.dirname(path)), path)
            else:
                with open(path, "wb") as f:
                    f.write(d)
    return info["client_patch_url"], info["game_patch_url"]


@st.composite
def cases(draw):
    versions = draw(st.sampled_from(POOLS))
    n = draw(st.integers(2, 3))
    i = draw(st.integers(0, len(versions) - n))
    contents = []
    for k in range(n + 1):
        contents.append(draw(c13.st_files(contents[-1] if contents else None)))
    if draw(st.booleans()):
        # the same files with other contents
        for k in (-2, -1):
            contents[k]["game"].update({"data/a.bin": (2 + k, 1), "data/b/d.txt": (2 + k, 1)})
    lcu = draw(st.lists(G.lcu_paths(), max_size=4, unique=True))
    game = draw(st.lists(G.game_paths(), max_size=4, unique=True))
    return dict(versions=versions[i:i + n], contents=contents, shared=draw(st.booleans()), links=draw(st.booleans()),
                bin=draw(bingen.st_binfile(version=1502, depth=2, max_entries=3)), skn=draw(skngen.st_skn().filter(lambda c: c["major"] == 0 or c["submeshes"])),
                lcu=lcu, game=game, unknown=draw(st.lists(st.one_of(G.lcu_paths(), G.game_paths(), G.mentioned_paths("lcu"), G.mentioned_paths("game")), max_size=6, unique=True)),
                methods=draw(st.sampled_from(["grep,ext", "plugin,regionlang", "ext", "prefixes", "basenames", "skin-num", "skin-num"])),
                hash_seeds=draw(st.sampled_from([(1, 2), (1, 3), (2, 3)])), tz=draw(st.permutations(TZS)), shuffle=draw(st.integers(0, 99)), trail=draw(st.booleans()),
                verbose=draw(st.sampled_from([(0, 0), (0, 1), (0, 2), (3, 0), (1, 3)])))


def lines(text):
    return sorted(text.split("\n"))


def check(case, ctx):
    root = ctx.tmp()
    contents = [c13.well_formed(c) for c in case["contents"]]
    # no directory of an existing output becomes a file
    old = [p.lower() for ns in ("game", "lang", "lcu", "plain") for p in contents[-2][ns]]
    contents[-1] = {ns: {p: v for p, v in c.items() if not any(q.startswith(p.lower() + "/") for q in old)} if isinstance(c, dict) else c for ns, c in contents[-1].items()}
    patches = [(v, *c13.sources(c, v)) for v, c in zip(case["versions"], contents)]
    urls = write_storage(f"{root}/cdn", patches, case["shared"])
    # later, the last patch has another content
    last = case["versions"][-1]
    urls2 = write_storage(f"{root}/cdn2", patches[:-1] + [(last, *c13.sources(contents[-1], last))], case["shared"])
    wads = sorted({p for _, client, game in patches for p in [*client, *game] if p.endswith((".wad", ".wad.client"))})
    files = {"x.bin": bingen.build_bin(case["bin"], 1502), "x.skn": skngen.build_skn(case["skn"])}
    # an archive to guess paths from
    unknown = [p for p in case["unknown"] if p not in case["lcu"] + case["game"]]
    for ext in (".wad", ".wad.client"):
        own = [p for p in unknown if p.startswith("plugins/") == (ext == ".wad")]
        entries = [(p, b"\x01", 0) for p in own] + [(f"zz/holder{ext}", G.mention("lcu" if ext == ".wad" else "game", own), 3)]
        files[f"guess{ext}"] = patchgen.wad_bytes(entries)
    for i, (p, d) in enumerate((p, d) for _, client, game in patches[-1:] for p, d in sorted({**client, **game}.items()) if p in wads):
        files[f"w/{i}-" + p.rsplit("/", 1)[1]] = d
    archives = [p for p in files if p.startswith("w/")]
    lists = [sorted(set(c13.KNOWN_GAME + patchgen.data_paths() + case["game"] + ["data/wad.subchunktoc"])), sorted(set(c13.LCU_PATHS + case["lcu"] + ["wad.subchunktoc"]))]
    jobs, trees = [], []
    for k in (0, 1):
        d = f"{root}/{'ab'[k]}"
        here = f"{d}/run"
        os.makedirs(here)
        os.makedirs(f"{d}/elsewhere")
        ref.write_tree(f"{d}/in", files)
        for name, paths in zip(("game", "lcu"), lists):
            with open(f"{d}/{name}.txt", "wb") as f:
                f.write("".join(f"{wadgen.wad_hash(p):016x} {p}\n" for p in paths).encode())
        cwd = here if k == 0 else f"{d}/elsewhere"

        def spell(path):
            return path if k == 0 else os.path.relpath(path, cwd)
        storage = ["-s", "patcher:" + spell(f"{root}/cdn")]
        out = ["-o", spell(f"{d}/out") + ("/" if k and case["trail"] else "")]
        commands = [["versions", "patch", *storage], ["files", "-r", "patch=", *storage], ["files", "-r", f"client={case['versions'][0]}", *storage]]
        for n, v in enumerate(case["versions"]):
            commands.append(["export", *storage, *out, v] + (["-L"] * case["links"] if n else ["--full"]))
        commands.append(["export", "--from", case["versions"][-1], *storage, *out] + ["-L"] * case["links"])
        commands.append(["export", "--full", *storage, "-o", spell(f"{d}/full"), "latest"])
        for p in archives:
            commands += [["wad-extract", spell(f"{d}/in/{p}")], ["wad-list", spell(f"{d}/in/{p}")]]
        commands += [["bin-dump", spell(f"{d}/in/x.bin")], ["bin-dump", "-j", spell(f"{d}/in/x.bin")], ["skn-extract", "-o", spell(f"{d}/mesh"), spell(f"{d}/in/x.skn")]]
        commands.append(["export", "-s", "patcher:" + spell(f"{root}/cdn2"), *out, last] + ["-L"] * case["links"])
        commands.append(["hashes-guess", "-m", case["methods"], *storage, spell(f"{d}/in/guess.wad"), spell(f"{d}/in/guess.wad.client")])
        jobs.append(dict(cwd=cwd, urls={"cdn": urls, "cdn2": urls2}, tz=case["tz"][k], environ={"COLUMNS": str(80 + 60 * k)}, shuffle=case["shuffle"] + k, hashes=(spell(f"{d}/game.txt"), spell(f"{d}/lcu.txt")), results=f"{root}/res{k}", verbose=case.get("verbose", (0, 0))[k],
                         # alone, or all in one process
                         commands=[[c] for c in commands] if k == 0 else [commands]))
    running = [submit(seed, job) for seed, job in zip(case["hash_seeds"], jobs)]
    a, b = [collect(s, job) for s, job in zip(running, jobs)]
    shown = [c for [c] in jobs[0]["commands"]]
    for argv, (rc, text), (rc2, text2) in zip(shown, a, b):
        expect(rc == rc2, f"status of {argv}: {rc} in one environment, {rc2} in the other")
        expect(argv[0] in ("bin-dump", "skn-extract") or rc == 0, f"{argv} failed: {rc}")
        if argv[0] == "hashes-guess":
            eq(lines(text2), lines(text), f"lines of {argv} in another environment")
        else:
            eq(text2, text, f"output of {argv} in another environment")
    left, right = (patchgen.snapshot(f"{root}/{x}") for x in "ab")
    left.pop("run", None), left.pop("elsewhere", None), right.pop("run", None), right.pop("elsewhere", None)
    eq(right, left, "files written in another environment")
    links = sum(isinstance(x, str) for x in left.values())
    ctx.label("links" if links else "no links", "found" if len(a[-1][1]) > 1 else "nothing found")
    ctx.nontrivial(links or not case["links"])


# --- a RADS storage, filled by the commands

@st.composite
def rads_cases(draw):
    case = draw(c22.release_cases())
    case["ops"] = case["present"] = case["queries"] = None
    # as in actual releases: one project for each language
    main = case["projects"][0]["name"]
    for lang in draw(st.lists(st.sampled_from(c22.LANGS), unique=True, max_size=3)):
        if f"{main}_{lang}" not in [p["name"] for p in case["projects"]]:
            case["projects"].append(dict(name=f"{main}_{lang}", version=draw(c22.rads_version()), required=False, files=draw(c22.file_sets()), order=draw(st.permutations(range(6))), pack=draw(st.permutations(range(6)))))
            case["langs"][lang] = sorted({*case["langs"].get(lang, []), len(case["projects"]) - 1})
    return dict(release=case, select=draw(st.sampled_from([[], ["--no-lang"], ["--lang", "en_us", "--"], ["--lang", "en_us", "fr_fr", "--"]])), export=draw(st.integers(0, 3)) > 0,
                hash_seeds=draw(st.sampled_from([(1, 2), (1, 3), (2, 3)])), tz=draw(st.permutations(TZS)), shuffle=draw(st.integers(0, 99)), verbose=draw(st.sampled_from([(0, 0), (0, 2)])))


def check_rads(case, ctx):
    root = ctx.tmp()
    release = case["release"]
    projects = []
    for i, p in enumerate(release["projects"]):
        files = []
        for f in p["files"]:
            if f["name"].endswith((".wad", ".wad.client")):
                f = dict(f, data=patchgen.wad_bytes([(f"{f['name']}/data/a{i}.txt", f["data"], 0)]))
            files.append(f)
        projects.append(dict(p, files=files))
    cdn = CDN()
    c22.build_release(dict(release, projects=projects), cdn)
    select = case["select"] if all(l in release["langs"] for l in case["select"] if not l.startswith("-")) else []
    component = "client=" if release["solution"] == "league_client_sln" else "game="
    jobs = []
    for k in (0, 1):
        d = f"{root}/{'ab'[k]}"
        ref.write_tree(d, {"s/cdtb.storage.conf": b'{"type": "rads", "url": "%s", "path": "RADS"}' % c22.URL.encode()})
        os.makedirs(f"{d}/cwd")
        for name in ("game", "lcu"):
            with open(f"{d}/{name}.txt", "wb") as f:
                f.write(b"")
        cwd = [f"{d}/cwd", d][k]
        storage = ["-s", [f"{d}/s", "s"][k]]
        commands = [["versions", "patch", "-a", *storage], ["files", *storage, "-r", *select, component], ["download", *storage, *select, component], ["files", *storage, "-r", "patch="]]
        if case["export"]:
            commands.append(["export", "--full", *storage, "-o", [f"{d}/out", "out"][k], "latest"])
        jobs.append(dict(cwd=cwd, routes=dict(cdn.routes), blocks=release["blocks"], tz=case["tz"][k], environ={"COLUMNS": str(80 + 60 * k)}, shuffle=case["shuffle"] + k, hashes=(f"{d}/game.txt", f"{d}/lcu.txt"),
                         results=f"{root}/res{k}", verbose=case["verbose"][k], commands=[[c] for c in commands] if k == 0 else [commands]))
    running = [submit(seed, job) for seed, job in zip(case["hash_seeds"], jobs)]
    a, b = [collect(s, job) for s, job in zip(running, jobs)]
    for [argv], (rc, text), (rc2, text2) in zip(jobs[0]["commands"], a, b):
        expect(rc == rc2, f"status of {argv}: {rc} in one environment, {rc2} in the other")
        expect(argv[0] == "export" or rc == 0, f"{argv} failed: {rc}")
        eq(text2, text, f"output of {argv} in another environment")
    left, right = (patchgen.snapshot(f"{root}/{x}") for x in "ab")
    eq(right, left, "files written in another environment")
    ctx.label("exported" if case["export"] and a[-1][0] == 0 else "not exported")
    ctx.nontrivial(len(a[3][1].split("\n")) > 3 and len(release["langs"]) > 1)


# --- searches

METHODS = ["grep", "numbers", "basenames", "words", "ext", "regionlang", "plugin", "skin-num", "character", "prefixes"]
SKIN_FILES = st.builds(lambda c, s, f: f"assets/characters/{c}/skins/{s}/{f}", st.sampled_from(G.CHARS[:1] * 3 + G.CHARS[1:2]), st.sampled_from(G.SKINS), st.sampled_from(["x.dds", "x_skin1.dds", "base/skin2.bin"]))


@st.composite
def guess_cases(draw):
    method = draw(st.sampled_from(METHODS + ["skin-num"] * 5))
    lcu = draw(st.lists(G.lcu_paths(), min_size=1, max_size=5, unique=True))
    game = draw(st.lists(SKIN_FILES if method == "skin-num" else st.one_of(G.game_paths(), SKIN_FILES), min_size=3, max_size=6, unique=True))
    unknown = []
    for p in draw(st.lists(st.sampled_from(game if method == "skin-num" else lcu + game), min_size=3, max_size=10)):
        # other values at some places of a known path
        kind = draw(st.integers(0, 2))
        if kind == 0 or method == "skin-num":
            words = ["skin1", "skin02", "skin11", "skin2", "base"]
            p = re.sub(r"base|skin\d+", lambda m: draw(st.sampled_from(words)), p)
        elif kind == 1:
            p = re.sub(r"\d+", lambda m: str(draw(st.integers(0, 30))), p)
        else:
            q = draw(st.sampled_from(lcu + game))
            p = p.rsplit("/", 1)[0] + "/" + q.rsplit("/", 1)[-1]
        unknown.append(p)
    unknown += draw(st.lists(st.one_of(G.lcu_paths(), G.game_paths(), SKIN_FILES), max_size=4))
    return dict(lcu=lcu, game=game, unknown=[p for p in dict.fromkeys(unknown) if p not in lcu + game], methods=list(dict.fromkeys([method, *draw(st.lists(st.sampled_from(METHODS), max_size=2))])),
                hash_seeds=draw(st.sampled_from([(1, 2), (1, 3), (2, 3)])), shuffle=draw(st.integers(0, 99)))


def check_guess(case, ctx):
    root = ctx.tmp()
    files = {}
    for ext in (".wad", ".wad.client"):
        own = [p for p in case["unknown"] if p.startswith("plugins/") == (ext == ".wad")]
        files[f"guess{ext}"] = patchgen.wad_bytes([(p, b"\x01", 0) for p in own] + [(f"zz/holder{ext}", G.mention("lcu" if ext == ".wad" else "game", own[::2]), 3)])
    jobs = []
    for k in (0, 1):
        d = f"{root}/{'ab'[k]}"
        ref.write_tree(d, files)
        for name, paths in (("game", case["game"] + ["data/wad.subchunktoc"]), ("lcu", case["lcu"] + ["wad.subchunktoc"])):
            with open(f"{d}/{name}.txt", "wb") as f:
                f.write("".join(f"{wadgen.wad_hash(p):016x} {p}\n" for p in sorted(paths)).encode())
        jobs.append(dict(cwd=d, tz="UTC", environ={}, shuffle=case["shuffle"] + k, hashes=(f"{d}/game.txt", f"{d}/lcu.txt"), results=f"{root}/res{k}", verbose=0,
                         commands=[[["hashes-guess", "-m", ",".join(case["methods"]), f"{d}/guess.wad", f"{d}/guess.wad.client"]]]))
    running = [submit(seed, job) for seed, job in zip(case["hash_seeds"], jobs)]
    [(rc, text)], [(rc2, text2)] = [collect(s, job) for s, job in zip(running, jobs)]
    expect(rc == rc2 == 0, f"status of hashes-guess: {rc} in one environment, {rc2} in the other")
    eq(lines(text2), lines(text), f"lines of hashes-guess {case['methods']} in another environment")
    left, right = (patchgen.snapshot(f"{root}/{x}") for x in "ab")
    eq(right, left, "files written in another environment")
    ctx.label("found" if text.strip() else "nothing found", *case["methods"])
    ctx.nontrivial(text.strip())


SUBS = [Sub("environment", cases, check, 104, 4000, "the patches share files, if links are requested", shards=6),
        Sub("rads", rads_cases, check_rads, 120, 6000, "several languages and files", shards=2),
        Sub("guess", guess_cases, check_guess, 1200, 20000, "some path is found", shards=4)]
