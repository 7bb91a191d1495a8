"""C33 The guess command runs exactly the requested methods on the requested archives"""
import contextlib
import os
from hypothesis import strategies as st
from vp import guessgen as G, guessref as R, patchgen
from vp.cli import run_cli, Stream
from vp.core import Sub, eq, expect, short
from cdtb import hashes as H
from cdtb.hashes import LcuHashGuesser, GameHashGuesser
from cdtb.storage import PatchVersion
from cdtb.wad import Wad

ASSUMPTIONS = ["lists are small, so that methods stay fast",
               "which of several paths leading to a same hash is irrelevant: hashes do not collide"]

# method: (client method, game method)
METHODS = {
    "grep": ("grep", "grep"),
    "numbers": ("substitute_numbers", "substitute_numbers"),
    "basenames": ("substitute_basenames", "substitute_basenames"),
    "words": ("substitute_basename_words", "substitute_basename_words"),
    "ext": ("substitute_extensions", "substitute_extensions"),
    "regionlang": ("substitute_region_lang", None),
    "plugin": ("substitute_plugin", None),
    "skin-num": (None, "substitute_skin_numbers"),
    "character": (None, "substitute_character"),
    "prefixes": (None, "check_basename_prefixes"),
}
DEFAULT = [m for m in METHODS if m not in ("basenames", "words")]
KINDS = ("lcu", "game")


class GuessStorage(patchgen.FakeStorage):
    """Storage whose elements are set by the check"""
    storage_type = "vpguess33"
    current = []

    @classmethod
    def from_conf_data(cls, conf):
        return cls(conf["path"], cls.current)


def name_of(kind, i, sub):
    return ("x/" if sub else "") + f"w{i}" + (".wad" if kind == "lcu" else ".wad.client")


@st.composite
def cases(draw):
    lcu = draw(st.lists(G.lcu_paths(), min_size=1, max_size=4, unique=True))
    game = draw(st.lists(G.game_paths(), min_size=1, max_size=4, unique=True))
    names = list(METHODS)
    methods = draw(st.one_of(st.none(), st.lists(st.sampled_from(names), min_size=1, max_size=4), st.lists(st.sampled_from([n for n in names if n != "numbers"]), min_size=1, max_size=2)))
    wads = []
    for i in range(draw(st.integers(1, 4))):
        # via: given as a path, in the component, or not given
        wads.append(dict(kind=draw(st.sampled_from(KINDS)), sub=draw(st.booleans()), via=draw(st.sampled_from(["path", "path", "game", "client", "none"]))))
    # planted: (method, client or game, archive)
    plants = draw(st.lists(st.tuples(st.sampled_from(names + (methods or DEFAULT) * 4), st.integers(0, 10 ** 6), st.integers(0, 3)), min_size=2, max_size=10))
    quoted = draw(st.lists(st.tuples(st.sampled_from(G.WORDS), st.integers(0, 3), st.integers(0, 3)), max_size=3))
    return dict(lcu=lcu, game=game, methods=methods, spaces=draw(st.booleans()), wads=wads, plants=plants, quoted=quoted, unnamed=draw(st.lists(st.tuples(st.sampled_from(G.WORDS), st.integers(0, 3), st.integers(0, 3)), max_size=2)), dry=draw(st.booleans()),
                component=draw(st.sampled_from(["patch=9.1", "patch=", "patch=9.1.", "game=9.1", "client="])), swap=draw(st.booleans()), extra=draw(st.booleans()))


def run(f):
    with contextlib.redirect_stdout(Stream()), contextlib.redirect_stderr(Stream()):
        return f()


def library(kind, wads, methods, lists, rounds):
    """{hash: path} found by the given methods, run `rounds` times"""
    G.set_lists([], [], False)
    for k, hf in zip(KINDS, (H.hashfile_lcu, H.hashfile_game)):
        hf.hashes = dict(lists[k])
    g = (LcuHashGuesser if kind == "lcu" else GameHashGuesser).from_wads([Wad(w, hashes=lists[kind]) for w in wads])
    before = dict(g.known)

    def go():
        for _ in range(rounds):
            n = len(g.known)
            for m in methods:
                name = METHODS[m][KINDS.index(kind)]
                if name == "grep":
                    for w in g.wads:
                        w.guess_extensions()
                        g.grep_wad(w)
                elif name:
                    getattr(g, name)()
            if len(g.known) == n:
                break
    run(go)
    return {h: p for h, p in g.known.items() if h not in before}


def check(case, ctx):
    root = ctx.tmp()
    lists = {k: {G.xxh(p): p for p in case[k]} for k in KINDS}
    for k in KINDS:
        lists[k][G.TOC] = "data/wad.subchunktoc"
    # archives
    descs = [dict(name=name_of(w["kind"], i, w["sub"]), kind=w["kind"], via=w["via"], entries=[], toc=True) for i, w in enumerate(case["wads"])]
    for m, pick, i in case["plants"]:
        d = descs[i % len(descs)]
        name = METHODS[m][KINDS.index(d["kind"])]
        if name in (None, "grep"):
            continue
        t = R.targets(d["kind"], name, {}, case["lcu"], case["game"])
        d["entries"] += [(p, b"\x01x", 0, None) for p in R.pick(t, case[d["kind"]], [pick])]
    for word, i, j in case["quoted"]:
        # a path written in a file, possibly in another archive
        d, e = descs[i % len(descs)], descs[j % len(descs)]
        p = f"assets/quoted/{word}_{i}.dds" if e["kind"] == "game" else f"{G.BASE}quoted/{word}_{i}.png"
        text = f'"{p}"'.encode() if d["kind"] == "game" else f'"/lol-game-data/assets/quoted/{word}_{i}.png"'.encode()
        if d["kind"] == "game":
            text = b"PROP" + (len(text) - 2).to_bytes(2, "little") + text[1:-1]
        d["entries"].append((f"data/holder{word}{i}.bin" if d["kind"] == "game" else f"plugins/x/global/default/holder{word}{i}.js", text, 0, None))
        e["entries"].append((p, b"\x01y", 3, None))
    for word, i, j in case["unnamed"]:
        # a path written in a file whose own path and type are unknown
        d, e = descs[i % len(descs)], descs[j % len(descs)]
        if d["kind"] != "game" or e["kind"] != "game":
            continue
        text = f"Maps/MapGeometry/{word}/base{i}".encode()
        d["entries"].append((f"data/unnamed{word}{i}.bin", b"PROP\3\0\0\0" + len(text).to_bytes(2, "little") + text, 3 * (i % 2), None))
        e["entries"].append((f"data/{text.decode().lower()}.mapgeo", b"\x01y", 3, None))
    given = {k: [] for k in KINDS}
    paths, elements = [], {"game": [], "client": []}
    name = case["component"].split("=")[0]
    for d in descs:
        full = G.write_archive(root, d)
        if d["via"] == "path":
            paths.append(full)
        elif d["via"] in elements:
            elements[d["via"]].append((full, d["name"], None))
        if d["via"] == "path" or d["via"] in elements and name in ("patch", d["via"]):
            given[d["kind"]].append(full)
    if case["extra"]:
        with open(f"{root}/other.txt", "wb") as f:
            f.write(b"not an archive")
        elements["client"].append((f"{root}/other.txt", "other.txt", None))
    GuessStorage.current = [patchgen.FakeElement(n, PatchVersion("9.1"), fs) for n, fs in elements.items()]
    GuessStorage.current += [patchgen.FakeElement(n, PatchVersion("9.1"), [(f"{root}/missing.wad", "missing.wad", None)]) for n in elements]    # older releases
    methods = DEFAULT if case["methods"] is None else case["methods"]
    # what each planted file is found by, and what the requested methods can find at most
    least = {k: {} for k in KINDS}
    most = {}
    for k in KINDS:
        for m in set(methods):
            found = library(k, given[k], [m], lists, 1)
            least[k].update(found)
            name_k = METHODS[m][KINDS.index(k)]
            if name_k and name_k != "grep":
                unknown = {h for w in given[k] for h in [wf.path_hash for wf in Wad(w, hashes={}).files]} - set(lists[k])
                promised = {G.xxh(p): p for p in R.targets(k, name_k, {}, case["lcu"] + ["data/wad.subchunktoc"], case["game"] + ["data/wad.subchunktoc"])}
                least[k].update({h: promised[h] for h in unknown if h in promised})
        most[k] = library(k, given[k], methods, lists, 6)
    # the command
    for k, hf in zip(KINDS, (H.hashfile_lcu, H.hashfile_game)):
        hf.filename = f"{root}/{k}.txt"
        hf.hashes = dict(lists[k])
        hf.save()
        hf.hashes = None
    stored = {}
    for k in KINDS:
        with open(f"{root}/{k}.txt", "rb") as f:
            stored[k] = f.read()
    args = paths + [case["component"]]
    if case["swap"]:
        args.reverse()
    argv = ["hashes-guess", "-s", f"vpguess33:{root}"] + (["-n"] if case["dry"] else [])
    if case["methods"] is not None:
        argv += ["-m", (" , " if case["spaces"] else ",").join(methods)]
    try:
        rc, out, err = run_cli(argv + args)
    except Exception as e:
        expect(False, f"{argv} failed: {type(e).__name__}: {e}")
    eq(rc, 0, f"exit status of {argv} ({err})")
    printed = [l for l in out.split("\n") if l]
    total = 0
    for k, hf, label in zip(KINDS, (H.hashfile_lcu, H.hashfile_game), ("LCU", "game")):
        with open(f"{root}/{k}.txt", "rb") as f:
            raw = f.read()
        summary = [l for l in printed if l.startswith(f"found {label} hashes: ")]
        n = int(summary[0].split(": ")[1]) if summary else 0
        if case["dry"]:
            eq(raw, stored[k], f"{label} list after a dry run")
            hf.hashes = dict(lists[k])
            got = {int(l[:16], 16): l[17:] for l in printed if not l.startswith("found ")}
            got = {h: p for h, p in got.items() if h in most[k] or h in least[k]}
            other = {int(l[:16], 16) for l in printed if not l.startswith("found ")} - {h for x in KINDS for h in most[x]}
            expect(not other, f"{argv}: found {sorted(other)}, which the requested methods cannot find")
        else:
            hf.hashes = None
            got = {h: p for h, p in hf.load(force=True).items() if h not in lists[k]}
            eq({h: p for h, p in hf.load().items() if h in lists[k]}, lists[k], f"already known {label} hashes")
        expect(n == len(got) or case["dry"] and set(most["lcu"]) & set(most["game"]), f"{label}: {n} reported, {len(got)} found")
        missed = {h: p for h, p in least[k].items() if got.get(h) != p}
        expect(not missed, lambda: f"{argv}: {sorted(missed.values())[:3]} not found by the requested methods")
        over = {h: p for h, p in got.items() if h not in most[k]}
        expect(not over, lambda: f"{argv}: {sorted(over.values())[:3]} found, but not by the requested methods")
        total += len(got)
    ctx.label("default" if case["methods"] is None else f"{len(set(methods))}-methods", case["component"].split("=")[0], *[f"found:{m}" for m in set(methods) if total and len(set(methods)) == 1])
    planted = sum(len(d["entries"]) for d in descs)
    ctx.nontrivial(total and (planted > total or len(set(methods)) > 1))


# --- method names

@st.composite
def name_cases(draw):
    good = draw(st.lists(st.sampled_from(list(METHODS)), max_size=3))
    bad = draw(st.lists(st.sampled_from(["Grep", "greps", "all", "skin_num", "skinnum", "number", "x", "grep;ext", "grep ext", "-", "*", "none", "regionlang2", "extensions"]), max_size=2))
    return dict(names=draw(st.permutations(good + bad)), bad=bool(bad), form=draw(st.sampled_from(["list", "none", "wad", "wad", "both"])))


def check_names(case, ctx):
    root = ctx.tmp()
    for hf, k in ((H.hashfile_lcu, "lcu"), (H.hashfile_game, "game")):
        hf.filename = f"{root}/{k}.txt"
        hf.hashes = {G.xxh("data/a.bin"): "data/a.bin"}
        hf.save()
        hf.hashes = None
    wad = G.write_archive(root, dict(name="a.wad.client", toc=True, entries=[("data/a.dds", b"x", 0, None), ("data/2x_a.bin", b'x', 0, None)]))
    argv = ["hashes-guess"] + (["--methods=" + ",".join(case["names"])] if case["names"] else [])
    form = case["form"]
    argv += ["--list-methods"] * (form in ("list", "both")) + [wad] * (form in ("wad", "both"))
    with open(f"{root}/game.txt", "rb") as f:
        before = f.read()
    rc, out, err = run_cli(argv)
    with open(f"{root}/game.txt", "rb") as f:
        after = f.read()
    if form in ("list", "both"):
        eq(rc, 0, "status of --list-methods")
        eq([l.split()[0] for l in out.splitlines()], list(METHODS), "listed methods")
        expect(all(len(l.split()) > 2 for l in out.splitlines()), "methods are not described")
        eq(after, before, "list after --list-methods")
    elif form == "none" or case["bad"]:
        eq((rc, out), (2, ""), f"refusal of {argv[1:]}")
        expect("usage" in err, "not a usage error")
        if form != "none":
            expect(any(n.strip() in err for n in case["names"] if n not in METHODS), f"the refused method is not told: {err[-200:]}")
        eq(after, before, "list after a refused command")
    else:
        eq(rc, 0, f"status of {argv[1:]}")
        expect(("2x_a.bin" in after.decode()) == (not case["names"] or "prefixes" in case["names"]), f"prefixes with {argv[1:2]}")
    ctx.label(form, "bad" if case["bad"] else "good")
    ctx.nontrivial(case["bad"] or form != "wad")


SUBS = [
    Sub("methods", cases, check, 1800, 20000, "something is found and something is not to be found, or several methods are requested", shards=8),
    Sub("names", name_cases, check_names, 240, 2000, "an unknown method is given, or no archive", shards=2),
]
