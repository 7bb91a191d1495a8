"""C21 Patches are listed latest first, each once, with their latest elements"""
import json
import os
from hypothesis import strategies as st
from vp.cli import run_cli
from vp.core import Sub, eq, expect, raises
from vp.patchgen import FakeElement, FakeStorage
from cdtb.patcher import PatcherStorage
from cdtb.storage import PatchVersion, parse_storage_component

ASSUMPTIONS = ["patch versions of one component (client or game) never increase from a release to the previous one, as documented",
               "all queried releases of a stored-only lookup are stored, unless the lookup is given `stored` explicitly"]


class ListStorage(FakeStorage):
    """Storage serving a given list of (element, is stored)"""
    storage_type = "vplist"
    current = []

    def __init__(self, path, items):
        super().__init__(path, [e for e, _ in items])
        self.items = items
        self.pulled = 0

    @classmethod
    def from_conf_data(cls, conf):
        return cls(conf["path"], cls.current)

    def patch_elements(self, stored=False):
        for e, is_stored in self.items:
            if is_stored or not stored:
                yield e


@st.composite
def releases(draw):
    """[(name, version text, stored)], latest first, with non-increasing versions"""
    if draw(st.integers(0, 9)) == 0:
        versions = ["main"] * draw(st.integers(0, 6))
    else:
        num = st.one_of(st.tuples(st.integers(8, 11), st.integers(1, 24)), st.tuples(st.sampled_from([9, 10]), st.sampled_from([1, 2, 9, 10, 11, 19, 20])))
        pool = draw(st.lists(num, max_size=5))
        versions = [".".join(map(str, v)) for v in sorted([v for v in pool for _ in range(draw(st.integers(1, 5)))], reverse=True)]
    names = draw(st.sampled_from([("game", "client"), ("game", "client"), ("game", "client", "client"), ("game",), ("client",)]))
    all_stored = draw(st.booleans())
    return [(draw(st.sampled_from(names)), v, all_stored or draw(st.booleans())) for v in versions]


def near(draw, rel):
    """A version text: known, close to a known one or unrelated"""
    known = [v for _, v, _ in rel]
    k = draw(st.integers(0, 7))
    if known and k < 5:
        return draw(st.sampled_from(known))
    if k == 5 and known and "main" not in known:
        v = draw(st.sampled_from(known))
        return draw(st.sampled_from([v + "0", v + "1", v.split(".")[0], v + ".1"]))
    return draw(st.sampled_from(["9.1", "9.10", "9.2", "10.1", "1.1", "99.1", "main", "9"]))


@st.composite
def cases(draw):
    rel = draw(releases())
    q = [near(draw, rel) for _ in range(draw(st.integers(1, 4)))]
    return dict(releases=rel, queries=q)


def model_patches(items):
    """[(version, [latest element of each name])]"""
    out = []
    for e in items:
        v = str(e.version)
        if not out or out[-1][0] != v:
            out.append((v, []))
        if e.name not in [x.name for x in out[-1][1]]:
            out[-1][1].append(e)
    return out


def build(rel):
    return [(FakeElement(name, PatchVersion(v), [(f"/fs/{i}/{name}.wad", f"{i}/{name}.wad", None)]), stored) for i, (name, v, stored) in enumerate(rel)]


def ids(elements):
    return sorted(e.files[0][0] for e in elements)


def is_version(q):
    parts = q.split(".")
    return q == "main" or len(parts) >= 2


def check(case, ctx):
    items = build(case["releases"])
    storage = ListStorage("/nonexistent", items)
    ListStorage.current = items
    for stored in (False, True):
        visible = [e for e, s in items if s or not stored]
        model = model_patches(visible)
        where = f"(stored={stored})"
        got = list(storage.patches(stored=stored))
        eq([str(p.version) for p in got], [v for v, _ in model], f"listed versions {where}")
        for p, (v, elements) in zip(got, model):
            eq(ids(p.elements), ids(elements), f"elements of patch {v} {where}")
            eq(ids(p.latest().elements), ids(elements), f"latest elements of patch {v} {where}")
            eq(str(p), f"patch={v}", "patch text")
        for i, p in enumerate(got):
            for j, q in enumerate(got):
                eq(p == q, i == j, "equality of patches")
        if "main" not in [v for v, _ in model]:
            eq([str(p.version) for p in sorted(got[::-1])], [v for v, _ in model], f"sorted patches {where}")

        def same(p, want, what):
            if want is None:
                expect(p is None, f"{what}: got {p!r}, there is none")
            else:
                expect(p is not None, f"{what}: not found")
                eq((str(p.version), ids(p.elements)), (want[0], ids(want[1])), what)
        same(storage.patch(stored=stored), model[0] if model else None, f"latest patch {where}")
        for q in case["queries"]:
            want = next((m for m in model if m[0] == q), None)
            same(storage.patch(q, stored=stored), want, f"patch {q} {where}")
            if is_version(q) and q.count(".") < 2:
                same(storage.patch(PatchVersion(q), stored=stored), want, f"patch {q} given as a version {where}")
            for name in ("game", "client"):
                for version in (q, None):
                    want_e = next((e for e in visible if e.name == name and version in (None, str(e.version))), None)
                    e = storage.patch_element(name, version, stored=stored)
                    expect(e is want_e, f"element {name} {version} {where}: got {e and e.files[0][0]}, want {want_e and want_e.files[0][0]}")
    # components
    model = model_patches([e for e, _ in items])
    full = all(s for _, s in items)
    for q in case["queries"] + [""]:
        for dot in ("", "."):
            if dot and (q in ("", "main") or "." not in q):
                continue
            want = (model[0] if model else None) if q == "" else next((m for m in model if m[0] == q), None)
            text = f"patch={q}{dot}"
            same(parse_storage_component(storage, text), want, f"component {text}")
            for name in ("game", "client"):
                if not full and q:
                    continue
                text = f"{name}={q}{dot}"
                want_e = next((e for e, _ in items if e.name == name and q in ("", str(e.version))), None)
                e = parse_storage_component(storage, text)
                expect(e is want_e, f"component {text}: got {e and e.files[0][0]}, want {want_e and want_e.files[0][0]}")
                # command line
                rc, out, err = run_cli(["files", "-s", "vplist:x", text])
                if want_e is None:
                    eq(rc, 2, f"status of `files {text}`")
                    expect(out == "" and "usage" in err, f"`files {text}` is not a usage error")
                else:
                    eq((rc, out), (0, want_e.files[0][0] + "\n"), f"`files {text}`")
    for q in case["queries"][:1] + [""]:
        want = (model[0] if model else None) if q == "" else next((m for m in model if m[0] == q), None)
        rc, out, err = run_cli(["files", "-r", "-s", "vplist:x", f"patch={q}"])
        if want is None:
            eq(rc, 2, f"status of `files patch={q}`")
        else:
            eq((rc, sorted(out.split())), (0, sorted(e.files[0][1] for e in want[1])), f"`files -r patch={q}`")
        rc, out, err = run_cli(["download", "-s", "vplist:x", "--no-lang", f"patch={q}"])
        eq(rc, 0 if want else 2, f"status of `download patch={q}`")
        got = ids(e for e, _ in items if e.downloaded)
        eq(got, ids(want[1]) if want else [], f"elements downloaded by `download patch={q}`")
        for e, _ in items:
            expect(e.downloaded in ([], [False]), f"element downloaded with {e.downloaded}")
            e.downloaded = []
    for typ in ("patch", "game", "client"):
        for opts in ([], ["-a"]):
            m = model_patches([e for e, s in items if s or opts])
            want = [v for v, es in m if typ == "patch" or typ in [e.name for e in es]]
            rc, out, err = run_cli(["versions", "-s", "vplist:x", typ] + opts)
            eq((rc, out.split()), (0, want), f"`versions {typ} {opts}`")
    ctx.label("empty" if not items else "main" if model[0][0] == "main" else "patches", "all stored" if full else "some stored")
    ctx.nontrivial(len(model) > 1 and len(items) > sum(len(es) for _, es in model))


# --- component syntax

def texts():
    good = st.one_of(st.sampled_from(["", "main", "9.1", "9.10", "9.1."]), st.tuples(st.integers(0, 30), st.integers(0, 30)).map(lambda t: f"{t[0]}.{t[1]}"))
    bad = st.sampled_from(["x", ".", "9.", "9..1", ".1", "main.", "Main", "latest", " 9.1", "9.1 ", "9,1", "-1.2", "9.x", "+9.1", "9.1..", "*", "9.1=", "=9.1", "9.1;main", "main9", "9.1-rc"])
    name = st.one_of(st.sampled_from(["patch", "game", "client"]), st.sampled_from(["", "Patch", "patches", "solution", "lol", "game ", " game", "xgame", "projects", "patch|game", "p"]))
    eqs = st.one_of(st.just("="), st.just("="), st.just("="), st.sampled_from(["", ":", "==", " = ", "=="]))
    return st.tuples(name, eqs, st.one_of(good, good, bad))


def valid(text):
    name, sep, v = text.partition("=")
    if name not in ("patch", "game", "client") or sep != "=":
        return False
    if v in ("", "main"):
        return True
    v = v[:-1] if v.endswith(".") and v.count(".") > 1 else v
    parts = v.split(".")
    return len(parts) == 2 and all(p.isascii() and p.isdigit() for p in parts)


def check_syntax(case, ctx):
    text = "".join(case)
    elem = FakeElement("game", PatchVersion("9.1"), [("/fs/a.wad", "a.wad", None)])
    storage = ListStorage("/nonexistent", [(elem, True)])
    ListStorage.current = storage.items
    ok = valid(text)
    if ok:
        got = parse_storage_component(storage, text)
        found = text.split("=")[0] != "client" and text.split("=")[1] in ("", "9.1", "9.1.")
        expect((got is not None) == found, f"component {text!r}: got {got!r}")
    else:
        raises(ValueError, lambda: parse_storage_component(storage, text), f"component {text!r}")
        found = False
    if not text.startswith("-"):
        rc, out, _ = run_cli(["files", "-s", "vplist:x", text])
        eq((rc, out), (0, "/fs/a.wad\n") if found else (2, ""), f"`files {text!r}`")
    ctx.label("valid" if ok else "invalid")
    ctx.nontrivial(not ok)


# --- language options, and elements as values

LANGS = [None, None, "en_us", "fr_fr", "ko_kr", "zh_cn"]


@st.composite
def lang_cases(draw):
    elems = []
    for name in ("game", "client"):
        if draw(st.integers(0, 3)):
            elems.append((name, "9.3", draw(st.lists(st.tuples(st.sampled_from(["a", "b", "C", "x y", "é"]), st.sampled_from(LANGS)), max_size=6, unique=True))))
    langs = draw(st.sampled_from([None, "no", ["en_us"], ["fr_fr"], ["fr_fr", "en_us"], ["en_us", "ko_kr", "zh_cn"]]))
    return dict(elems=elems, older=draw(st.booleans()), langs=langs, after=draw(st.booleans()), component=draw(st.sampled_from(["patch=9.3", "patch=", "patch=9.3.", "game=9.3", "client="])))


def check_langs(case, ctx):
    items = [(FakeElement(n, PatchVersion(v), [(f"/fs/{n}/{f}.{l}", f"{f}.{l}".lower(), l) for f, l in files]), True) for n, v, files in case["elems"]]
    if case["older"]:
        items += [(FakeElement(n, PatchVersion(v), [("/old", "old", None)]), True) for n, v in (("game", "9.3"), ("client", "9.3"), ("game", "9.2"))]
    storage = ListStorage("/nonexistent", items)
    ListStorage.current = items
    name = case["component"].split("=")[0]
    chosen = []
    for e, _ in items:
        if str(e.version) == str(items[0][0].version) and e.name not in [c.name for c in chosen] and name in ("patch", e.name):
            chosen.append(e)
    opt = [] if case["langs"] is None else ["--no-lang"] if case["langs"] == "no" else ["--lang", *case["langs"]]
    langs = True if case["langs"] is None else False if case["langs"] == "no" else case["langs"]
    wanted = [f for e in chosen for f in e.files if langs is True or (f[2] is None if langs is False else f[2] in langs)]
    tail = [case["component"]] if not (opt and opt[0] == "--lang") else None
    for rel in (False, True):
        argv = ["files", "-s", "vplist:x"] + ["-r"] * rel
        argv += opt + tail if tail and not case["after"] else [case["component"]] + opt
        rc, out, err = run_cli(argv)
        if not chosen:
            eq((rc, out), (2, ""), f"{argv}")
            continue
        eq((rc, sorted(out.splitlines())), (0, sorted(f[rel] for f in wanted)), f"{argv}")
    argv = ["download", "-s", "vplist:x"] + (opt + tail if tail and not case["after"] else [case["component"]] + opt)
    rc, out, err = run_cli(argv)
    eq((rc, out), (0 if chosen else 2, ""), f"{argv} {err}")
    for e, _ in items:
        eq(e.downloaded, [langs] if any(e is c for c in chosen) else [], f"downloads of {e!r} by {argv}")
        e.downloaded = []
    # a patch downloads each of its elements
    for p in storage.patches():
        p.download(langs=langs)
        for e, _ in items:
            eq(e.downloaded, [langs] if any(e is c for c in p.elements) else [], f"downloads of {e!r} by {p!r}")
            e.downloaded = []
        p.download()
        for e in p.elements:
            eq(e.downloaded, [True], "default languages of a download")
            e.downloaded = []
    # elements are equal when they have the same name and version
    for e, _ in items:
        for f, _ in items:
            same = (e.name, str(e.version)) == (f.name, str(f.version))
            eq((e == f, e != f), (same, not same), f"equality of {e!r} and {f!r}")
            if same:
                eq(hash(e), hash(f), f"hash of {e!r}")
        expect(e != e.name and e != str(e.version) and e is not None, "element equal to a text")
        eq(list(e.paths()), [(f[0], f[1]) for f in e.files], "path pairs")
    ctx.label(str(case["langs"]), name)
    ctx.nontrivial(wanted and len(wanted) < sum(len(e.files) for e in chosen))


# --- releases stored by a patcher storage

@st.composite
def stored_cases(draw):
    rel = draw(releases().filter(lambda r: all(v != "main" for _, v, _ in r)))
    start = draw(st.sampled_from([1, 90, 99990, 999999990, 1600000000]))
    versions = [v for _, v, _ in rel][::-1]
    out = []
    t = start
    if versions:
        # client and game may be updated separately
        together = draw(st.booleans())
        at = {"client": 0, "game": 0}
        for _ in range(len(versions)):
            t += draw(st.sampled_from([1, 1, 9, 500, 86400]))
            names = draw(st.sampled_from([("client", "game"), ("client", "game"), ("client",), ("game",)]))
            for n in ("client", "game") if together else draw(st.sampled_from([("client",), ("game",), ("client", "game"), ()])):
                at[n] = min(len(versions) - 1, (max(at.values()) if together else at[n]) + draw(st.integers(0, 1)))
            if together:
                at = dict.fromkeys(at, max(at.values()))
            out.append((t, {n: versions[at[n]] for n in names}))
    return dict(releases=out, pbe=draw(st.integers(0, 5)) == 0, extra=draw(st.lists(st.sampled_from(["latest", "x.json", "12a", "7"]), max_size=2, unique=True)))


def check_stored(case, ctx):
    root = ctx.tmp()
    line = "pbe" if case["pbe"] else "live"
    base = f"{root}/cdtb/releases/{line}"
    rels = case["releases"]
    # order of creation is irrelevant
    for t, elems in rels[1::2] + rels[::2][::-1]:
        os.makedirs(f"{base}/{t}")
        with open(f"{base}/{t}/release.json", "w") as f:
            json.dump({f"{n}_patch_url": f"https://lol.dyn.riotcdn.net/{n}/{t}" for n in elems}, f)
        for n, v in elems.items():
            with open(f"{base}/{t}/patch_version.{n}", "w") as f:
                f.write(f"{v}\n")
    for e in case["extra"]:
        os.makedirs(f"{base}/{e}", exist_ok=True)    # not a release
    storage = PatcherStorage(root, line)
    flat = [(t, n, "main" if case["pbe"] else v) for t, elems in rels[::-1] for n, v in elems.items()]
    if not case["pbe"]:
        flat.sort(key=lambda x: tuple(map(int, x[2].split("."))), reverse=True)
    got = [(e.elem.release.version, e.name, str(e.version)) for e in storage.patch_elements(stored=True)]
    eq(sorted(got), sorted(flat), "stored elements")
    eq([(g[2], g[0]) for g in got], [(v, t) for t, n, v in flat], "order of stored elements")
    model = []
    for t, n, v in flat:
        if not model or model[-1][0] != v:
            model.append((v, {}))
        model[-1][1].setdefault(n, t)
    patches = list(storage.patches(stored=True))
    eq([(str(p.version), {e.name: e.elem.release.version for e in p.elements}) for p in patches], model, "stored patches")
    eq([(str(p.version), sorted(e.name for e in p.elements)) for p in patches], [(v, sorted(es)) for v, es in model], "elements of the patches")
    for v, es in model + [("99.1", None)]:
        p = storage.patch(v, stored=True)
        eq(p and {e.name: e.elem.release.version for e in p.elements}, es, f"patch {v}")
        for n in ("game", "client"):
            e = storage.patch_element(n, v, stored=True)
            eq(e and e.elem.release.version, es and es.get(n), f"{n} of patch {v}")
    p = storage.patch(stored=True)
    eq(p and str(p.version), model[0][0] if model else None, "latest patch")
    ctx.label(line, "staggered" if any(len(set(es.values())) > 1 for _, es in rels) else "together")
    ctx.nontrivial(len(model) > 1 and len(rels) > 2)


SUBS = [
    Sub("languages", lang_cases, check_langs, 800, 8000, "some files of the component are selected and others are not", shards=2),
    Sub("listing", cases, check, 840, 12000, "at least two patches and an element with several releases in a patch"),
    Sub("stored", stored_cases, check_stored, 800, 10000, "at least two patches and three releases"),
    Sub("syntax", texts, check_syntax, 1400, 12000, "the component does not follow the format"),
]
