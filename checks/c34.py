"""C34 RADS projects, solutions and releases are identified and ordered consistently"""
import functools
import os
from hypothesis import strategies as st
from vp.cdn import CDN
from vp.core import Sub, eq, expect
from cdtb.rads import RadsStorage, RadsSolution, RadsSolutionVersion, RadsProject, RadsProjectVersion, RadsVersion, parse_rads_component
from cdtb.storage import PatchVersion

ASSUMPTIONS = ["project release listings are given latest first by the server", "version numbers are written without leading zeros", "only names of one storage (opened once or more) are compared",
               "directories of the releases in storage are named after versions"]

URL = "http://cdn.test/releases/live/"
NAMES = ["league_client", "league_client_fr_fr", "lol_game_client", "a", "A", "b", "ab", "a_b", "patch2", "x_sln_"]
SLNS = ["league_client_sln", "lol_game_client_sln", "a_sln", "_sln", "b_sln"]
num = st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11, 99, 100, 254, 255]))
versions = st.tuples(num, num, num, num)
CLASSES = ["sln", "slnv", "proj", "projv"]


def text(v):
    return ".".join(map(str, v))


def build(storage, item):
    kind, name, v, as_tuple = item
    v = RadsVersion(tuple(v) if as_tuple else text(v))
    if kind == "sln":
        return RadsSolution(storage, name)
    if kind == "slnv":
        return RadsSolutionVersion(RadsSolution(storage, name), v)
    if kind == "proj":
        return RadsProject(storage, name)
    return RadsProjectVersion(RadsProject(storage, name), v)


def key(item):
    """What identifies an item; order of one class: by name, latest first"""
    kind, name, v, _ = item
    return (kind, name) + ((tuple(-x for x in v),) if kind.endswith("v") else ())


# --- order and identity

st_item = st.tuples(st.sampled_from(CLASSES), st.sampled_from(["a", "b", "ab", "A", "a_sln"]), versions, st.booleans())


@st.composite
def item_lists(draw):
    base = draw(versions)
    near = st.one_of(versions, st.just(base), st.tuples(st.integers(0, 3), num).map(lambda t: base[:t[0]] + (t[1],) + base[t[0] + 1:]))
    item = st.tuples(st.sampled_from(CLASSES if draw(st.booleans()) else [draw(st.sampled_from(CLASSES))]), st.sampled_from(["a", "b", "ab", "A", "a_sln"]), near, st.booleans())
    return draw(st.lists(item, min_size=2, max_size=9))


def check_order(case, ctx):
    path = ctx.tmp()
    storage = RadsStorage(path, URL)
    # a storage may be opened several times
    objs = [build(storage if n % 2 else RadsStorage(path, URL), i) for n, i in enumerate(case)]
    keys = [key(i) for i in case]
    for a, ka in zip(objs, keys):
        for b, kb in zip(objs, keys):
            eq(a == b, ka == kb, f"{a!r} == {b!r}")
            eq(a != b, ka != kb, f"{a!r} != {b!r}")
            if ka == kb:
                eq(hash(a), hash(b), f"hashes of {a!r} and {b!r}")
                eq((str(a), repr(a)), (str(b), repr(b)), "texts of equal items")
            if ka[0] == kb[0]:
                eq(a < b, ka < kb, f"{a!r} < {b!r}")
                eq(a > b, ka > kb, f"{a!r} > {b!r}")
            else:
                try:
                    a < b
                except TypeError:
                    pass
                else:
                    expect(False, f"{a!r} and {b!r} are ordered")
        for other in ("a", None, 1, ("a",), str(a)):
            expect(not a == other and a != other, f"{a!r} equals {other!r}")
    eq(len(set(objs)), len(set(keys)), "distinct items")
    eq({o: k for o, k in zip(objs, keys)}.keys() & set(objs), set(objs), "items as keys")
    for k in CLASSES:
        mine = [(o, ko) for o, ko in zip(objs, keys) if ko[0] == k]
        eq([keys[objs.index(o)] for o in sorted(o for o, _ in mine)], sorted(ko for _, ko in mine), f"sorted {k}")
    pairs = [(objs[i], keys[i]) for i in range(len(objs)) if keys[i][0] in ("slnv", "projv")]
    for o, ko in pairs:
        v = text(-x for x in ko[2])
        name = ko[1]
        eq(str(o), f"rads:{name}={v}", "text of a release")
        eq(o.path, f"{'solutions' if ko[0] == 'slnv' else 'projects'}/{name}/releases/{v}", "path of a release")
    ctx.nontrivial(any(keys[i] < keys[j] and keys[i][:2] == keys[j][:2] for i in range(len(keys)) for j in range(i)) and len(set(keys)) < len(keys))


# --- component texts

class FakeRads(RadsStorage):
    storage_type = None

    def patch(self, version=None, stored=False):
        return ("patch", None if version is None else str(version), stored)


@st.composite
def component_cases(draw):
    names = {n: draw(st.lists(versions, min_size=1, max_size=4, unique=True)) for n in NAMES + SLNS}
    comps = []
    for _ in range(draw(st.integers(1, 6))):
        prefix = draw(st.sampled_from(["", "", "p:", "s:", "x:", ":", "P:", "patch:"]))
        name = draw(st.sampled_from(NAMES + SLNS + SLNS + ["patch", "patch", "", "a-b", "a.b", "a b", "a/b", "=", "../a"]))
        v = draw(st.one_of(st.just(None), st.just(""), versions.map(text), st.sampled_from(names.get(name, [(0, 0, 0, 1)])).map(text),
                           st.sampled_from(["9.1", "main", "1", "1.2.3", "1.2.3.4.5", "x", "1.", ".1", "1..2", " 1.2.3.4", "latest", "-1.0.0.0", "1.2.3.4 "])))
        comps.append(prefix + name + ("" if v is None else "=" + v))
    return dict(names=names, comps=comps, order=draw(st.booleans()), url=draw(st.sampled_from([URL, URL])), eol=draw(st.sampled_from(["\n", "\r\n"])), final=draw(st.booleans()))


def model_component(comp, names):
    """(kind, name, version text or None), or None if refused"""
    typ = ""
    rest = comp
    if comp[1:2] == ":":
        typ, rest = comp[0], comp[2:]
        if typ not in "sp":
            return None
    name, sep, v = rest.partition("=")
    if not name or not all(c.isalnum() or c == "_" for c in name):
        return None
    nums = v.split(".")
    digits = bool(v) and all(x.isascii() and x.isdigit() for x in nums)
    if v not in ("", "main") and not digits:
        return None
    if not typ and name == "patch":
        return ("patch", None, v) if sep else None
    if not typ:
        typ = "s" if name.endswith("_sln") else "p"
    kind = "sln" if typ == "s" else "proj"
    if not sep:
        return (kind, name, None)
    if v == "":
        return (kind + "v", name, text(max(names[name]))) if name in names else None
    if len(nums) != 4 or v == "main":
        return None
    return (kind + "v", name, v)


def check_components(case, ctx):
    cdn = CDN()
    storage = FakeRads(os.path.join(ctx.tmp(), "RADS"), case["url"])
    for n, vs in case["names"].items():
        listing = sorted(vs, reverse=True)
        body = case["eol"].join(map(text, listing)) + (case["eol"] if case["final"] else "")
        cdn.routes[f"{case['url']}projects/{n}/releases/releaselisting"] = body.encode()
        # solutions: any order
        sol = vs if case["order"] else listing
        cdn.routes[f"{case['url']}solutions/{n}/releases/releaselisting"] = (case["eol"].join(map(text, sol)) + case["eol"]).encode()
    refused = 0
    with cdn.installed():
        for comp in case["comps"]:
            want = model_component(comp, case["names"])
            try:
                got = parse_rads_component(storage, comp)
            except Exception as e:
                expect(want is None, f"component {comp!r} refused: {type(e).__name__}: {e}")
                refused += 1
                continue
            expect(want is not None, f"component {comp!r} accepted: {got!r}")
            kind, name, v = want
            if kind == "patch":
                eq(got, ("patch", v or None, False), f"component {comp!r}")
                continue
            cls = dict(sln=RadsSolution, slnv=RadsSolutionVersion, proj=RadsProject, projv=RadsProjectVersion)[kind]
            expect(type(got) is cls, f"component {comp!r}: got {got!r}, want a {cls.__name__}")
            eq(str(got), f"rads:{name}" + (f"={v}" if v is not None else ""), f"component {comp!r}")
            eq(got.path, f"{'solutions' if 'sln' in kind else 'projects'}/{name}/releases" + (f"/{v}" if v is not None else ""), f"path of {comp!r}")
        for n, vs in case["names"].items():
            got = RadsSolution(storage, n).versions()
            eq([str(v.version) for v in got], [text(v) for v in sorted(vs, reverse=True)], f"releases of solution {n}")
            got = RadsProject(storage, n).versions()
            eq([str(v.version) for v in got], [text(v) for v in sorted(vs, reverse=True)], f"releases of project {n}")
    ctx.label("refused" if refused else "accepted")
    ctx.nontrivial(refused and refused < len(case["comps"]))


# --- what is in storage, downloading everything

@st.composite
def stored_cases(draw):
    tree = {}
    for kind in ("projects", "solutions"):
        tree[kind] = draw(st.dictionaries(st.sampled_from(NAMES + SLNS), st.one_of(st.none(), st.lists(versions, max_size=4, unique=True)), max_size=4))
    return dict(tree=tree, files=draw(st.booleans()), released=draw(st.lists(versions, max_size=5, unique=True)), langs=draw(st.sampled_from([True, False, "fr_fr", ["fr_fr", "en_us"]])), kind=draw(st.sampled_from(["sln", "proj"])))


def check_stored(case, ctx):
    root = os.path.join(ctx.tmp(), "RADS")
    storage = RadsStorage(root, URL)
    for kind, names in case["tree"].items():
        os.makedirs(f"{root}/{kind}")
        for n, vs in names.items():
            os.makedirs(f"{root}/{kind}/{n}" + ("/releases" if vs is not None else ""))
            for v in vs or ():
                os.makedirs(f"{root}/{kind}/{n}/releases/{text(v)}")
            if vs is not None and case["files"]:
                with open(f"{root}/{kind}/{n}/releases/releaselisting", "w") as f:
                    f.write("0.0.0.0\n")
        if case["files"]:
            with open(f"{root}/{kind}/readme.txt", "w") as f:
                f.write("not a directory")
    cdn = CDN()
    with cdn.installed():
        eq(sorted(p.name for p in storage.list_projects()), sorted(n for n, vs in case["tree"]["projects"].items() if vs is not None), "projects in storage")
        eq(sorted(p.name for p in storage.list_solutions()), sorted(n for n, vs in case["tree"]["solutions"].items() if vs is not None), "solutions in storage")
        expect(all(type(p) is RadsProject for p in storage.list_projects()) and all(type(p) is RadsSolution for p in storage.list_solutions()), "wrong types")
        for n in NAMES + SLNS:
            got = RadsSolution(storage, n).versions(stored=True)
            eq([(str(v.version), v.solution.name) for v in got], [(text(v), n) for v in sorted(case["tree"]["solutions"].get(n) or [], reverse=True)], f"stored releases of {n}")
        eq(cdn.log, [], "requests for stored releases")
        # download all releases
        name = "a_sln"
        dirname = "solutions" if case["kind"] == "sln" else "projects"
        cdn.routes[f"{URL}{dirname}/{name}/releases/releaselisting"] = "".join(text(v) + "\n" for v in sorted(case["released"], reverse=True)).encode()
        done = []
        cls = RadsSolutionVersion if case["kind"] == "sln" else RadsProjectVersion
        old = cls.download
        cls.download = lambda self, *a, **k: done.append((self.path, a, k))
        try:
            if case["kind"] == "sln":
                RadsSolution(storage, name).download(case["langs"])
            else:
                RadsProject(storage, name).download()
        finally:
            cls.download = old
        eq(sorted(p for p, _, _ in done), sorted(f"{dirname}/{name}/releases/{text(v)}" for v in case["released"]), "downloaded releases")
        if case["kind"] == "sln":
            expect(all((list(a) + list(k.values())) == [case["langs"]] for _, a, k in done), f"languages of the downloads: {done}")
    ctx.nontrivial(sum(bool(vs) for names in case["tree"].values() for vs in names.values()) > 1 and case["files"])


SUBS = [
    Sub("order", item_lists, check_order, 1800, 20000, "items of the same name and different versions, and equal items", shards=2),
    Sub("components", component_cases, check_components, 1800, 20000, "accepted and refused components", shards=3),
    Sub("stored", stored_cases, check_stored, 1000, 10000, "several names with releases, next to other files", shards=2),
]
