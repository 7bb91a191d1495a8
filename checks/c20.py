"""C20 Version order is total and agrees with equality"""
import functools
import itertools
from hypothesis import strategies as st
from vp.core import Sub, eq, expect, raises
from cdtb.storage import BaseVersion, PatchVersion
from cdtb.rads import RadsVersion

ASSUMPTIONS = ["version texts are canonical decimal numbers", "patch numbers: season up to 98 and patch up to 99 for the integer form, so that 9999 is above all", "only equality is defined between main and other patch versions"]

NUM = st.one_of(st.integers(0, 12), st.integers(0, 300), st.sampled_from([0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 255, 256, 999, 1000, 2 ** 32]))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["base", "base", "rads", "patch", "patch"]))
    if kind == "rads":
        one = st.tuples(NUM, NUM, NUM, NUM)
    elif kind == "patch":
        n = st.one_of(st.integers(0, 99), st.sampled_from([1, 2, 9, 10, 11, 19, 20, 99]))
        one = st.lists(n, min_size=2, max_size=4).map(lambda l: tuple([min(l[0], 98)] + l[1:]))
    else:
        one = st.lists(NUM, min_size=1, max_size=5).map(tuple)
    vs = draw(st.lists(one, min_size=2, max_size=6))
    # near duplicates
    for _ in range(draw(st.integers(0, 3))):
        v = list(vs[draw(st.integers(0, len(vs) - 1))])
        i = draw(st.integers(0, len(v) - 1))
        v[i] = max(0, min(v[i] + draw(st.sampled_from([0, 0, 1, -1, 9, 90])), 98 if kind == "patch" else 2 ** 40))
        vs.append(tuple(v))
    if kind == "base" and draw(st.booleans()):
        vs.append(vs[0] + (0,))
        vs.append(vs[0][:-1] or (0,))
    return dict(kind=kind, versions=vs, main=kind == "patch" and draw(st.booleans()), forms=draw(st.lists(st.booleans(), min_size=1, max_size=4)))


def text(t):
    return ".".join(str(n) for n in t)


def check(case, ctx):
    cls = {"base": BaseVersion, "rads": RadsVersion, "patch": PatchVersion}[case["kind"]]
    cut = 2 if case["kind"] == "patch" else None
    items = []
    for i, t in enumerate(case["versions"]):
        v = cls(text(t)) if case["forms"][i % len(case["forms"])] else cls(tuple(t))
        items.append((tuple(t[:cut]), v))
    for t, v in items:
        eq(str(v), text(t), f"text of version {t}")
        expect(v == text(t) and not (v != text(t)), f"{v!r} differs from its text {text(t)!r}")
        expect(v == t and not (v != t), f"{v!r} differs from its tuple {t}")
        again = cls(str(v))
        expect(again == v and hash(again) == hash(v), f"parsing {str(v)!r} gives another version")
        other = cls(t)
        expect(other == v and hash(other) == hash(v) and str(other) == str(v), f"version from tuple {t} differs from {v!r}")
        expect(v != None and not (v == None) and v != 5, "a version equals a foreign object")   # noqa: E711
    equal = False
    for (ta, a), (tb, b) in itertools.product(items, repeat=2):
        where = f"{a!r} and {b!r}"
        eq(bool(a < b), ta < tb, f"less, {where}")
        eq(bool(a > b), ta > tb, f"greater, {where}")
        eq(bool(a <= b), ta <= tb, f"less or equal, {where}")
        eq(bool(a >= b), ta >= tb, f"greater or equal, {where}")
        eq(a == b, ta == tb, f"equal, {where}")
        eq(a != b, ta != tb, f"different, {where}")
        eq(a == text(tb), ta == tb, f"{a!r} equals the text {text(tb)!r}")
        eq(a == tb, ta == tb, f"{a!r} equals the tuple {tb}")
        if ta == tb:
            eq(hash(a), hash(b), f"hash, {where}")
            equal |= a is not b
        if cut:
            eq(a.as_int() < b.as_int(), ta < tb, f"order of integer forms, {where}")
            eq(a.as_int() == b.as_int(), ta == tb, f"equality of integer forms, {where}")
    eq([str(v) for v in sorted((v for _, v in items))], [text(t) for t in sorted(t for t, _ in items)], "sorted versions")
    eq(str(max(v for _, v in items)), text(max(t for t, _ in items)), "latest version")
    eq(len({v for _, v in items}), len({t for t, _ in items}), "number of distinct versions in a set")
    d = {v: t for t, v in items}
    for t, v in items:
        eq(d[cls(text(t))], t, "lookup by version")
    if case["main"]:
        main = PatchVersion("main")
        eq(str(main), "main", "text of main")
        expect(main == PatchVersion("main") and main == "main" and hash(main) == hash(PatchVersion("main")), "main differs from itself")
        expect(main <= PatchVersion("main") and not main < PatchVersion("main"), "order of main and itself")
        for t, v in items:
            expect(main != v and v != main and not (main == v) and v != "main" and main != text(t) and main != t, f"main equals {v!r}")
            expect(main.as_int() > v.as_int(), f"integer form of main is not above {v!r}")
    ctx.label(case["kind"])
    ctx.nontrivial(equal and len({t for t, _ in items}) > 1)


def bad_cases():
    return st.tuples(st.sampled_from(["base", "rads", "patch"]), st.one_of(
        st.sampled_from(["", "a", "1.", ".1", "1..2", "1.x", "main.1", "mai", "Main", "1,2", "x.y", "release", "1.2.3.4x"]), st.sampled_from([(), None, 5, 1.2, [1, 2]]),
        st.lists(NUM, min_size=0, max_size=6).map(tuple)))


def check_bad(case, ctx):
    kind, v = case
    cls = {"base": BaseVersion, "rads": RadsVersion, "patch": PatchVersion}[kind]
    ok = isinstance(v, tuple) and {"base": len(v) >= 1, "rads": len(v) == 4, "patch": len(v) >= 2}[kind]
    if ok:
        eq(str(cls(v)), text(v[:2] if kind == "patch" else v), f"text of {v}")
    else:
        raises(Exception, lambda: cls(v), f"{cls.__name__}({v!r})")
        ctx.nontrivial()


SUBS = [
    Sub("order", cases, check, 6000, 200000, "two equal and two different versions are compared"),
    Sub("invalid", bad_cases, check_bad, 600, 10000, "the value is not a version"),
]
