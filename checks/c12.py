"""C12 Link reduction covers exactly the common files, and no more"""
import itertools
from hypothesis import strategies as st
from vp.core import Sub, eq, expect
from cdtb.export import reduce_common_paths

ASSUMPTIONS = ["each listing is one of a file tree: no path is both a file and a directory within one listing"]

# states of a path: absent, previous only (removed), unchanged, changed (in both), new
ABSENT, REMOVED, SAME, CHANGED, NEW = range(5)
UNIVERSES = [
    ["a", "b/c", "b/d", "e/f/g", "e/f/h", "e/i"],
    ["a/b/c/d", "a/b/c/e", "a/b/f", "a/g", "h", "ab/c"],
    ["a/b", "a/b.txt", "a/c/b", "a.b/c", "a/bc", "a/b c/d"],
]


def covered(p, r):
    return p == r or p.startswith(r + "/")


def verify(same, prev, changed, got):
    where = f"unchanged {sorted(same)}, previous {sorted(prev)}, changed {sorted(changed)} -> {got}"
    got = list(got)
    expect(len(set(got)) == len(got), f"duplicated links: {where}")
    for p in same:
        n = sum(covered(p, r) for r in got)
        expect(n == 1, f"unchanged path {p} covered {n} times: {where}")
    for p in prev - same:
        expect(not any(covered(p, r) for r in got), f"path {p} of the previous patch exposed: {where}")
    for p in changed:
        expect(not any(covered(p, r) for r in got), f"changed path {p} hidden by a link: {where}")
    # only links that cover something
    for r in got:
        expect(any(covered(p, r) for p in same), f"link {r} covers nothing: {where}")
    # a qualifying directory is linked as a whole
    for r in got:
        parts = r.split("/")
        for i in range(1, len(parts)):
            d = "/".join(parts[:i])
            if all(p in same for p in prev if covered(p, d)) and not any(covered(p, d) for p in changed):
                expect(False, f"directory {d} could be linked as a whole instead of {r}: {where}")
    if prev == same and not changed:
        eq(set(got), {p.split("/")[0] for p in same}, "identical listings")


def enumerate_cases(tier):
    for u in UNIVERSES if tier == "thorough" else UNIVERSES[:2]:
        for states in itertools.product(range(5), repeat=len(u)):
            yield (tuple(u), states)


def check_enum(case, ctx):
    paths, states = case
    run(paths, states, ctx, False)


def run(paths, states, ctx, shuffle):
    same = {p for p, s in zip(paths, states) if s == SAME}
    prev = {p for p, s in zip(paths, states) if s in (SAME, REMOVED, CHANGED)}
    changed = {p for p, s in zip(paths, states) if s in (CHANGED, NEW)}
    got = reduce_common_paths(set(same), set(prev), set(changed))
    verify(same, prev, changed, got)
    if shuffle:
        # no matter how the listings are given
        again = reduce_common_paths(sorted(same, reverse=True), sorted(prev), sorted(changed))
        eq(set(again), set(got), "result for other kinds of listings")
    ctx.nontrivial(any("/" in p for p in same) and len(same) >= 2 and (changed or prev - same))
    ctx.label("dir-link" if any(not any(r == p for p in same) for r in got) else "file-links", "same" if same == prev and not changed else "differs")


NAME = st.sampled_from(["a", "b", "c", "ab", "a.b", "a b", "é", ".", "x.png", "A", "X.png"])


@st.composite
def cases(draw):
    """Random trees: a path universe in which a place may be a file in one listing and a directory in the other"""
    paths = draw(st.lists(st.lists(NAME, min_size=1, max_size=5).map("/".join), min_size=1, max_size=14, unique=True))
    return (tuple(paths), tuple(draw(st.integers(0, 4)) if draw(st.booleans()) else SAME for _ in paths))


def check_random(case, ctx):
    paths, states = case
    # drop paths making a listing ill-formed
    new_files, prev_files = set(), set()
    kept = []

    def clash(p, files):
        return any(covered(p, f) or covered(f, p) for f in files)

    for p, s in zip(paths, states):
        if s in (REMOVED, SAME, CHANGED) and clash(p, prev_files):
            continue
        if s in (SAME, CHANGED, NEW) and clash(p, new_files):
            continue
        if s in (REMOVED, SAME, CHANGED):
            prev_files.add(p)
        if s in (SAME, CHANGED, NEW):
            new_files.add(p)
        kept.append((p, s))
    run([p for p, _ in kept], [s for _, s in kept], ctx, True)
    ctx.label("file/dir switch" if any(p != q and (covered(p, q) or covered(q, p)) for p in new_files for q in prev_files) else "no switch")


@st.composite
def wide_cases(draw):
    """Larger listings: everything is unchanged but a few paths"""
    dirs = draw(st.lists(st.lists(NAME, min_size=1, max_size=4).map(lambda l: "/".join("d" + x for x in l)), min_size=1, max_size=8, unique=True))
    files = draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 9)), min_size=1, max_size=25, unique=True))
    paths = sorted({f"{dirs[i % len(dirs)]}/f{j}" for i, j in files})
    others = draw(st.lists(st.tuples(st.integers(0, len(paths) - 1), st.sampled_from([ABSENT, REMOVED, CHANGED, NEW])), max_size=4))
    states = [SAME] * len(paths)
    for i, s in others:
        states[i] = s
    return (tuple(paths), tuple(states))


SUBS = [
    Sub("enumerated", None, check_enum, 31250, 46875, "two unchanged paths, one in a directory, among others", shards=3, enum=enumerate_cases),
    Sub("random", cases, check_random, 12000, 400000, "same, paths switching between file and directory", shards=3),
    Sub("wide", wide_cases, check_random, 4500, 150000, "same, larger trees", shards=2),
]
