"""C14 Output cleaning removes exactly what is no longer exported"""
import os
from hypothesis import strategies as st
from vp import ref
from vp.core import Sub, eq, expect
from cdtb.export import Exporter

ASSUMPTIONS = ["kept files, kept links and kept directories are given by their relative path with forward slashes",
               "removal of directories is checked on the emptied ones; directories that were already empty may stay or go"]

NAMES = ["a", "b", "c", "a.txt", "é", "d e", "a.b", "-x", ".hid"]
PATH = st.lists(st.sampled_from(NAMES), min_size=1, max_size=4).map("/".join)
TARGETS = ["@outside/file.txt", "@outside/dir", "@outside", "nowhere", "@outside/none", "@self/a", "@self", "a", "@outside/dir/sub"]


@st.composite
def st_tree(draw):
    """[(path, kind)]: kind is 'file', 'dir' (empty) or a link target"""
    out, taken = [], set()
    for p, kind in draw(st.lists(st.tuples(PATH, st.sampled_from(["file"] * 6 + ["dir"] + TARGETS)), max_size=14)):
        if any(p == q or p.startswith(q + "/") or q.startswith(p + "/") for q in taken):
            continue
        taken.add(p)
        out.append((p, kind))
    return out


@st.composite
def cases(draw):
    tree = draw(st_tree())
    files = [p for p, k in tree if k == "file"]
    links = [p for p, k in tree if k not in ("file", "dir")]
    dirs = sorted({"/".join(p.split("/")[:i]) for p, _ in tree for i in range(1, p.count("/") + 1)})
    pick = lambda pool, n: draw(st.lists(st.sampled_from(pool), max_size=n, unique=True)) if pool else []
    kept = pick(files, 8) + pick(dirs, 2) + draw(st.lists(PATH, max_size=2)) + (pick(links, 1) if draw(st.integers(0, 4)) == 0 else [])
    kept_links = pick(links, 4) + (pick(files + dirs, 1) if draw(st.integers(0, 4)) == 0 else []) + draw(st.lists(PATH, max_size=1))
    return dict(tree=tree, kept=kept, kept_links=kept_links, form=draw(st.sampled_from(["abs", "abs", "slash", "dots", "rel", "link"])),
                lonely=draw(st.booleans()), missing=draw(st.integers(0, 15)) == 0, container=draw(st.sampled_from(["set", "set", "list"])), again=draw(st.booleans()))


def build(case, root, base):
    """Create the output tree in `base`"""
    os.makedirs(base)
    for p, kind in case["tree"]:
        full = os.path.join(base, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if kind == "file":
            with open(full, "w") as f:
                f.write(p)
        elif kind == "dir":
            os.makedirs(full)
        else:
            t = kind.replace("@outside", f"{root}/outside").replace("@self", base)
            os.symlink(t, full)


def below(p, dirs):
    parts = p.split("/")
    return any("/".join(parts[:i]) in dirs for i in range(1, len(parts)))


def check(case, ctx):
    root = ctx.tmp()
    parent = f"{root}/parent"
    base = f"{parent}/out"
    ref.write_tree(f"{root}/outside", {"file.txt": b"outside", "dir/sub/x.txt": b"x", "dir/a": b"a", "a": b"a"})
    os.mkdir(f"{root}/outside/empty")
    if not case["missing"]:
        build(case, root, base)
    else:
        os.makedirs(parent)
    if not case["lonely"]:
        ref.write_tree(parent, {"sibling/keep.txt": b"k", "top.txt": b"t"})
    outside = ref.read_tree(f"{root}/outside"), {p: d for p, d in ref.read_tree(parent).items() if not (p + "/").startswith("out/")}
    form = case["form"]
    path = base
    if form == "slash":
        path = base + "//"
    elif form == "dots":
        path = f"{parent}/x/../out/."
    elif form == "link":
        os.symlink("parent/out", f"{root}/alias")
        path = f"{root}/alias"
    cwd = os.getcwd()
    try:
        if form == "rel":
            os.chdir(parent)
            path = "out"
        exporter = Exporter(path)
        tree = {} if case["missing"] else dict(case["tree"])
        leaves = {p for p, k in tree.items() if k != "dir"}
        # listing
        got = list(exporter.walk_output_dir())
        eq(sorted(got), sorted(leaves), "listed files")
        kept, links = set(case["kept"]), set(case["kept_links"])
        skipped = {p for p in leaves if below(p, kept)}
        got = list(exporter.walk_output_dir(kept))
        eq(sorted(got), sorted(leaves - skipped), f"listed files without entering {sorted(kept)}")
        # cleaning
        mk = set if case["container"] == "set" else list
        exporter.clean_output_dir(mk(case["kept"]), mk(case["kept_links"]))
        if case["again"]:
            exporter.clean_output_dir(mk(case["kept"]), mk(case["kept_links"]))
    finally:
        os.chdir(cwd)
    want = {p for p in leaves if p in skipped or (p in kept if tree[p] == "file" else p in links)}
    where = f"tree {case['tree']}, kept {sorted(kept)}, links {sorted(links)}"
    after = ref.read_tree(base)
    eq({p for p, d in after.items() if d is not None}, want, f"{where}: remaining files and links")
    for p in want:
        k = tree[p]
        if k == "file":
            eq(after[p], p.encode(), f"content of {p}")
        else:
            eq(after[p], "-> " + k.replace("@outside", f"{root}/outside").replace("@self", base), f"target of {p}")
    # emptied directories are gone: all remaining directories have something in them, or had nothing to be removed
    empty_before = {p for p, k in tree.items() if k == "dir"}
    for p, d in after.items():
        if d is None:
            expect(any(e == p or e.startswith(p + "/") for e in empty_before), f"{where}: emptied directory {p} remains")
    got_outside = ref.read_tree(f"{root}/outside"), {p: d for p, d in ref.read_tree(parent).items() if not (p + "/").startswith("out/")}
    eq(got_outside, outside, f"{where}: outside of the output directory")
    expect(os.path.isdir(parent), f"{where}: parent of the output directory removed")
    removed = leaves - want
    ctx.label("link-removed" if any(tree[p] != "file" for p in removed) else "-", "link-kept" if any(tree[p] not in ("file", "dir") for p in want) else "-",
              "dir-kept" if skipped else "-", "all-removed" if leaves and not want else "-")
    ctx.nontrivial(removed and want)


SUBS = [
    Sub("clean", cases, check, 12000, 200000, "something is removed and something is kept", shards=8),
]
