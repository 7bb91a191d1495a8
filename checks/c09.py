"""C09 Mesh files convert to equivalent OBJ meshes"""
import io
import os
from hypothesis import strategies as st
from vp import skngen, ref
from vp.core import Sub, eq, expect, raises, Violation
from vp.cli import run_cli
from cdtb.sknfile import SknFile
from cdtb.export import SknConverter

ASSUMPTIONS = ["finite coordinates; submesh names are valid, distinct file names; triangles reference vertices of their own submesh",
               "indices are absolute, or already relative to a submesh stored after at least as many vertices as it has itself"]


@st.composite
def cases(draw):
    return dict(mesh=draw(skngen.st_skn()), out=draw(st.booleans()), stale=draw(st.booleans()), again=draw(st.sampled_from([0, 1, 2])))


def obj(text, name, model, where):
    try:
        skngen.compare_obj(text, model[1], model[2], eq, where)
    except ValueError as e:
        raise Violation(f"{where}: {e}")


def check(case, ctx):
    mesh = case["mesh"]
    data = skngen.build_skn(mesh)
    model = skngen.model(mesh)
    skn = SknFile(io.BytesIO(data))
    eq([e["name"] for e in skn.entries], [m[0] for m in model], "submesh names")
    eq((skn.major, skn.minor), (mesh["major"], mesh["minor"]), "version")
    for e, m in zip(skn.entries, model):
        eq(len(e["vertices"]), len(m[1]), f"vertices of {m[0]!r}")
        obj(skn.to_obj(e), m[0], m, f"submesh {m[0]!r}")
    d = ctx.tmp()
    path = os.path.join(d, "mesh.skn")
    with open(path, "wb") as f:
        f.write(data)
    # command line
    out = os.path.join(d, "o/p") if case["out"] else os.path.join(d, "mesh")
    if case["again"] == 1:
        # an output directory that is there is used
        os.makedirs(out)
        ref.write_tree(out, {f"{m[0]}.obj": b"old" * 999 for m in model})
    for _ in range(1 + (case["again"] == 2)):
        rc, _, _ = run_cli(["skn-extract", path] + (["-o", out] if case["out"] else []))
        eq(rc, 0, "skn-extract exit status")
    eq(sorted(os.listdir(out)), sorted(m[0] + ".obj" for m in model), "files of skn-extract")
    for m in model:
        with open(os.path.join(out, m[0] + ".obj"), encoding="utf-8") as f:
            obj(f.read(), m[0], m, f"skn-extract {m[0]!r}")
    # export converter
    out = os.path.join(d, "exp")
    if case["stale"]:
        ref.write_tree(out, {"a/m/Old.obj": b"stale", "a/other.obj": b"keep"})
    conv = SknConverter()
    expect(conv.is_handled("a/m.skn"), "mesh not handled")
    eq(sorted(conv.converted_paths("a/m.skn")), ["a/m", "a/m.skn"], "converted paths")
    conv.convert(io.BytesIO(data), out, "a/m.skn")
    tree = ref.read_tree(out)
    if case["stale"]:
        eq(tree.pop("a/other.obj"), b"keep", "other file")
    eq(tree.pop("a/m.skn", None), data, "exported mesh")
    if not model:
        eq(tree, {"a/m": None}, "exported submeshes")
        tree = {}
    eq(sorted(tree), sorted(f"a/m/{m[0]}.obj" for m in model), "exported submeshes")
    for m in model:
        obj(tree[f"a/m/{m[0]}.obj"].decode("utf-8"), m[0], m, f"export {m[0]!r}")
    ctx.label(f"v{mesh['major']}", f"submeshes{len(model)}")
    if mesh["major"] == 4:
        ctx.label(f"vertex-type{mesh['vertex_type']}")
    ctx.nontrivial(sum(1 for m in model if m[2]) >= (1 if mesh["major"] == 0 else 2))


@st.composite
def bad_cases(draw):
    return dict(magic=draw(st.one_of(st.binary(max_size=4), st.sampled_from([b"\x33\x22\x11\x01", b"\x00\x11\x22\x33"]))), mesh=draw(skngen.st_skn()))


def check_bad(case, ctx):
    if case["magic"] == b"\x33\x22\x11\x00":
        return
    data = case["magic"] + (skngen.build_skn(case["mesh"])[4:] if len(case["magic"]) == 4 else b"")
    raises((ValueError,), lambda: SknFile(io.BytesIO(data)), "not a mesh")
    ctx.nontrivial(len(case["magic"]) == 4)


@st.composite
def large_cases(draw):
    return dict(major=draw(st.sampled_from([0, 1, 2, 4])), before=draw(st.sampled_from([0, 3, 32767, 40000])), relative=draw(st.booleans()), nv=draw(st.sampled_from([3, 255, 256, 25000])),
                nf=draw(st.sampled_from([1, 85, 86, 10923, 21845] + [21846, 30000] * 4)), vertex_type=draw(st.sampled_from([0, 1, 2])), subs=draw(st.sampled_from([1, 1, 2, 300])))


def check_large(case, ctx):
    """Counts and indices use their whole range"""
    nv, nf = case["nv"], case["nf"]
    vertices = [((i, 0x3f800000, 0), (0, i), (i, 0, 0)) for i in range(nv)]
    faces = [(i % nv, (i + 1) % nv, (nv - 1 - i) % nv) for i in range(nf)]
    big = dict(name="Big", vertices=vertices, faces=faces, gap_v=case["before"], relative=case["relative"])
    few = [((0, 0, 0), (0, 0), (0, 0, i)) for i in range(3)]
    mesh = dict(major=case["major"], minor=0, submeshes=[big] if case["major"] == 0 else [big] + [dict(name=f"s{i}", vertices=few, faces=[(0, 1, 2)]) for i in range(case["subs"] - 1)],
                vertex_type=case["vertex_type"])
    skn = SknFile(io.BytesIO(skngen.build_skn(mesh)))
    model = skngen.model(mesh)
    eq([e["name"] for e in skn.entries], [m[0] for m in model], "submesh names")
    for e, m in zip(skn.entries, model):
        obj(skn.to_obj(e), m[0], m, f"submesh {m[0]!r}")
    ctx.label(f"v{case['major']}")
    ctx.nontrivial(3 * nf > 65535 or case["before"] + nv > 32767)


SUBS = [
    Sub("convert", cases, check, 3600, 30000, "two submeshes with triangles (one for version 0)", shards=5),
    Sub("refuse", bad_cases, check_bad, 300, 1000, "wrong four-byte magic", shards=1),
    Sub("large", large_cases, check_large, 24, 800, "more than 65535 indices, or indices over 32767", shards=3),
]
