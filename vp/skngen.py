"""Independent skinned-mesh writer, generators and a strict OBJ parser"""
import re
import struct
from hypothesis import strategies as st
from vp.bingen import f32


def build_skn(case):
    """case: major, minor, submeshes [{name, vertices [(pos, uv, normal) as bit patterns], faces [(a, b, c) local], relative}],
    gap_v (unused vertices before each submesh), vertex_type"""
    major = case["major"]
    out = b"\x33\x22\x11\x00" + struct.pack("<HH", major, case["minor"])
    verts, indices, ranges = [], [], []
    for sm in case["submeshes"]:
        for _ in range(sm.get("gap_v", 0)):
            verts.append(((0x3f000000,) * 3, (0x3f000000,) * 2, (0x3f000000,) * 3))
        sv, si = len(verts), len(indices)
        verts += sm["vertices"]
        rel = major != 0 and sm.get("relative") and len(sm["vertices"]) <= sv
        for face in sm["faces"]:
            indices += [i if rel else i + sv for i in face]
        ranges.append((sv, len(sm["vertices"]), si, len(indices) - si))
    if major != 0:
        out += struct.pack("<I", len(ranges))
        for sm, r in zip(case["submeshes"], ranges):
            b = sm["name"].encode("utf-8")
            out += (b + b"\0" + sm.get("junk", b"")).ljust(64, b"\0")[:64] + struct.pack("<4I", *r)
    if major == 4:
        out += struct.pack("<I", case.get("flags", 0))
    out += struct.pack("<II", len(indices), len(verts))
    vt = case.get("vertex_type", 0) if major == 4 else 0
    if major == 4:
        out += struct.pack("<II", {0: 52, 1: 56, 2: 72}[vt], vt) + struct.pack("<10f", *range(10))
    out += struct.pack(f"<{len(indices)}H", *indices)
    for n, (pos, uv, normal) in enumerate(verts):
        out += struct.pack("<3I", *pos) + bytes([n % 256, 1, 2, 3]) + struct.pack("<4f", .5, .25, .25, 0) + struct.pack("<3I", *normal) + struct.pack("<2I", *uv)
        if vt >= 1:
            out += b"\1\2\3\4"
        if vt == 2:
            out += struct.pack("<4f", 1, 2, 3, 4)
    return out + case.get("tail", b"")


def model(case):
    """[(name, vertices, faces)]"""
    if case["major"] == 0:
        sm = case["submeshes"][0]
        g = [((0x3f000000,) * 3, (0x3f000000,) * 2, (0x3f000000,) * 3)] * sm.get("gap_v", 0)
        off = len(g)
        return [("Unknown", g + list(sm["vertices"]), [tuple(i + off for i in f) for f in sm["faces"]])]
    return [(sm["name"], list(sm["vertices"]), [tuple(f) for f in sm["faces"]]) for sm in case["submeshes"]]


FIN = st.one_of(st.sampled_from([0, 0x80000000, 0x3f800000, 0x3dcccccd, 0xbf19999a, 1, 0x7f7fffff, 0x49742400, 0x358637bd]),
                st.integers(0, 2**32 - 1).filter(lambda b: b & 0x7f800000 != 0x7f800000))


@st.composite
def st_skn(draw):
    major = draw(st.sampled_from([0, 1, 2, 4, 4]))
    n = 1 if major == 0 else draw(st.integers(0, 4))
    names = draw(st.lists(st.one_of(st.sampled_from(["Body", "Weapon", "a b", "É", "x" * 63, "Body.001"]),
                                    st.text(st.characters(codec="utf-8", exclude_characters="\0/", min_codepoint=32), min_size=1, max_size=6)),
                          min_size=n, max_size=n, unique=True).filter(lambda ns: all(len(x.encode()) < 64 and x.strip(".") for x in ns)))
    subs = []
    for name in names:
        k = draw(st.integers(0, 5))
        verts = []
        for _ in range(k):
            verts.append((tuple(draw(FIN) for _ in range(3)), tuple(draw(FIN) for _ in range(2)), tuple(draw(FIN) for _ in range(3))))
        faces = draw(st.lists(st.tuples(*[st.integers(0, k - 1)] * 3), max_size=4)) if k else []
        subs.append(dict(name=name, vertices=verts, faces=faces, gap_v=draw(st.sampled_from([0, 0, 0, 1, 4])),
                         relative=draw(st.integers(0, 5)) == 0, junk=draw(st.sampled_from([b"", b"old"]))))
    return dict(major=major, minor=draw(st.integers(0, 2)), submeshes=subs, vertex_type=draw(st.sampled_from([0, 1, 2])),
                flags=draw(st.integers(0, 2**32 - 1)), tail=draw(st.sampled_from([b"", b"\0" * 12])))


NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
RE_LINE = {
    "v": re.compile(rf"v ({NUM}) ({NUM}) ({NUM})"),
    "vt": re.compile(rf"vt ({NUM}) ({NUM})"),
    "vn": re.compile(rf"vn ({NUM}) ({NUM}) ({NUM})"),
    "f": re.compile(r"f (\d+)/(\d+)/(\d+) (\d+)/(\d+)/(\d+) (\d+)/(\d+)/(\d+)"),
}


def parse_obj(text):
    """Strict parser of the OBJ subset; returns (v, vt, vn, faces of (v, vt, vn) triples) or raises ValueError"""
    v, vt, vn, faces = [], [], [], []
    for line in text.splitlines():
        if not line.strip() or line.startswith("#") or line.split(" ")[0] in ("o", "g", "s"):
            continue
        kind = line.split(" ", 1)[0]
        m = RE_LINE[kind].fullmatch(line.rstrip()) if kind in RE_LINE else None
        if m is None:
            raise ValueError(f"invalid OBJ line: {line!r}")
        if kind == "f":
            n = [int(x) for x in m.groups()]
            faces.append(tuple(tuple(n[i:i + 3]) for i in (0, 3, 6)))
        else:
            {"v": v, "vt": vt, "vn": vn}[kind].append(tuple(struct.unpack("<I", struct.pack("<f", float(x)))[0] for x in m.groups()))
    return v, vt, vn, faces


def compare_obj(text, vertices, faces, eq, where):
    v, vt, vn, fs = parse_obj(text)
    eq(v, [p for p, _, _ in vertices], f"{where}: positions")
    eq(vt, [u for _, u, _ in vertices], f"{where}: texture coordinates")
    eq(vn, [n for _, _, n in vertices], f"{where}: normals")
    eq(fs, [tuple((i + 1,) * 3 for i in f) for f in faces], f"{where}: faces")
