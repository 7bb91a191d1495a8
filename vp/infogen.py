"""Independent writers and models of atlas descriptions and champion skin lists"""
import struct
from hypothesis import strategies as st
from vp.bingen import f32
from vp.skngen import FIN


def s32(s):
    b = s.encode("utf-8")
    return struct.pack("<L", len(b)) + b


def png_path(p):
    """Exported path of a texture"""
    p = p.lower()
    i = p.rfind("/") + 1
    stem = p[i:].lstrip(".")
    for e in (".dds", ".tex"):
        if stem.endswith(e) and len(stem) > len(e):
            return p[:-4] + ".png"
    return p


ATLAS_PATHS = ["ASSETS/Items/Icons2D/AutoAtlas/Large/atlas_0.dds", "assets/x/Atlas_1.TEX", "a.png", "noext", "x/.dds", "É/a.tex", "a.dds.tex"]
TEX_PATHS = ["ASSETS/Items/1001_Boots.dds", "assets/items/é.png", "X", "a b.tex", "dup/{0}", "assets/items/1002.tex"]


@st.composite
def st_atlas(draw):
    hashed = draw(st.booleans())
    n = draw(st.integers(0, 3))
    rects = lambda: tuple(draw(FIN) for _ in range(4))
    case = dict(hashed=hashed)
    if hashed:
        case["atlases"] = [draw(st.one_of(st.sampled_from([0, 1, 2**64 - 1, 0xabcdef]), st.integers(0, 2**64 - 1))) for _ in range(n)]
        keys = draw(st.lists(st.one_of(st.sampled_from([5, 6, 0x7fff0000ffff0000, 0]), st.integers(0, 2**64 - 1)), max_size=4, unique=True))
        known = {}
        for i, h in enumerate(case["atlases"]):
            if draw(st.booleans()):
                known[h] = draw(st.sampled_from(ATLAS_PATHS))
        for i, h in enumerate(keys):
            if draw(st.booleans()) and h not in known:
                known[h] = f"ASSETS/Tex/{i}_É.dds"
        case["known"] = known
    else:
        case["atlases"] = [draw(st.sampled_from(ATLAS_PATHS)) for _ in range(n)]
        keys = draw(st.lists(st.one_of(st.sampled_from(TEX_PATHS), st.text(st.characters(codec="utf-8"), max_size=6)), max_size=4, unique=True))
        case["known"] = {}
    case["textures"] = [(k, rects(), draw(st.integers(0, n - 1))) for k in keys] if n else []
    case["tail"] = draw(st.sampled_from([b"", b"\0\0"]))
    return case


def build_atlas(case):
    if case["hashed"]:
        out = b"IMAA" + struct.pack("<L", len(case["atlases"])) + b"".join(struct.pack("<Q", h) for h in case["atlases"])
        key = lambda k: struct.pack("<Q", k)
    else:
        out = struct.pack("<L", len(case["atlases"])) + b"".join(s32(p) for p in case["atlases"])
        key = s32
    out += struct.pack("<L", len(case["textures"]))
    for k, r, i in case["textures"]:
        out += key(k) + struct.pack("<4I", *r) + struct.pack("<L", i)
    return out + case["tail"]


def model_atlas(case):
    known = case["known"]

    def atlas(a):
        if case["hashed"]:
            return png_path(known[a]) if a in known else f"{{{a:016x}}}"
        return png_path(a)
    return {(k if not case["hashed"] else known.get(k, f"{{{k:016x}}}")):
            dict(atlasPath=atlas(case["atlases"][i]), startX=f32(r[0]), startY=f32(r[1]), endX=f32(r[2]), endY=f32(r[3]))
            for k, r, i in case["textures"]}


@st.composite
def st_skins(draw):
    text = st.text(st.characters(codec="utf-8"), max_size=6)
    names = draw(st.lists(st.one_of(st.sampled_from(["Ahri", "Aatrox", "", "Kai'Sa"]), text), max_size=4, unique=True))
    return [(n, [(i, draw(st.sampled_from([0, 1, 2, 3, 4, 4, 5, 255])), draw(text))
                 for i in draw(st.lists(st.one_of(st.integers(0, 50), st.integers(0, 2**32 - 1)), max_size=4, unique=True))]) for n in names]


def build_skins(case):
    out = b"mahC" + struct.pack("<LL", 2, len(case))
    for n, skins in case:
        out += s32(n) + struct.pack("<L", len(skins))
        for i, flag, name in skins:
            out += struct.pack("<LB", i, flag) + s32(name)
    return out


def model_skins(case):
    return {n: {str(i): {"name": name, "prestige": flag == 4} for i, flag, name in skins} for n, skins in case}
