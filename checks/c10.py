"""C10 Texture conversion preserves the full-size image"""
import io
import os
import struct
from hypothesis import strategies as st
from PIL import Image
from vp import texgen, ref
from vp.core import Sub, eq, expect, raises, Violation
from cdtb import export as E

ASSUMPTIONS = ["Pillow reads back PNG files correctly, and decodes BC5/BC7 blocks (given an independently built DDS container) correctly",
               "the mipmap flag of a TEX file tells whether the complete mipmap chain is stored, smallest level first"]

DIM = st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 40), st.sampled_from([16, 32, 64]))


@st.composite
def tex_cases(draw):
    fmt = draw(st.sampled_from(sorted(texgen.FORMATS)))
    return dict(fmt=fmt, w=draw(DIM), h=draw(DIM), mips=draw(st.booleans()), seed=draw(st.binary(min_size=8, max_size=70)),
                seed2=draw(st.binary(max_size=9)), container=draw(st.sampled_from(["tex", "tex", "dds"])),
                path=draw(st.sampled_from(["game/a/Icon.tex", "b.c/x.y.tex", "t.tex"])), existing=draw(st.booleans()))


def converters():
    return [E.ImageConverter((".dds", ".tga")), E.TexConverter()]


def run(path, data, ctx, existing=False):
    conv = next(c for c in converters() if c.is_handled(path))
    want_path = path[:path.rindex(".")] + ".png"
    eq(list(conv.converted_paths(path)), [want_path], "converted paths")
    out = ctx.tmp()
    if existing:
        ref.write_tree(out, {want_path: b"old" * 1000})
    conv.convert(io.BytesIO(data), out, path)
    tree = ref.read_tree(out)
    eq(list(tree), [want_path], "output files")
    expect(tree[want_path][:8] == b"\x89PNG\r\n\x1a\n", "not a PNG")
    im = Image.open(io.BytesIO(tree[want_path]))
    im.load()
    return im


def check_pixels(im, w, h, want, what):
    eq(im.size, (w, h), f"{what}: size")
    got = im.convert("RGBA").tobytes()
    if got != want:
        i = next(i for i in range(len(want)) if got[i] != want[i]) // 4
        raise Violation(f"{what}: pixel ({i % w}, {i // w}) is {tuple(got[4*i:4*i+4])}, want {tuple(want[4*i:4*i+4])}")


def check_tex(case, ctx):
    fmt, w, h = case["fmt"], case["w"], case["h"]
    pixels = texgen.spread(case["seed"], texgen.level_size(fmt, w, h))
    want = texgen.decode(fmt, pixels, w, h)
    path = case["path"]
    if want is None:
        im = Image.open(io.BytesIO(texgen.build_dds(fmt, w, h, pixels)))
        want = im.convert("RGBA").tobytes()
    if case["container"] == "tex":
        data = texgen.build_tex(fmt, w, h, pixels, case["mips"], case["seed2"])
    else:
        path = path[:-4] + ".dds"
        data = texgen.build_dds(fmt, w, h, pixels, case["mips"], case["seed2"])
    im = run(path, data, ctx, case["existing"])
    check_pixels(im, w, h, want, f"{case['container']} {texgen.FORMATS[fmt][0]} {w}x{h} mips={case['mips']}")
    ctx.label(f"{case['container']}-{texgen.FORMATS[fmt][0]}{'-mips' if case['mips'] else ''}", "multiple-of-4" if w % 4 == 0 and h % 4 == 0 else "partial-blocks")
    ctx.nontrivial(w * h > 1 and len(set(case["seed"])) > 1)


@st.composite
def tga_cases(draw):
    w, h = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    return dict(w=w, h=h, seed=draw(st.binary(min_size=4, max_size=40)), bpp=draw(st.sampled_from([24, 32])), top=draw(st.booleans()),
                rle=draw(st.booleans()))


def check_tga(case, ctx):
    w, h = case["w"], case["h"]
    data, want = texgen.build_tga(w, h, texgen.spread(case["seed"], 4 * w * h), case["bpp"], case["top"], case["rle"])
    im = run("plugins/x/img.tga", data, ctx)
    check_pixels(im, w, h, want, f"TGA {w}x{h}")
    ctx.label(f"tga{case['bpp']}", "rle" if case["rle"] else "raw")
    ctx.nontrivial(w * h > 1)


# --- refusals

@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(["magic", "short", "format", "bytes", "empty", "cut", "flip", "header", "dds-bytes", "tga-bytes", "zero"]))
    return dict(kind=kind, fmt=draw(st.sampled_from(sorted(texgen.FORMATS))), w=draw(DIM), h=draw(DIM), mips=draw(st.booleans()),
                seed=draw(st.binary(min_size=1, max_size=20)), n=draw(st.integers(0, 400)), val=draw(st.integers(0, 255)),
                ext=draw(st.sampled_from([".tex", ".tex", ".dds", ".tga"])), existing=draw(st.booleans()))


def check_bad(case, ctx):
    kind, fmt, w, h = case["kind"], case["fmt"], case["w"], case["h"]
    ext = case["ext"]
    pixels = texgen.spread(case["seed"], texgen.level_size(fmt, w, h))
    if ext == ".tex":
        good = texgen.build_tex(fmt, w, h, pixels, case["mips"], b"")
    elif ext == ".dds":
        good = texgen.build_dds(fmt, w, h, pixels, case["mips"])
    else:
        good, _ = texgen.build_tga(w, h, texgen.spread(case["seed"], 4 * w * h), 32, case["val"] & 1, case["val"] & 2)
    must_fail = True
    if kind == "magic":
        data = b"TEX\1" + good[4:]
        must_fail = ext == ".tex"
    elif kind == "short":
        data = good[:min(case["n"], 11)]
    elif kind == "format":
        data = bytearray(good)
        must_fail = ext == ".tex" and case["val"] not in texgen.FORMATS and case["val"] != 0x15
        data[9:10] = bytes([case["val"]])
        data = bytes(data)
    elif kind == "bytes":
        data = case["seed"]
        must_fail = ext == ".tex" and data[:4] != b"TEX\0"
    elif kind == "empty":
        data = b""
    elif kind == "cut":
        data = good[:len(good) - 1 - case["n"] % len(good)]
        must_fail = False
    elif kind in ("flip", "header"):
        data = bytearray(good)
        for i in range(3):
            data[(case["n"] * (i + 1)) % (len(good) if kind == "flip" else min(len(good), 148))] ^= max(1, case["val"])
        data = bytes(data)
        must_fail = False
    elif kind in ("dds-bytes", "tga-bytes"):
        data = good[:128] + case["seed"] * 3
        must_fail = False
    else:
        data = good[:4] + b"\0" * 4 + good[8:]
        must_fail = False
    if kind in ("flip", "header", "format", "cut", "bytes", "zero", "dds-bytes", "tga-bytes") and len(data) >= 20:
        # keep sizes small: huge dimensions only cost memory
        if ext == ".tex" and (struct.unpack("<H", data[4:6])[0] > 4000 or struct.unpack("<H", data[6:8])[0] > 4000):
            return
        if ext == ".dds" and max(struct.unpack("<II", data[12:20])) > 4000:
            return
        if ext == ".tga" and max(struct.unpack("<HH", data[12:16])) > 4000:
            return
    path = "game/x" + ext
    conv = next(c for c in converters() if c.is_handled(path))
    out = ctx.tmp()
    before = {"game/other.png": b"other"}
    if case["existing"]:
        before["game/x.png"] = b"old" * 50
    ref.write_tree(out, before)
    try:
        conv.convert(io.BytesIO(data), out, path)
    except E.FileConversionError:
        tree = ref.read_tree(out)
        eq(tree.pop("game/other.png", None), b"other", "another file")
        if tree:
            # an existing older image may stay as it was
            eq(tree, {"game/x.png": b"old" * 50} if case["existing"] else {}, "output left by a failed conversion")
        ctx.label("refused", kind)
    else:
        expect(not must_fail, f"{kind} {ext}: not refused")
        im = Image.open(os.path.join(out, "game/x.png"))
        im.load()
        ctx.label("accepted")
    ctx.nontrivial(len(data) > 12)


SUBS = [
    Sub("blocks", tex_cases, check_tex, 3600, 30000, "more than one pixel and not a uniform fill", shards=4),
    Sub("tga", tga_cases, check_tga, 600, 5000, "more than one pixel", shards=1),
    Sub("refuse", bad_cases, check_bad, 4500, 50000, "longer than a header", shards=3),
]
