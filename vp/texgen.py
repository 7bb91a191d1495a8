"""Independent texture writers (TEX, DDS, TGA) and decoders (BGRA8, BC1, BC3)"""
import struct

FORMATS = {0x0a: ("BC1", 4, 8), 0x0c: ("BC3", 4, 16), 0x0d: ("BC7", 4, 16), 0x0e: ("BC5", 4, 16), 0x14: ("BGRA8", 1, 4)}


def level_size(fmt, w, h):
    _, b, n = FORMATS[fmt]
    return ((w + b - 1) // b) * ((h + b - 1) // b) * n


def mip_sizes(w, h):
    out = [(w, h)]
    while (w, h) != (1, 1):
        w, h = max(1, w // 2), max(1, h // 2)
        out.append((w, h))
    return out


def spread(seed, n):
    """n bytes repeating a seed"""
    seed = seed or b"\0"
    return (seed * (n // len(seed) + 1))[:n]


def build_tex(fmt, w, h, pixels, mips, seed):
    """Full-size level is `pixels`; with mips, lower levels come first, from the smallest"""
    out = b"TEX\0" + struct.pack("<HH", w, h) + b"\1" + bytes([fmt]) + b"\0" + (b"\1" if mips else b"\0")
    if mips:
        for mw, mh in mip_sizes(w, h)[:0:-1]:
            out += spread(seed, level_size(fmt, mw, mh))
    return out + pixels


def build_dds(fmt, w, h, pixels, mips=0, seed=b""):
    name = FORMATS[fmt][0]
    flags = 0x1007 | (0x20000 if mips else 0)
    caps = 0x1000 | (0x400008 if mips else 0)
    dx10 = b""
    if name == "BGRA8":
        pf = struct.pack("<II4sIIIII", 32, 0x41, b"\0" * 4, 32, 0xff0000, 0xff00, 0xff, 0xff000000)
    elif name in ("BC1", "BC3"):
        pf = struct.pack("<II4sIIIII", 32, 4, b"DXT1" if name == "BC1" else b"DXT5", 0, 0, 0, 0, 0)
    else:
        pf = struct.pack("<II4sIIIII", 32, 4, b"DX10", 0, 0, 0, 0, 0)
        # BC7_UNORM_SRGB / BC5_SNORM, as the converter declares them
        dx10 = struct.pack("<IIIII", 99 if name == "BC7" else 84, 3, 0, 1, 0)
    lv = mip_sizes(w, h)[1:] if mips else []
    head = b"DDS " + struct.pack("<7I", 124, flags, h, w, level_size(fmt, w, h), 0, 1 + len(lv)) + b"\0" * 44 + pf + struct.pack("<5I", caps, 0, 0, 0, 0)
    assert len(head) == 128
    return head + dx10 + pixels + b"".join(spread(seed, level_size(fmt, a, b)) for a, b in lv)


def decode_bgra8(data, w, h):
    out = bytearray(data[:4 * w * h])
    out[0::4], out[2::4] = out[2::4], out[0::4]
    return bytes(out)


def rgb565(v):
    r, g, b = v >> 11, v >> 5 & 63, v & 31
    return (r << 3 | r >> 2, g << 2 | g >> 4, b << 3 | b >> 2)


def block_colors(block, bc1):
    v0, v1, bits = struct.unpack("<HHI", block)
    c0, c1 = rgb565(v0), rgb565(v1)
    if v0 > v1 or not bc1:
        c2 = tuple((2 * a + b) // 3 for a, b in zip(c0, c1)) + (255,)
        c3 = tuple((a + 2 * b) // 3 for a, b in zip(c0, c1)) + (255,)
    else:
        c2 = tuple((a + b) // 2 for a, b in zip(c0, c1)) + (255,)
        c3 = (0, 0, 0, 0)
    pal = [c0 + (255,), c1 + (255,), c2, c3]
    return [pal[bits >> 2 * i & 3] for i in range(16)]


def block_alpha(block):
    a0, a1 = block[0], block[1]
    bits = int.from_bytes(block[2:8], "little")
    if a0 > a1:
        pal = [a0, a1] + [((7 - i) * a0 + i * a1) // 7 for i in range(1, 7)]
    else:
        pal = [a0, a1] + [((5 - i) * a0 + i * a1) // 5 for i in range(1, 5)] + [0, 255]
    return [pal[bits >> 3 * i & 7] for i in range(16)]


def decode_blocks(fmt, data, w, h):
    bc1 = fmt == 0x0a
    n = 8 if bc1 else 16
    out = bytearray(4 * w * h)
    pos = 0
    for by in range(0, h, 4):
        for bx in range(0, w, 4):
            block = data[pos:pos + n]
            pos += n
            px = block_colors(block[-8:], bc1)
            if not bc1:
                px = [c[:3] + (a,) for c, a in zip(px, block_alpha(block[:8]))]
            for i in range(16):
                x, y = bx + i % 4, by + i // 4
                if x < w and y < h:
                    out[4 * (y * w + x):4 * (y * w + x) + 4] = bytes(px[i])
    return bytes(out)


def decode(fmt, data, w, h):
    """RGBA bytes, or None if there is no independent decoder"""
    if fmt == 0x14:
        return decode_bgra8(data, w, h)
    if fmt in (0x0a, 0x0c):
        return decode_blocks(fmt, data, w, h)
    return None


def build_tga(w, h, rgba, bpp, top, rle):
    """True-colour TGA; returns (data, rgba as it must be decoded)"""
    px = [rgba[i:i + 4] for i in range(0, len(rgba), 4)]
    enc = [bytes((p[2], p[1], p[0])) + (bytes((p[3],)) if bpp == 32 else b"") for p in px]
    want = b"".join(p if bpp == 32 else p[:3] + b"\xff" for p in px)
    rows = [enc[y * w:(y + 1) * w] for y in range(h)]
    if not top:
        rows = rows[::-1]
    body = b""
    for row in rows:
        if rle:
            i = 0
            while i < len(row):
                j = i
                while j < len(row) and row[j] == row[i] and j - i < 128:
                    j += 1
                body += bytes([0x80 | (j - i - 1)]) + row[i]
                i = j
        else:
            body += b"".join(row)
    head = struct.pack("<BBBHHBHHHHBB", 0, 0, 10 if rle else 2, 0, 0, 0, 0, 0, w, h, bpp, (0x20 if top else 0) | (8 if bpp == 32 else 0))
    return head + body, want
