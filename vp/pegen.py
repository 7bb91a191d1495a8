"""Minimal Windows executables with a version resource"""
import struct


def _align(b, n=4):
    return b + b"\0" * (-len(b) % n)


def _node(key, value=b"", children=(), text=False):
    """Version information node: header, key, value, children, each aligned"""
    kb = (key + "\0").encode("utf-16-le")
    head = 6 + len(kb)
    body = b"\0" * (-head % 4) + value
    for c in children:
        body = body + b"\0" * (-(head + len(body)) % 4) + c
    return struct.pack("<HHH", head + len(body), len(value) // 2 if text else len(value), int(text)) + kb + body


def _string(key, value):
    return _node(key, (value + "\0").encode("utf-16-le"), text=True)


def version_info(version, strings=()):
    ints = ([int(x) for x in version.split(".")] + [0] * 4)[:4]
    ms, ls = (ints[0] & 0xffff) << 16 | (ints[1] & 0xffff), (ints[2] & 0xffff) << 16 | (ints[3] & 0xffff)
    fixed = struct.pack("<13I", 0xFEEF04BD, 0x10000, ms, ls, ms, ls, 0x3f, 0, 0x40004, 1, 0, 0, 0)
    table = _node("040904b0", children=[_string(k, v) for k, v in strings])
    return _node("VS_VERSION_INFO", fixed, [_node("StringFileInfo", children=[table])])


def build_exe(version, strings=None, code=b"\xc3" * 16, wide=False):
    """Executable whose version resource has the given product version"""
    if strings is None:
        strings = [("FileVersion", version), ("ProductVersion", version)]
    info = _align(version_info(version, strings))
    rva, foff = 0x2000, 0x400

    def directory(entry, offset, sub):
        return struct.pack("<IIHHHHII", 0, 0, 0, 0, 0, 1, entry, offset | (0x80000000 if sub else 0))
    rsrc = directory(16, 24, True) + directory(1, 48, True) + directory(1033, 72, False) + struct.pack("<IIII", rva + 88, len(info), 0, 0) + info
    rsrc = _align(rsrc, 0x200)
    code = _align(code, 0x200)
    dirs = [(0, 0)] * 16
    dirs[2] = (rva, len(rsrc))
    if wide:
        opt = struct.pack("<HBBIIIIIQIIHHHHHHIIIIHHQQQQII", 0x20b, 14, 0, len(code), len(rsrc), 0, 0x1000, 0x1000, 0x140000000, 0x1000, 0x200,
                          6, 0, 0, 0, 6, 0, 0, 0x3000, 0x200, 0, 2, 0, 1 << 20, 1 << 12, 1 << 20, 1 << 12, 0, 16)
    else:
        opt = struct.pack("<HBBIIIIIIIIIHHHHHHIIIIHHIIIIII", 0x10b, 14, 0, len(code), len(rsrc), 0, 0x1000, 0x1000, 0x2000, 0x400000, 0x1000, 0x200,
                          6, 0, 0, 0, 6, 0, 0, 0x3000, 0x200, 0, 2, 0, 1 << 20, 1 << 12, 1 << 20, 1 << 12, 0, 16)
    opt += b"".join(struct.pack("<II", *d) for d in dirs)
    pe = b"PE\0\0" + struct.pack("<HHIIIHH", 0x8664 if wide else 0x14c, 2, 1500000000, 0, 0, len(opt), 0x22) + opt

    def section(name, rva, size, off, flags):
        return name.ljust(8, b"\0") + struct.pack("<IIIIIIHHI", size, rva, size, off, 0, 0, 0, 0, flags)
    pe += section(b".text", 0x1000, len(code), foff + len(rsrc), 0x60000020)
    pe += section(b".rsrc", rva, len(rsrc), foff, 0x40000040)
    dos = b"MZ" + struct.pack("<HHHHHHIHIHH8xHH20xI", 0x90, 3, 0, 4, 0, 0xffff, 0xb8, 0, 0, 0x40, 0, 0, 0, 0x80)
    head = (_align(dos, 0x80)[:0x80] + pe).ljust(foff, b"\0")
    return head + rsrc + code
