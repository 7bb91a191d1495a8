"""Independent writer of release manifests (RMAN), with layout variations"""
import struct
import pyzstd


class Builder:
    def __init__(self, layout):
        self.b = bytearray()
        self.layout = layout or dict(order=[0], pad=[0], shared=False, after=False, extra=0, reverse=False)
        self.n = 0
        self.vtables = {}

    def pad(self):
        self.n += 1
        p = self.layout["pad"]
        self.b += b"\xfb" * p[self.n % len(p)] if p else b""

    def put(self, data):
        pos = len(self.b)
        self.b += data
        return pos

    def link(self, slot, target):
        """Write at `slot` the relative offset of target"""
        struct.pack_into("<i", self.b, slot, target - slot)

    def string(self, s):
        self.pad()
        enc = s.encode("utf-8")
        return self.put(struct.pack("<I", len(enc)) + enc + b"\0" * (self.n % 2))

    def table(self, fields):
        """fields: [(index, fmt or 'ref', value or function writing the target and returning its position)], absent fields omitted.

        Return the position of the entry.
        """
        order = self.layout["order"]
        self.n += 1
        k = order[self.n % len(order)] % (len(fields) or 1)
        placed = fields[k:] + fields[:k]
        if self.layout["reverse"]:
            placed = placed[::-1]
        offsets = {}
        pos = 4
        for idx, fmt, _ in placed:
            offsets[idx] = pos
            pos += 4 if fmt == "ref" else struct.calcsize(fmt)
        count = (max(offsets) + 1 if offsets else 0) + self.layout["extra"]
        vt = struct.pack("<HH", 4 + 2 * count, pos) + b"".join(struct.pack("<H", offsets.get(i, 0)) for i in range(count))
        self.pad()
        known = self.vtables.get(vt) if self.layout["shared"] else None
        vpos = known
        if vpos is None and not self.layout["after"]:
            vpos = self.put(vt)
            self.pad()
        entry = self.put(b"\0" * pos)
        if vpos is None:
            self.pad()
            vpos = self.put(vt)
        self.vtables[vt] = vpos
        struct.pack_into("<i", self.b, entry, entry - vpos)
        for idx, fmt, value in placed:
            if fmt != "ref":
                struct.pack_into(fmt, self.b, entry + offsets[idx], value)
        for idx, fmt, value in placed:
            if fmt == "ref":
                self.link(entry + offsets[idx], value())
        return entry

    def vector(self, items, write):
        """Table of offsets"""
        self.pad()
        pos = self.put(struct.pack("<i", len(items)) + b"\0" * (4 * len(items)))
        for i, item in enumerate(items):
            self.link(pos + 4 + 4 * i, write(item))
        return pos


def build_body(desc, layout=None):
    w = Builder(layout)
    head = (layout or {}).get("head", b"")
    w.put(struct.pack("<i", len(head)) + head)
    slots = w.put(b"\0" * 24)

    def chunk(c):
        return w.table([(0, "<Q", c[0]), (1, "<I", c[1]), (2, "<I", c[2])])

    def bundle(b):
        return w.table([(0, "<Q", b[0]), (1, "ref", lambda: w.vector(b[1], chunk))])

    def flag(f):
        # fixed layout: offset of the vtable, flag number, offset of the name
        w.pad()
        pos = w.put(struct.pack("<i3xBi", 8, f[0], 0))
        name = w.string(f[1])
        struct.pack_into("<i", w.b, pos + 8, name - (pos + 8))
        return pos

    def file(f):
        fields = [(0, "<Q", f["id"])]
        if f["dir"] is not None:
            fields.append((1, "<Q", f["dir"]))
        fields += [(2, "<I", f["size"]), (3, "ref", lambda: w.string(f["name"]))]
        if f["flags"] is not None:
            fields.append((4, "<Q", f["flags"]))

        def chunks():
            w.pad()
            return w.put(struct.pack("<I", len(f["chunks"])) + b"".join(struct.pack("<Q", c) for c in f["chunks"]))
        fields.append((7, "ref", chunks))
        if f.get("perms"):
            fields.append((8, "<B", 1))
        if f["link"] is not None:
            fields.append((9, "ref", lambda: w.string(f["link"])))
        if f.get("tail"):
            fields.append((11, "<B", f["tail"]))
        return w.table(fields)

    def directory(d):
        fields = [(0, "<Q", d[0])]
        if d[1] is not None:
            fields.append((1, "<Q", d[1]))
        fields.append((2, "ref", lambda: w.string(d[2])))
        return w.table(fields)

    writers = [lambda: w.vector(desc["bundles"], bundle), lambda: w.vector(sorted(desc["flags"].items()), flag),
               lambda: w.vector(desc["files"], file), lambda: w.vector(desc["dirs"], directory),
               lambda: w.vector([], None), lambda: w.vector([], None)]
    k = (layout or {}).get("rotate", 0) % 6
    for i in list(range(k, 6)) + list(range(k)):
        w.link(slots + 4 * i, writers[i]())
    return bytes(w.b)


def build_manifest(desc, layout=None, version=(2, 0), manifest_id=1, magic=b"RMAN", tail=b""):
    body = build_body(desc, layout)
    z = pyzstd.compress(body)
    return magic + struct.pack("<BBHIIQI", *version, 1 << 9, 28, len(z), manifest_id, len(body)) + z + tail


def layouts():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(order=st.lists(st.integers(0, 7), min_size=1, max_size=4), pad=st.lists(st.sampled_from([0, 0, 1, 3, 4]), min_size=1, max_size=5), shared=st.booleans(),
                                      after=st.booleans(), extra=st.integers(0, 2), reverse=st.booleans(), rotate=st.integers(0, 5), head=st.sampled_from([b"", b"\0\0\0\0", b"abcdefgh"])))


def full_path(desc, f):
    dirs = {d[0]: d for d in desc["dirs"]}
    name, d = f["name"], f["dir"]
    while d is not None:
        name = f"{dirs[d][2]}/{name}"
        d = dirs[d][1]
    return name


def flag_names(desc, f):
    """Names of the flags of a file, None if it has none"""
    if not f["flags"]:
        return None
    return [desc["flags"][i + 1] for i in range(64) if f["flags"] >> i & 1]


def is_locale(flag):
    return len(flag) == 5 and "_" in flag


def selected(desc, f, langs):
    flags = flag_names(desc, f)
    if langs is True:
        return True
    if langs is False:
        return not any(is_locale(x) for x in flags or ())
    langs = [langs] if isinstance(langs, str) else langs
    return any(x.lower() in [l.lower() for l in langs] for x in flags or ())
