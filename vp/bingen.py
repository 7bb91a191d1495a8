"""Independent BIN (PROP/PTCH) writer, generators and models (nothing here imports the code under test).

A typed value is (type name, payload); payloads: FLOAT and vectors as 32-bit patterns, LIST/LIST2 (vtype, [payload]),
STRUCT/EMBEDDED (htype, [(hname, type, payload)]), OPTION (vtype, payload or None), MAP (ktype, vtype, [(k, v)]).
"""
import math
import struct
from hypothesis import strategies as st

BASIC = ["EMPTY", "BOOL", "S8", "U8", "S16", "U16", "S32", "U32", "S64", "U64", "FLOAT", "VEC2_FLOAT", "VEC3_FLOAT",
         "VEC4_FLOAT", "MATRIX4X4", "RGBA", "STRING", "HASH"]
COMPLEX = ["LIST", "LIST2", "STRUCT", "EMBEDDED", "LINK", "OPTION", "MAP", "FLAG"]
INT_FMT = {"S8": "<b", "U8": "<B", "S16": "<h", "U16": "<H", "S32": "<i", "U32": "<I", "S64": "<q", "U64": "<Q",
           "HASH": "<I", "LINK": "<I", "PATH": "<Q", "FLAG": "<B"}


def type_code(name, version):
    """Numeric code of a type for a game version (None: current)"""
    if name in BASIC:
        return BASIC.index(name)
    if version is not None and version < 1008:
        order = ["LIST", "STRUCT", "EMBEDDED", "LINK", "OPTION", "MAP", "FLAG"]
        return order.index(name) + (18 if version < 923 else 0x80)
    if name == "PATH":
        return 18
    return 0x80 + COMPLEX.index(name)


def types_for(version):
    t = list(BASIC) + [c for c in COMPLEX if c != "LIST2"]
    if version is None or version >= 1008:
        t += ["LIST2", "PATH"]
    return t


class Writer:
    def __init__(self, version=None):
        self.version = version

    def t(self, name):
        return bytes([type_code(name, self.version)])

    def string(self, s):
        b = s.encode("utf-8")
        return struct.pack("<H", len(b)) + b

    def value(self, t, p):
        if t in INT_FMT:
            return struct.pack(INT_FMT[t], p)
        if t == "EMPTY":
            return struct.pack("<3H", *p)
        if t == "BOOL":
            return b"\1" if p else b"\0"
        if t == "FLOAT":
            return struct.pack("<I", p)
        if t in ("VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT"):
            return struct.pack(f"<{len(p)}I", *p)
        if t == "MATRIX4X4":
            return b"".join(struct.pack("<4I", *r) for r in p)
        if t == "RGBA":
            return bytes(p)
        if t == "STRING":
            return self.string(p)
        if t in ("LIST", "LIST2"):
            vt, vals = p
            body = struct.pack("<L", len(vals)) + b"".join(self.value(vt, v) for v in vals)
            return self.t(vt) + struct.pack("<L", len(body)) + body
        if t in ("STRUCT", "EMBEDDED"):
            h, fields = p
            if t == "STRUCT" and h == 0:
                return struct.pack("<L", 0)
            body = struct.pack("<H", len(fields)) + b"".join(self.field(f) for f in fields)
            return struct.pack("<LL", h, len(body)) + body
        if t == "OPTION":
            vt, v = p
            return self.t(vt) + (b"\0" if v is None else b"\1" + self.value(vt, v))
        if t == "MAP":
            kt, vt, items = p
            body = struct.pack("<L", len(items)) + b"".join(self.value(kt, k) + self.value(vt, v) for k, v in items)
            return self.t(kt) + self.t(vt) + struct.pack("<L", len(body)) + body
        raise ValueError(t)

    def field(self, f):
        h, t, p = f
        return struct.pack("<L", h) + self.t(t) + self.value(t, p)

    def entry(self, e):
        body = struct.pack("<LH", e["path"], len(e["fields"])) + b"".join(self.field(f) for f in e["fields"])
        return struct.pack("<L", len(body)) + body


def build_bin(case, version=None):
    """case: version, patch (bool), linked, entries [{type, path, fields}], patches [(hpath, object path, type, payload)]"""
    w = Writer(version)
    out = b""
    if case.get("patch"):
        out += b"PTCH" + struct.pack("<2L", 1, 0)
    out += b"PROP" + struct.pack("<L", case["version"])
    if case["version"] >= 2:
        out += struct.pack("<L", len(case["linked"])) + b"".join(w.string(s) for s in case["linked"])
    es = case["entries"]
    out += struct.pack("<L", len(es)) + b"".join(struct.pack("<L", e["type"]) for e in es)
    out += b"".join(w.entry(e) for e in es)
    if case.get("patch") and case["version"] >= 3:
        out += struct.pack("<L", len(case["patches"]))
        for h, path, t, p in case["patches"]:
            body = w.t(t) + w.string(path) + w.value(t, p)
            out += struct.pack("<LL", h, len(body)) + body
    return out


# ---------------------------------------------------------------- models

def f32(bits):
    return struct.unpack("<f", struct.pack("<I", bits))[0]


class Names:
    """Hash lists: dicts hash -> name for entries, hashes, fields, types, paths"""

    def __init__(self, d):
        self.d = d

    def text(self, kind, h):
        s = self.d.get(kind, {}).get(h)
        if s is not None:
            return s
        return f"{{{h:016x}}}" if kind == "paths" else f"{{{h:08x}}}"

    def repr(self, kind, h):
        s = self.d.get(kind, {}).get(h)
        return self.text(kind, h) if s is None else repr(s)


KIND = {"HASH": "hashes", "LINK": "entries", "PATH": "paths"}


def model_json(t, p, names):
    """Value as in the JSON form"""
    if t in KIND:
        return names.text(KIND[t], p)
    if t == "FLOAT":
        return f32(p)
    if t in ("VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT"):
        return [f32(b) for b in p]
    if t == "MATRIX4X4":
        return [[f32(b) for b in r] for r in p]
    if t in ("RGBA", "EMPTY"):
        return list(p)
    if t in ("LIST", "LIST2"):
        return [model_json(p[0], v, names) for v in p[1]]
    if t in ("STRUCT", "EMBEDDED"):
        if t == "STRUCT" and p[0] == 0:
            return None
        d = {names.text("fields", h): model_json(ft, fp, names) for h, ft, fp in p[1]}
        d["__type"] = names.text("types", p[0])
        return d
    if t == "OPTION":
        return None if p[1] is None else model_json(p[0], p[1], names)
    if t == "MAP":
        return {json_key(p[0], k, names): model_json(p[1], v, names) for k, v in p[2]}
    return p


def json_key(kt, k, names):
    v = model_json(kt, k, names)
    if isinstance(v, bool):
        return "true" if v else "false"
    return v if isinstance(v, str) else str(v)


def model_file_json(case, names):
    out = {}
    for e in case["entries"]:
        out[names.text("entries", e["path"])] = model_json("EMBEDDED", (e["type"], e["fields"]), names)
    if case["version"] >= 2:
        out["__linked"] = case["linked"]
    if case.get("patch") and case["version"] >= 3:
        pp = {}
        for h, path, t, p in case["patches"]:
            pp.setdefault(names.text("entries", h), {})[path] = model_json(t, p, names)
        out["__patches"] = pp
    return out


def same_json(a, b):
    """Equality where NaN equals NaN, and bool is not int"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    if isinstance(b, dict) or isinstance(b, (list, tuple)):
        return False
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def ind(s):
    return s.replace("\n", "\n  ")


def ind_list(reprs):
    return "[\n" + "".join(f"  {ind(r)}\n" for r in reprs) + "]" if reprs else "[]"


def model_repr(t, p, names):
    """Value as in the printed tree, standing alone (element of a list, map value, option content)"""
    if t in ("LIST", "LIST2"):
        return f"<{model_format('LIST', p, names)}>"
    if t in ("STRUCT", "EMBEDDED", "OPTION", "MAP"):
        return f"<{model_format(t, p, names)}>"
    if t in KIND:
        return names.repr(KIND[t], p)
    v = model_json(t, p, names)

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, list) else x
    return repr(tup(v))


def model_format(t, p, names):
    """Value as in the printed tree, as a field"""
    if t in ("LIST", "LIST2"):
        return f"{t}({p[0]}) " + ind_list([model_repr(p[0], v, names) for v in p[1]])
    if t == "STRUCT" and p[0] == 0:
        return "STRUCT None"
    if t in ("STRUCT", "EMBEDDED"):
        return f"{t} {names.text('types', p[0])} " + ind_list([model_field(f, names) for f in p[1]])
    if t == "OPTION":
        return f"OPTION({p[0]}) " + ("None" if p[1] is None else model_repr(p[0], p[1], names))
    if t == "MAP":
        def key(k):
            if p[0] in KIND:
                return names.text(KIND[p[0]], k)
            return k if p[0] == "STRING" else model_repr(p[0], k, names)
        return f"MAP({p[0]},{p[1]}) {{\n" + "".join(f"  {key(k)} => {ind(model_repr(p[1], v, names))}\n" for k, v in p[2]) + "}"
    return f"{t} {model_repr(t, p, names)}"


def model_field(f, names):
    h, t, p = f
    return f"<{names.text('fields', h)} {model_format(t, p, names)}>"


def model_dump(case, names):
    out = ""
    if case["version"] >= 2:
        out += f"<Linked: {ind_list([repr(s) for s in case['linked']])}>\n"
    for e in case["entries"]:
        out += f"<BinEntry {names.repr('entries', e['path'])} {names.text('types', e['type'])} {ind_list([model_field(f, names) for f in e['fields']])}>\n"
    if case.get("patch") and case["version"] >= 3:
        groups = {}
        for h, path, t, p in case["patches"]:
            groups.setdefault(h, []).append(f"<{path} {model_format(t, p, names)}>")
        for h, fs in groups.items():
            out += f"<BinPatchEntry {names.repr('entries', h)} {ind_list(fs)}>\n"
    return out


# ---------------------------------------------------------------- generators

H_POOL = [0x1, 0x2, 0xffffffff, 0x00abcdef, 0x811c9dc5, 0x12345678, 0xdeadbeef, 0x0000beef, 0x80000000]
P_POOL = [0, 1, 0xffffffffffffffff, 0xabcdef0123456789, 0x123]
TEXT = st.one_of(st.text(max_size=5), st.sampled_from(["", "a b", "new\nline", "é", "'q'", '"', "\\", "ASSETS/x.dds", "{0}"]))
BITS = st.one_of(st.sampled_from([0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff, 0x3dcccccd]),
                 st.integers(0, 2**32 - 1).filter(lambda b: not (b & 0x7f800000 == 0x7f800000 and b & 0x7fffff)))


def int_range(t):
    fmt = INT_FMT[t]
    n = struct.calcsize(fmt) * 8
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if fmt[1].islower() else (0, (1 << n) - 1)


def st_hash32():
    return st.one_of(st.sampled_from(H_POOL), st.sampled_from(H_POOL), st.integers(1, 2**32 - 1))


KEY_TYPES = ["BOOL", "S8", "U8", "S16", "U16", "S32", "U32", "S64", "U64", "STRING", "HASH", "LINK", "PATH", "FLAG"]


@st.composite
def st_payload(draw, t, version, depth):
    if t in ("HASH", "LINK"):
        return draw(st.one_of(st_hash32(), st.just(0)))
    if t == "PATH":
        return draw(st.one_of(st.sampled_from(P_POOL), st.integers(0, 2**64 - 1)))
    if t in INT_FMT:
        lo, hi = int_range(t)
        return draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1])))
    if t == "EMPTY":
        return tuple(draw(st.integers(0, 0xffff)) for _ in range(3))
    if t == "BOOL":
        return draw(st.booleans())
    if t == "FLOAT":
        return draw(BITS)
    if t in ("VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT"):
        return tuple(draw(BITS) for _ in range(int(t[3])))
    if t == "MATRIX4X4":
        return tuple(tuple(draw(BITS) for _ in range(4)) for _ in range(4))
    if t == "RGBA":
        return tuple(draw(st.integers(0, 255)) for _ in range(4))
    if t == "STRING":
        return draw(TEXT)
    if t in ("LIST", "LIST2"):
        vt = draw(st_type(version, depth - 1))
        return (vt, [draw(st_payload(vt, version, depth - 1)) for _ in range(draw(st.integers(0, 3)))])
    if t in ("STRUCT", "EMBEDDED"):
        h = draw(st.one_of(st_hash32(), st.just(0))) if t == "STRUCT" else draw(st_hash32())
        if t == "STRUCT" and h == 0:
            return (0, [])
        return (h, draw(st_fields(version, depth - 1)))
    if t == "OPTION":
        vt = draw(st_type(version, depth - 1))
        return (vt, draw(st_payload(vt, version, depth - 1)) if draw(st.booleans()) else None)
    if t == "MAP":
        kt = draw(st.sampled_from([k for k in KEY_TYPES if k in types_for(version)]))
        vt = draw(st_type(version, depth - 1))
        items, seen = [], set()
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st_payload(kt, version, 0))
            if k not in seen:
                seen.add(k)
                items.append((k, draw(st_payload(vt, version, depth - 1))))
        return (kt, vt, items)
    raise ValueError(t)


def st_type(version, depth):
    ts = types_for(version)
    simple = [t for t in ts if t not in COMPLEX or t in ("LINK", "FLAG")]
    if depth <= 0:
        return st.sampled_from(simple)
    cplx = [t for t in ts if t not in simple]
    return st.one_of(st.sampled_from(simple), st.sampled_from(cplx), st.sampled_from(cplx))


@st.composite
def st_fields(draw, version, depth, max_size=3, unique=True):
    n = draw(st.sampled_from([max_size, 1, 0, max_size]))
    hs = draw(st.lists(st_hash32(), min_size=n, max_size=n, unique=unique))
    out = []
    for h in hs:
        t = draw(st_type(version, depth))
        out.append((h, t, draw(st_payload(t, version, depth))))
    return out


@st.composite
def st_binfile(draw, version=None, depth=3, max_entries=3, unique=True):
    v = draw(st.sampled_from([1, 2, 3, 3]))
    case = dict(version=v, patch=draw(st.integers(0, 2)) == 0)
    case["linked"] = draw(st.lists(TEXT, max_size=2)) if v >= 2 else []
    es = []
    n = draw(st.sampled_from([1, max_entries, max_entries, 0]))
    for h in draw(st.lists(st_hash32(), min_size=n, max_size=n, unique=True)):
        es.append(dict(path=h, type=draw(st_hash32()), fields=draw(st_fields(version, depth, unique=unique))))
    case["entries"] = es
    if case["patch"] and v >= 3:
        ps, seen = [], set()
        for _ in range(draw(st.integers(0, 3))):
            h = draw(st.sampled_from(H_POOL[:3]))
            path = draw(st.sampled_from(["mA", "mA.mB", "x[0].y", "é", ""]))
            if (h, path) not in seen:
                seen.add((h, path))
                t = draw(st_type(version, depth))
                ps.append((h, path, t, draw(st_payload(t, version, depth))))
        case["patches"] = ps
    return case


@st.composite
def st_names(draw):
    """Hash lists over the pools; names are distinct within a list"""
    out = {}
    for kind, pool in (("entries", H_POOL + [0]), ("hashes", H_POOL + [0]), ("fields", H_POOL), ("types", H_POOL), ("paths", P_POOL)):
        style = draw(st.sampled_from(["{}{:x}", "m{}{:x}", "a/{}/{:x}.bin", "it's {} {:x}", "é{}{:x}"]))
        known = draw(st.lists(st.sampled_from(pool), unique=True, max_size=len(pool)))
        out[kind] = {h: style.format(kind[0].upper(), h) for h in known}
    return out
