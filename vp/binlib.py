"""Glue between BIN models and the code under test"""
import math
import struct
from cdtb import binfile as B
from vp import bingen
from vp.core import eq, expect, Violation


def install_names(d):
    B.hashfile_binentries.hashes = dict(d.get("entries", {}))
    B.hashfile_binhashes.hashes = dict(d.get("hashes", {}))
    B.hashfile_binfields.hashes = dict(d.get("fields", {}))
    B.hashfile_bintypes.hashes = dict(d.get("types", {}))
    B.hashfile_binpaths.hashes = dict(d.get("paths", {}))


def same_f(got, bits):
    want = bingen.f32(bits)
    if math.isnan(want):
        return isinstance(got, float) and math.isnan(got)
    return isinstance(got, float) and struct.pack("<f", got) == struct.pack("<I", bits)


def compare_hash(got, h, cls, names, kind, where):
    expect(isinstance(got, cls), lambda: f"{where}: {type(got).__name__}, want {cls.__name__}")
    eq(got.h, h, f"{where}: hash")
    eq(got.s, names.d.get(kind, {}).get(h), f"{where}: name")


def compare_value(t, p, got, names, where=""):
    """The decoded value `got` must be the encoded (t, p)"""
    if t == "HASH":
        compare_hash(got, p, B.BinHashValue, names, "hashes", where)
    elif t == "LINK":
        compare_hash(got, p, B.BinEntryPath, names, "entries", where)
    elif t == "PATH":
        compare_hash(got, p, B.BinPathValue, names, "paths", where)
    elif t == "FLOAT":
        expect(same_f(got, p), lambda: f"{where}: float {got!r}, want bits {p:08x}")
    elif t in ("VEC2_FLOAT", "VEC3_FLOAT", "VEC4_FLOAT"):
        expect(len(got) == len(p) and all(same_f(g, b) for g, b in zip(got, p)), lambda: f"{where}: {got!r}, want bits {p}")
    elif t == "MATRIX4X4":
        expect(len(got) == 4 and all(len(r) == 4 and all(same_f(g, b) for g, b in zip(r, pr)) for r, pr in zip(got, p)),
               lambda: f"{where}: {got!r}, want bits {p}")
    elif t in ("RGBA", "EMPTY"):
        eq(tuple(got), tuple(p), where)
    elif t in ("LIST", "LIST2"):
        expect(isinstance(got, B.BinList), lambda: f"{where}: {type(got).__name__}")
        eq(got.vtype.name, p[0], f"{where}: element type")
        eq(len(got.values), len(p[1]), f"{where}: number of elements")
        for i, (g, v) in enumerate(zip(got.values, p[1])):
            compare_value(p[0], v, g, names, f"{where}[{i}]")
    elif t in ("STRUCT", "EMBEDDED"):
        expect(isinstance(got, B.BinStruct if t == "STRUCT" else B.BinEmbedded), lambda: f"{where}: {type(got).__name__}")
        compare_hash(got.type, p[0], B.BinTypeName, names, "types", f"{where} type")
        compare_fields(p[1], got.fields, names, where)
    elif t == "OPTION":
        expect(isinstance(got, B.BinOption), lambda: f"{where}: {type(got).__name__}")
        eq(got.vtype.name, p[0], f"{where}: option type")
        if p[1] is None:
            expect(got.value is None, lambda: f"{where}: option {got.value!r}, want nothing")
        else:
            compare_value(p[0], p[1], got.value, names, f"{where}?")
    elif t == "MAP":
        expect(isinstance(got, B.BinMap), lambda: f"{where}: {type(got).__name__}")
        eq((got.ktype.name, got.vtype.name), (p[0], p[1]), f"{where}: map types")
        eq(len(got.values), len(p[2]), f"{where}: number of map items")
        for (gk, gv), (k, v) in zip(got.values.items(), p[2]):
            compare_value(p[0], k, gk, names, f"{where}<key {k!r}>")
            compare_value(p[1], v, gv, names, f"{where}<{k!r}>")
            expect(got.values[gk] is gv, lambda: f"{where}: key {k!r} not found")
    else:
        expect(type(got) is type(p) and got == p, lambda: f"{where}: {got!r}, want {p!r}")


def compare_fields(fields, got, names, where):
    eq(len(got), len(fields), f"{where}: number of fields")
    for g, (h, t, p) in zip(got, fields):
        compare_hash(g.name, h, B.BinFieldName, names, "fields", f"{where}.{h:x} name")
        eq(g.type.name, t, f"{where}.{h:x}: type")
        compare_value(t, p, g.value, names, f"{where}.{h:x}")


def compare_file(case, got, names):
    eq(got.version, case["version"], "file version")
    eq(got.is_patch, bool(case.get("patch")), "is_patch")
    if case["version"] >= 2:
        eq(list(got.linked_files), case["linked"], "linked files")
    else:
        expect(not got.linked_files, lambda: f"linked files: {got.linked_files!r}, want none")
    eq(len(got.entries), len(case["entries"]), "number of entries")
    for g, e in zip(got.entries, case["entries"]):
        where = f"entry {e['path']:x}"
        compare_hash(g.path, e["path"], B.BinEntryPath, names, "entries", where)
        compare_hash(g.type, e["type"], B.BinTypeName, names, "types", where + " type")
        compare_fields(e["fields"], g.fields, names, where)
    if case.get("patch") and case["version"] >= 3:
        groups = {}
        for h, path, t, p in case["patches"]:
            groups.setdefault(h, []).append((path, t, p))
        eq([e.path.h for e in got.patch_entries], list(groups), "patched entries")
        for g, (h, fs) in zip(got.patch_entries, groups.items()):
            compare_hash(g.path, h, B.BinEntryPath, names, "entries", "patch entry")
            eq([(f.path, f.type.name) for f in g.fields], [(path, t) for path, t, _ in fs], f"patch fields of {h:x}")
            for f, (path, t, p) in zip(g.fields, fs):
                compare_value(t, p, f.value, names, f"patch {h:x}/{path}")
    else:
        expect(got.patch_entries is None, lambda: f"patch entries {got.patch_entries!r}, want None")
