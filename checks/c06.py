"""C06 BIN names and fields are found by name or by hash alike"""
import io
import xxhash
from hypothesis import strategies as st
from vp import bingen, binlib, ref
from vp.core import Sub, eq, expect, Violation
from cdtb import binfile as B

ASSUMPTIONS = ["names are ASCII", "nested lookups go through objects (a lookup through a plain value is a caller's error)"]

NAMES = ["mName", "mname", "Skins", "mAbilities", "x", "", "a b", "m_9", "CharacterRecord", "__type", "mTooltip", "VFX"]
NAME = st.one_of(st.sampled_from(NAMES), st.text(st.characters(min_codepoint=0, max_codepoint=127), max_size=8))


def recase(s, mask):
    return "".join(c.upper() if mask >> (i % 16) & 1 else c.lower() for i, c in enumerate(s))


# --- hash function and identity

HASH_KINDS = ["entries", "hashes", "fields", "types", "paths"]
CLASSES = {"entries": B.BinEntryPath, "hashes": B.BinHashValue, "fields": B.BinFieldName, "types": B.BinTypeName, "paths": B.BinPathValue}


def hash_of(kind, s):
    return xxhash.xxh64_intdigest(s.lower()) if kind == "paths" else ref.fnv1a(s)


@st.composite
def st_ref(draw):
    """A hash: from a name or from a number"""
    return draw(st.one_of(NAME.map(lambda s: ("name", s)), st.sampled_from([0, 1, 0xffffffff, 2**64 - 1, 0xabc]).map(lambda h: ("num", h))))


@st.composite
def identity_cases(draw):
    ka, kb = draw(st.sampled_from(HASH_KINDS)), draw(st.sampled_from(HASH_KINDS))
    a, b = draw(st_ref()), draw(st_ref())
    if draw(st.booleans()):
        b = a
    listed = draw(st.lists(st.tuples(st.sampled_from(HASH_KINDS), st.one_of(st.just(a), st.just(b), st_ref()),
                                     st.sampled_from([None, "Other", "MNAME", ""])), max_size=4))
    strings = [s for k, s in (a, b) if k == "name"] + draw(st.lists(NAME, max_size=2)) + ["Other"]
    return dict(ka=ka, kb=kb, a=a, b=b, listed=listed, strings=strings, mask=draw(st.integers(0, 65535)))


def check_identity(case, ctx):
    def h_of(kind, r):
        h = hash_of(kind, r[1]) if r[0] == "name" else r[1]
        return h if kind == "paths" else h & 0xffffffff
    lists = {k: {} for k in HASH_KINDS}
    for kind, r, name in case["listed"]:
        text = name if name is not None else (r[1] if r[0] == "name" else "num")
        lists[kind][h_of(kind, r)] = text
    binlib.install_names(lists)
    ha, hb = h_of(case["ka"], case["a"]), h_of(case["kb"], case["b"])
    va, vb = CLASSES[case["ka"]](ha), CLASSES[case["kb"]](hb)
    for v, kind, h in ((va, case["ka"], ha), (vb, case["kb"], hb)):
        s = lists[kind].get(h)
        width = 16 if kind == "paths" else 8
        eq(str(v), s if s is not None else "{" + f"{h:0{width}x}" + "}", "text")
        eq(v.hex(), f"{h:0{width}x}", "hex")
        for n in (h, ha, hb, 0, h ^ 1, -h - 1):
            eq(v == n, h == n, f"{kind} {h:x} == {n}")
            eq(v != n, h != n, f"{kind} {h:x} != {n}")
            eq(n == v, h == n, f"{n} == {kind} {h:x}")
        for t in case["strings"]:
            for t in (t, recase(t, case["mask"])):
                want = (t == s) if s is not None else hash_of(kind, t) == h
                eq(v == t, want, f"{kind} {h:x} (name {s!r}) == {t!r}")
                eq(v != t, not want, f"{kind} {h:x} (name {s!r}) != {t!r}")
                eq(t == v, want, f"{t!r} == {kind} {h:x} (name {s!r})")
    eq(va == vb, ha == hb, f"{va!r} == {vb!r}")
    eq(vb == va, ha == hb, f"{vb!r} == {va!r}")
    eq(va != vb, ha != hb, f"{va!r} != {vb!r}")
    if ha == hb:
        eq(hash(va), hash(vb), "hash codes of equal hashed values")
        eq({va: 1}.get(vb), 1, "dictionary lookup by an equal hashed value")
    else:
        eq({va: 1}.get(vb), None, "dictionary lookup by a different hashed value")
    for k in ("entries", "hashes", "fields", "types"):
        for t in case["strings"]:
            eq(CLASSES[k].compute_hash(t), ref.fnv1a(t), f"{k} hash of {t!r}")
    for t in case["strings"]:
        eq(B.compute_binhash(t), ref.fnv1a(t), f"hash of {t!r}")
        eq(B.compute_binhash(recase(t, case["mask"])), ref.fnv1a(t), f"hash of {t!r} in another case")
        eq(B.BinPathValue.compute_hash(recase(t, case["mask"])), xxhash.xxh64_intdigest(t.lower()), f"path hash of {t!r}")
    ctx.nontrivial(ha == hb or case["ka"] == case["kb"])
    ctx.label("equal" if ha == hb else "different", "same-kind" if case["ka"] == case["kb"] else "other-kind",
              "known" if va.s is not None else "unknown")


# --- field access

@st.composite
def st_key(draw, names):
    """(form, name index, case mask)"""
    return (draw(st.sampled_from(["name", "name", "hash", "fieldname", "hashvalue", "typename", "entrypath"])),
            draw(st.integers(0, len(names) - 1)), draw(st.integers(0, 65535)))


@st.composite
def object_cases(draw):
    names = draw(st.lists(NAME, min_size=2, max_size=5, unique_by=lambda s: ref.fnv1a(s)))
    n = draw(st.integers(0, 5))

    def fields(depth):
        out = []
        for _ in range(draw(st.integers(0, 4 if depth == 2 else 2))):
            i = draw(st.integers(0, len(names) - 1))
            t = draw(st.sampled_from(["U8", "STRING", "STRUCT", "EMBEDDED", "LIST", "OPTION", "MAP"] if depth else ["U8", "STRING", "HASH"]))
            if t in ("STRUCT", "EMBEDDED"):
                p = (1, fields(depth - 1))
            elif t == "LIST":
                p = ("U8", draw(st.lists(st.integers(0, 3), max_size=2)))
            elif t == "OPTION":
                p = ("U8", draw(st.one_of(st.none(), st.integers(0, 3))))
            elif t == "MAP":
                p = ("STRING", "U8", [(k, 1) for k in draw(st.lists(st.sampled_from("abc"), unique=True, max_size=2))])
            elif t == "U8":
                p = draw(st.integers(0, 255))
            elif t == "HASH":
                p = draw(st.sampled_from(bingen.H_POOL))
            else:
                p = draw(st.sampled_from(["", "s", "t"]))
            out.append((ref.fnv1a(names[i]), t, p))
        return out
    top = fields(2)
    known = draw(st.lists(st.integers(0, len(names) - 1), unique=True))
    wrong = draw(st.booleans())
    ops = draw(st.lists(st.tuples(st.sampled_from(["get", "get", "path", "path", "set"]), st_key(names), st_key(names), st_key(names),
                                  st.integers(0, 255)), min_size=2, max_size=8))
    return dict(names=names, top=top, known=known, wrong=wrong, ops=ops)


def check_object(case, ctx):
    names = case["names"]
    hashes = [ref.fnv1a(n) for n in names]
    listing = {hashes[i]: ("Listed" + names[i] if case["wrong"] else names[i]) for i in case["known"]}
    lists = {"fields": listing, "hashes": dict(listing), "types": {}, "entries": dict(listing)}
    binlib.install_names(lists)
    nm = bingen.Names(lists)
    f = dict(version=2, linked=[], entries=[dict(path=1, type=2, fields=case["top"])])
    obj = B.BinFile(io.BytesIO(bingen.build_bin(f))).entries[0]
    model = list(case["top"])   # entries: (h, t, p) or ("set", BinField)

    def key(k):
        form, i, mask = k
        h = hashes[i]
        if form == "name":
            return recase(names[i], mask), h
        return {"hash": lambda: h, "fieldname": lambda: B.BinFieldName(h), "hashvalue": lambda: B.BinHashValue(h),
                "typename": lambda: B.BinTypeName(h), "entrypath": lambda: B.BinEntryPath(h)}[form](), h

    def first(fields, h):
        for m in fields:
            if m[0] == h:
                return m
        return None

    def same(t, p, got, where):
        if isinstance(p, B.BinField):
            expect(got is p.value, lambda: f"{where}: not the assigned value")
        else:
            binlib.compare_value(t, p, got, nm, where)

    def same_python(t, p, got, where):
        """value converted to a plain Python one"""
        if isinstance(p, B.BinField):
            expect(got is p.value, lambda: f"{where}: not the assigned value")
        elif t == "LIST":
            eq(got, list(p[1]), where)
        elif t == "OPTION":
            eq(got, p[1], where)
        elif t == "MAP":
            eq(got, dict(p[2]), where)
        else:
            binlib.compare_value(t, p, got, nm, where)

    marker = object()
    defaults = [marker, 0, "", False, [], {}, 1.5]    # falsy defaults are defaults too
    for op, k1, k2, k3, val in case["ops"]:
        key1, h1 = key(k1)
        where = f"{op} {key1!r}"
        m = first(model, h1)
        if op == "get":
            eq(key1 in obj, m is not None, f"{where}: membership")
            if m is None:
                try:
                    r = obj[key1]
                except KeyError:
                    pass
                else:
                    raise Violation(f"{where}: absent field found: {r!r}")
                expect(obj.get(key1) is None, f"{where}: get of an absent field")
                for d in defaults:
                    expect(obj.get(key1, d) is d, lambda: f"{where}: default {d!r}")
                    expect(obj.getv(key1, d) is d, lambda: f"{where}: getv default {d!r}")
                    expect(obj.get_path(key1, default=d) is d, lambda: f"{where}: get_path default {d!r}")
                expect(obj.getv(key1) is None, f"{where}: getv of an absent field")
                expect(obj.get_path(key1) is None, f"{where}: get_path of an absent field")
                ctx.label("absent")
            else:
                g = obj[key1]
                eq(g.name.h, h1, f"{where}: name of the field")
                same(m[1], m[2], g.value, where)
                expect(obj.get(key1) is g and obj.get(key1, marker) is g, f"{where}: get and [] differ")
                same_python(m[1], m[2], obj.getv(key1, marker), where + " getv")
                same_python(m[1], m[2], obj.get_path(key1, default=marker), where + " get_path")
                ctx.label("present")
                if sum(1 for x in model if x[0] == h1) > 1:
                    ctx.label("duplicate")
        elif op == "path":
            fields, m, keys = model, None, []
            for k in (k1, k2, k3):
                kk, h = key(k)
                keys.append(kk)
                m = first(fields, h)
                if m is None or m[1] not in ("STRUCT", "EMBEDDED") or isinstance(m[2], B.BinField):
                    break
                fields = m[2][1]
            got = obj.get_path(*keys, default=marker)
            if m is None:
                expect(got is marker, lambda: f"get_path {keys!r}: {got!r}, want the default")
                for d in defaults:
                    expect(obj.get_path(*keys, default=d) is d, lambda: f"get_path {keys!r}: not the default {d!r}")
                expect(obj.get_path(*keys) is None, lambda: f"get_path {keys!r}: not None")
            else:
                same_python(m[1], m[2], got, f"get_path {keys!r}")
                if len(keys) > 1:
                    ctx.label("nested-found")
        else:
            bf = B.BinField(h1, B.BinType.U8, val)
            obj[key1] = bf
            for i, x in enumerate(model):
                if x[0] == h1:
                    model[i] = (h1, "U8", bf)
                    ctx.label("replace")
                    break
            else:
                model.append((h1, "U8", bf))
                ctx.label("append")
            eq([g.name.h for g in obj.fields], [x[0] for x in model], f"{where}: field names after assignment")
            for g, x in zip(obj.fields, model):
                if isinstance(x[2], B.BinField):
                    expect(g is x[2], f"{where}: field after assignment")
                else:
                    same(x[1], x[2], g.value, f"{where}: other field {x[0]:x}")
    ctx.nontrivial(len(case["top"]) >= 2)


SUBS = [
    Sub("identity", identity_cases, check_identity, 5000, 80000, "equal hashes, or two hashed values of one kind", shards=3),
    Sub("fields", object_cases, check_object, 3000, 50000, "object with at least two fields", shards=4),
]
