"""Independent string-table (RST) writer and generators"""
import base64
import struct
import xxhash
from hypothesis import strategies as st


def bits_for(version, game):
    if version in (2, 3):
        return 40
    return 38 if game >= 1502 else 39


def rst_hash(key, bits, game):
    f = xxhash.xxh3_64_intdigest if game >= 1415 else xxhash.xxh64_intdigest
    return f(key.lower().encode("utf-8")) & ((1 << bits) - 1)


def build_rst(case, game):
    """case: version (2-5), font (None or str, version 2), trenc (bool, <5),
    entries: [(hash, {"text": bytes} or {"enc": bytes} or {"tail": (index, n)})], layout: list of ints (order of data), pad

    Returns (data, {hash: text}).
    """
    v = case["version"]
    bits = bits_for(v, game)
    out = b"RST" + bytes([v])
    if v == 2:
        if case.get("font") is None:
            out += b"\0"
        else:
            b = case["font"].encode("utf-8")
            out += b"\1" + struct.pack("<L", len(b)) + b
    trenc = bool(case.get("trenc")) and v < 5
    entries = case["entries"]
    order = case.get("layout") or [0]
    blob = case.get("pad", b"")
    offsets, texts = {}, {}
    for i in sorted(range(len(entries)), key=lambda i: (order[i % len(order)], i)):
        h, t = entries[i]
        if "share" in t:
            continue
        offsets[i] = len(blob)
        if "enc" in t and trenc:
            blob += b"\xff" + struct.pack("<H", len(t["enc"])) + t["enc"]
            texts[i] = base64.b64encode(t["enc"]).decode()
        else:
            raw = t.get("text", t.get("enc"))
            blob += raw + b"\0"
            texts[i] = raw.decode("utf-8", "replace")
    for i, (h, t) in enumerate(entries):
        if "share" in t:
            # same text as another entry, or the end of it
            j = t["share"] % len(entries)
            src = entries[j][1]
            if j in offsets and "text" in src:
                n = t["skip"] % (len(src["text"]) + 1)
                if src["text"][n:n + 1] == b"\xff" and trenc:
                    n = len(src["text"])
                offsets[i] = offsets[j] + n
                texts[i] = src["text"][n:].decode("utf-8", "replace")
            else:
                offsets[i] = len(blob)
                blob += b"\0"
                texts[i] = ""
    out += struct.pack("<L", len(entries))
    for i, (h, t) in enumerate(entries):
        out += struct.pack("<Q", offsets[i] << bits | (h & ((1 << bits) - 1)))
    if v < 5:
        out += bytes([case.get("trenc_byte", 1) if trenc else 0])
    out += blob
    return out, {h & ((1 << bits) - 1): texts[i] for i, (h, t) in enumerate(entries)}


KEYS = ["generatedtip_passive_x", "Game_Character_DisplayName_Ahri", "tft_trait_name", "é_key", "a", "", "key with spaces", "İ", "ß", "ITEM_1"]


def st_key():
    return st.one_of(st.sampled_from(KEYS), st.text(st.characters(codec="utf-8"), max_size=8))


@st.composite
def st_text_bytes(draw, trenc):
    t = draw(st.one_of(st.text(st.characters(codec="utf-8", exclude_characters="\0"), max_size=10).map(lambda s: s.encode()),
                       st.binary(max_size=10).map(lambda b: b.replace(b"\0", b"\1")),
                       st.sampled_from([b"", b"don\x92t", b"<font color='#f00'>%i:x%</font>", b"caf\xc3", b"\xff\x02\0ab".replace(b"\0", b"\1")])))
    if trenc and t[:1] == b"\xff":
        t = b"y" + t
    return t


@st.composite
def st_rst(draw, game, versions=(2, 3, 4, 5), keys=None):
    v = draw(st.sampled_from(versions))
    bits = bits_for(v, game)
    case = dict(version=v)
    if v == 2:
        case["font"] = draw(st.one_of(st.none(), st.text(st.characters(codec="utf-8"), max_size=12)))
    trenc = v < 5 and draw(st.booleans())
    case["trenc"] = trenc
    case["trenc_byte"] = draw(st.sampled_from([1, 1, 2, 255]))
    entries, seen = [], set()
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.one_of(keys if keys is not None else st_key(), st.integers(0, 2**64 - 1)))
        h = rst_hash(k, bits, game) if isinstance(k, str) else k & ((1 << bits) - 1)
        if h in seen:
            continue
        seen.add(h)
        kind = draw(st.sampled_from(["text", "text", "enc", "share"]))
        if kind == "text":
            t = {"text": draw(st_text_bytes(trenc))}
        elif kind == "enc" and trenc:
            t = {"enc": draw(st.one_of(st.binary(max_size=12), st.binary(min_size=250, max_size=300)))}
        elif kind == "share":
            t = {"share": draw(st.integers(0, 5)), "skip": draw(st.sampled_from([0, 0, 1, 2, 5]))}
        else:
            t = {"text": b"plain"}
        entries.append((h, t))
    case["entries"] = entries
    case["layout"] = draw(st.lists(st.integers(0, 5), max_size=4))
    case["pad"] = draw(st.sampled_from([b"", b"", b"pad\0", b"\xff\xff"]))
    return case
