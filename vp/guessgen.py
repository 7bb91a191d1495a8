"""Generators of client and game paths, and of archives for hash guessing"""
import os
import xxhash
from hypothesis import strategies as st
from vp import wadgen
from cdtb import hashes as H
from cdtb.wad import Wad

BASE = "plugins/rcp-be-lol-game-data/global/default/"
PLUGINS = ["rcp-be-lol-game-data", "rcp-fe-lol-loot", "rcp-fe-lol-x", "rcp-be-sanitizer", "rcp-fe-lol-splash"]
REGIONS = ["global", "br", "euw", "tencent", "vn2"]
LANGS = ["default", "en_us", "fr_fr", "zh_tw", "ko_kr"]
WORDS = ["fire", "ice", "ball", "ahri", "rift", "x2"]
LCU_EXTS = [".png", ".jpg", ".json", ".js", ".html", ".webm", ".js.map", ".100", ""]
GAME_EXTS = [".dds", ".bin", ".skn", ".skl", ".tex", ".png", ".glsl_100", ".ps_2_0", ".vs.glsl", ".lua", ".luabin", ".preload", ".json", ""]
CHARS = ["ahri", "aatrox", "petahri", "sightward", "kayn_a"]
SKINS = ["base", "skin1", "skin02", "skin11", "skin2"]


def xxh(path):
    return xxhash.xxh64(path.encode("utf-8")).intdigest()


TOC = xxh("data/wad.subchunktoc")


@st.composite
def basenames(draw, exts, odd=False):
    parts = [draw(st.sampled_from(WORDS))]
    for _ in range(draw(st.integers(0, 2))):
        parts.append(draw(st.sampled_from("-_")) + draw(st.sampled_from(WORDS + ["1", "07", "12", "123", "2x"])))
    name = "".join(parts)
    if odd and draw(st.integers(0, 5)) == 0:
        name += draw(st.sampled_from(["%", "%s", "%d", "%%", "{}", "{c}", "{sep}", " ", "é", ".", "..", "__", "\\1", "100%"]))
    if draw(st.integers(0, 3)) == 0:
        name += "." + draw(st.sampled_from(WORDS))
    return name + draw(st.sampled_from(exts))


@st.composite
def lcu_paths(draw, odd=False):
    k = draw(st.integers(0, 9))
    name = draw(basenames(LCU_EXTS, odd))
    if k < 6:
        sub = draw(st.sampled_from(["", "v1/", "images/x/", "data/characters/ahri/", "assets/loot_item_icons/", "assets/100%/" if odd else "b/"]))
        return f"plugins/{draw(st.sampled_from(PLUGINS))}/{draw(st.sampled_from(REGIONS))}/{draw(st.sampled_from(LANGS))}/{sub}{name}"
    if k < 8:
        return BASE + draw(st.sampled_from(["v1/champions/", "v1/profile-icons/", "data/", "assets/characters/ahri/", "content/src/"])) + name
    if k == 8:
        return f"plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/{name}"
    return draw(st.sampled_from(["", "x/", "plugins/", "plugins/a/"])) + name


@st.composite
def game_paths(draw, odd=False):
    name = draw(basenames(GAME_EXTS, odd))
    c, skin = draw(st.sampled_from(CHARS)), draw(st.sampled_from(SKINS))
    k = draw(st.integers(0, 9))
    if k < 3:
        return f"{draw(st.sampled_from(['assets', 'data']))}/characters/{c}/skins/{skin}/{draw(st.sampled_from([name, f'{c}_{skin}.dds', f'{c}.{skin}.skn', f'particles/{name}']))}"
    if k == 3:
        return f"data/characters/{c}/{draw(st.sampled_from([c + '.bin', name]))}"
    if k == 4:
        return f"data/{c}_skins_{skin}.bin"
    if k == 5:
        return f"assets/shaders/generated/shaders/{name}"
    if k == 6:
        return f"assets/{draw(st.sampled_from(LANGS))}/{name}"
    return draw(st.sampled_from(["", "x/", "levels/map1/", "data/menu/", "assets/100%/" if odd else "b/"])) + name


@st.composite
def archives(draw, name, paths, contents):
    """A WAD: entries (path, content strategy index, storage kind, damage)"""
    n = draw(st.integers(0, 5))
    entries = []
    for _ in range(n):
        entries.append((draw(paths), draw(contents), draw(st.sampled_from([0, 3, 3, 1, 4, 2])), draw(st.sampled_from([None] * 6 + ["flip", "cut"]))))
    return dict(name=name, entries=entries, toc=draw(st.sampled_from([True, True, True, False])))


def write_archive(root, desc):
    """Write the archive, return its path"""
    entries, seen = [], set()
    for path, content, kind, damage in desc["entries"]:
        h = path if isinstance(path, int) else xxh(path)
        if h in seen or h == TOC:
            continue
        seen.add(h)
        e = dict(hash=h, kind=kind, sha=xxhash.xxh64_intdigest(content))
        if kind == 2:
            e.update(target="target/of/link.bin", nul=1)
        else:
            e["content"] = content
        if kind == 4:
            e["cuts"] = [(400, True), (600, False)]
        entries.append(e)
    case = dict(version=(3, 1), entries=entries, order=[])
    if any(e["kind"] == 4 for e in entries):
        case["toc"] = dict(hash=TOC if desc["toc"] else 0x1234, kind=3, pos=len(entries), base=0, filler=0)
    raw, infos = wadgen.build_wad(case)[:2]
    raw = bytearray(raw)
    by_hash = {i["hash"]: i for i in infos}
    for path, content, kind, damage in desc["entries"]:
        if damage:
            info = by_hash.get(path if isinstance(path, int) else xxh(path))
            if info and info["kind"] == 4 and info["stored"]:
                off, n = info["offset"], info["compressed_size"]
                if damage == "flip":
                    raw[off + n // 2] ^= 0x55
                else:
                    raw[off:off + n] = b"\0" * n
    full = os.path.join(root, desc["name"])
    os.makedirs(os.path.dirname(full), exist_ok=True)
    with open(full, "wb") as f:
        f.write(raw)
    return full


def set_lists(lcu, game, toc=True):
    H.hashfile_lcu.hashes = {xxh(p): p for p in lcu}
    H.hashfile_game.hashes = {xxh(p): p for p in game}
    for hf in (H.hashfile_lcu, H.hashfile_game) if toc else ():
        hf.hashes[TOC] = "data/wad.subchunktoc"


@st.composite
def mentioned_paths(draw, kind):
    """Paths that the content of an archive can give"""
    name = draw(st.sampled_from(WORDS)) + draw(st.sampled_from(["", "_1", "-x2"]))
    if kind == "lcu":
        return draw(st.sampled_from([BASE, "plugins/rcp-fe-lol-loot/global/default/"])) + draw(st.sampled_from(["", "v1/", "a/b/"])) + name + draw(st.sampled_from([".png", ".json", ".js"]))
    return draw(st.sampled_from(["assets/", "data/"])) + draw(st.sampled_from(["", "x/", "characters/ahri/"])) + name + draw(st.sampled_from([".dds", ".bin", ".skn", ".json"]))


def mention(kind, paths):
    """Content of a file mentioning the paths"""
    out = []
    for p in paths:
        if kind == "lcu" and p.startswith(BASE):
            p = "lol-game-data/assets/" + p[len(BASE):]
        elif kind == "lcu" and p.startswith("plugins/rcp-fe-") and "/global/default/" in p:
            p = "fe/" + p[len("plugins/rcp-fe-"):].replace("/global/default/", "/", 1)
        elif kind == "game":
            first, *rest = p.split("/")
            p = "/".join([first.upper(), *rest])
        out.append(f'"{p}"')
    return "; ".join(out).encode() + (b"\xff" if kind == "game" else b"")
