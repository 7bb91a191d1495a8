"""C19 Paths written in archived files are discovered"""
import contextlib
import hashlib
import json
import os
from hypothesis import strategies as st
from vp import guessgen as G, guessref as R
from vp.cli import Stream, run_cli
from vp.core import Sub, eq, expect, short
from cdtb import hashes as H
from cdtb.hashes import LcuHashGuesser, GameHashGuesser
from cdtb.wad import Wad

ASSUMPTIONS = ["references are delimited (by a length, quote, space or other character that is not part of paths), as in the formats that hold them",
               "referenced paths are made of the characters used in paths: letters, digits, and /_.- (and @ in the client)"]

PART = st.text("abzAZ09_-", min_size=1, max_size=6)
SUB = st.lists(PART, min_size=1, max_size=3).map("/".join)
EXT = st.sampled_from([".js", ".json", ".png", ".jpg", ".webm", ".html", ".css", ".map", ".dds", ".svg"])
FILE = st.builds(lambda s, e: s + e, SUB, EXT)
FILLER = st.one_of(st.text("abc \n\"'(){};:=,é漢\t<>", max_size=12), st.sampled_from(["", "var x = 1;\n", '{"a": [1, 2]}\n', "\0\1\2", "// fire\n", "x" * 300, "'", '"']))
LCU_FORMS = ["fe", "data", "assets", "dot", "dotdot", "quoted", "template", "map"]
# directories of known paths
LCU_KNOWN = ["plugins/rcp-fe-lol-x/global/default/index.html", G.BASE + "v1/a.json", "plugins/rcp-fe-lol-loot/br/fr_fr/img/deep/x.png"]
LCU_DIRS = sorted(R.directories(LCU_KNOWN))


def lcu_reference(form, sub, n, plugin):
    """(text, path) of a reference"""
    if form == "quoted" and sub[0] in "-_":
        sub = "a" + sub   # quoted file names start with a letter or a digit
    low = sub.lower()
    d = LCU_DIRS[n % len(LCU_DIRS)]
    if form == "fe":
        return f"/fe/{plugin}/{sub}", f"plugins/rcp-fe-{plugin}/global/default/{low}".lower()
    if form == "data":
        return f"/DATA/{sub}", G.BASE + "data/" + low
    if form == "assets":
        return f"/lol-game-data/assets/{sub}", G.BASE + low
    if form == "dot":
        return f"./{sub}", f"{d}/{low}"
    if form == "dotdot":
        parent = d.rsplit("/", 1)[0] if "/" in d else d
        return ["../", "../../", "./../"][n % 3] + sub, f"{parent}/{low}"
    if form == "quoted":
        return sub, f"{d}/{low}"
    if form == "template":
        name = sub.rsplit(".", 1)[0]
        return f'<template id="lol-x-template-{name}">', f"{d}/{name.lower()}/template.html"
    if form == "map":
        name = sub.rsplit(".", 1)[0] + ".js"
        return f"//# sourceMappingURL={name}.map", f"{d}/{name.lower()}"


@st.composite
def lcu_files(draw):
    k = draw(st.sampled_from(["text"] * 6 + ["trans", "description", "splash", "summary", "items", "jsontext"]))
    kind = draw(st.sampled_from([0, 1, 3, 4]))
    if k in ("text", "jsontext"):
        refs = draw(st.lists(st.tuples(st.sampled_from(LCU_FORMS), FILE, st.integers(0, 50), st.sampled_from(["lol-loot", "x", "lol-y2"]), FILLER, st.sampled_from(['"', "'", '"'])), min_size=1, max_size=5))
        return dict(k=k, refs=refs, tail=draw(FILLER), bom=draw(st.integers(0, 5)) == 0, name=draw(st.sampled_from([None, None, "a.js", "a.html", "b.txt", "c", "d.css", "e.json"])), kind=kind)
    if k == "trans":
        v = draw(st.lists(PART, min_size=1, max_size=4, unique=True))
    elif k == "description":
        v = draw(st.sampled_from(["rcp-fe-new", "rcp-be-a", "x"]))
    elif k == "splash":
        v = (draw(st.sampled_from(["Worlds", "kda2"])), draw(st.lists(st.builds(lambda a, b: a + b, PART, st.sampled_from([".webm", ".ogg"])), max_size=3)))
    elif k == "summary":
        v = draw(st.lists(st.integers(-1, 900), min_size=1, max_size=4, unique=True))
    else:
        v = draw(st.lists(FILE, min_size=1, max_size=3))
    return dict(k=k, v=v, kind=kind, n=draw(st.integers(0, 30)))


def lcu_file(f):
    """(known path or None, content, {target paths})"""
    k = f["k"]
    if k in ("text", "jsontext"):
        text, targets = "", set()
        items = []
        for form, sub, n, plugin, filler, q in f["refs"]:
            t, p = lcu_reference(form, sub, n, plugin)
            targets.add(p)
            if k == "jsontext":
                items.append(t if form not in ("template", "map") else f" {t}" if form == "map" else "x")
                if form == "template":
                    targets.discard(p)
            elif form in ("template", "map"):
                text += f"{filler}\n{t}\n"
            elif form in ("dot", "dotdot") and n % 2:
                text += f"{filler} {t} "
            else:
                text += f"{filler}\n{q}{t}{q}\n"
        if k == "jsontext":
            # a reference that is also written in a list; sets drop duplicates
            targets = set()
            for form, sub, n, plugin, _, _ in f["refs"]:
                if form != "template":
                    targets.add(lcu_reference(form, sub, n, plugin)[1])
            text = json.dumps(dict(other=items, n={"x": None}))
            return "plugins/rcp-fe-lol-x/global/default/j.json", text.encode(), targets
        data = (b"\xef\xbb\xbf" if f["bom"] else b"") + (text + f["tail"]).encode()
        name = f["name"]
        return (f"plugins/rcp-fe-lol-x/global/default/{name}" if name else None), data, targets
    v = f["v"]
    if k == "trans":
        return "plugins/rcp-fe-lol-loot/global/default/trans.json", json.dumps({x: f"/fe/{x}" for x in v}).encode(), {f"{G.BASE}v1/hextech-images/{x}.png" for x in v}
    if k == "description":
        names = ["index.html", "init.js", "init.js.map", "bundle.js", "trans.json", "css/main.css", "license.json"]
        data = json.dumps(dict(name=v, pluginDependencies={"a": "1"}))
        return [None, f"plugins/{v}/description.json"][f["n"] % 2], data.encode(), {f"plugins/{v}/global/default/{x}" for x in names}
    if k == "splash":
        name, files = v
        files = {f"k{i}": x for i, x in enumerate(files)}
        files["main"] = f"audio-splash-{name}.ogg"
        data = json.dumps(dict(musicVolume=0.5, files=files))
        root = f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name.lower()}/"
        return [None, "plugins/rcp-fe-lol-splash/global/default/config.json"][f["n"] % 2], data.encode(), {root + "config.json"} | {root + x.lower() for x in files.values()}
    if k == "summary":
        data = json.dumps([dict(id=i, name="x") for i in v])
        return G.BASE + "v1/champion-summary.json", data.encode(), {f"{G.BASE}v1/champions/{i}.json" for i in v} | {f"{G.BASE}v1/champion-splashes/{i}/metadata.json" for i in v}
    data = json.dumps(dict(id=1, recommendedItemDefaults=["/" + x for x in v]))
    return [None, G.BASE + "v1/champions/1.json"][f["n"] % 2], data.encode(), {G.BASE + x.lower() for x in v}


# --- game

GAME_KNOWN = ["data/characters/ahri/ahri.bin", "data/menu/x.txt"]
GFILE = st.builds(lambda s, e: s + e, SUB, st.sampled_from([".dds", ".png", ".bin", ".skn", ".lua", ".troybin", ".x", ""]))
JUNK = st.one_of(st.binary(max_size=12), st.sampled_from([b"", b"PROP", b"\0" * 8, b"ASSET", b"DATA", b"\xff\xff", b"Name=", b"x" * 300, b"ASSETS/old.dds\0", b"DATA/\xff"]))
BIN_PREFIX = ["ASSETS", "DATA", "Characters", "Shaders", "Maps", "Gameplay", "ClientStates", "Patching", "Loadouts", "Maps/MapGeometry"]
RAW_PREFIX = ["ASSETS", "Common", "DATA", "DATA_SOON", "DATA_Soon", "Gameplay", "Global", "LEVELS", "Loadouts", "UX", "UIAutoAtlas"]


@st.composite
def game_files(draw):
    k = draw(st.sampled_from(["bin", "bin", "bin", "raw", "raw", "preload", "shader", "atlas"]))
    kind = draw(st.sampled_from([0, 1, 3, 4]))
    n = draw(st.integers(0, 5))
    if k == "bin":
        refs = draw(st.lists(st.tuples(st.sampled_from(BIN_PREFIX), GFILE, JUNK, st.integers(0, 40)), min_size=1, max_size=4))
    elif k == "raw":
        refs = draw(st.lists(st.tuples(st.sampled_from(RAW_PREFIX), GFILE, JUNK, st.integers(0, 40)), min_size=1, max_size=4))
    elif k == "preload":
        refs = draw(st.lists(st.tuples(SUB, st.sampled_from([".lua", ".troy", ""]), JUNK), min_size=1, max_size=4))
    elif k == "shader":
        refs = draw(st.lists(st.tuples(st.sampled_from(["", "../", "./", "../../"]), FILE, JUNK), min_size=1, max_size=3))
    else:
        refs = draw(st.lists(st.tuples(FILE, st.binary(max_size=8)), min_size=1, max_size=3))
    return dict(k=k, refs=refs, n=n, kind=kind, tail=draw(JUNK))


def lua(p):
    return {p, p[:-4] + ".luabin", p[:-4] + ".luabin64", p[:-4] + ".preload"}


def game_file(f):
    k, n = f["k"], f["n"]
    data, targets = b"", set()
    if k == "bin":
        for prefix, sub, junk, m in f["refs"]:
            if m == 0:
                sub = "x" * 300 + sub
            p = f"{prefix}/{sub}"
            data += junk + len(p).to_bytes(2, "little") + p.encode()
            p = p.lower()
            if prefix == "Characters":
                t = {p, "assets/" + p, "data/" + p}
            elif p.endswith(".lua"):
                t = lua(p)
            elif prefix == "Shaders":
                e = [".ps_2_0", ".ps_3_0", ".vs_2_0", ".vs_3_0", ".ps", ".vs"][m % 6]
                t = {f"assets/shaders/generated/{p}{e}", f"assets/shaders/generated/{p}{e}{R.SHADER_VARIANTS[m % 7]}"}
            elif prefix == "Maps/MapGeometry":
                t = {f"data/{p}.mapgeo", f"data/{p}.materials.bin"}
            elif prefix in ("Maps", "ClientStates", "Patching", "Loadouts"):
                if p.startswith("maps/mapgeometry/"):
                    continue
                parts = p.split("/")
                t = {p, "/".join(parts[:-1])}
                if len(parts) > 2:
                    t.add("/".join(parts[:-2]))
            else:
                t = {p} | ({p[:-4] + ".dds"} if p.endswith(".png") else set())
            targets |= t
        data = (b"PROP" if n % 2 == 0 else b"") + data + f["tail"]
        return [None, "data/a.bin", "data/b.inibin"][n % 3 if n % 2 else 0] if n % 2 == 0 else ["data/a.bin", "data/b.inibin"][n // 2 % 2], data, targets
    if k == "raw":
        for prefix, sub, junk, m in f["refs"]:
            if m >= 37:
                sub = "x" * [300, 230, 512 - len(prefix) - len(sub), 60000][m - 37] + sub
            p = f"{prefix}/{sub}"
            enc = p.encode()
            if m % 3 == 0:
                data += junk + b"\0" + enc + b'"'
            elif m % 3 == 1:
                data += junk + b"\1" + len(enc).to_bytes(2, "little") + enc + b"more/text.x"[:m % 5]
            else:
                data += junk + len(enc).to_bytes(4, "little") + enc + b"more/text.x"[:m % 5]
            p = p.lower()
            if p.startswith("data_soon/"):
                p = "data/" + p[10:]
            targets |= lua(p) if p.endswith(".lua") else {p}
            data += b"\0"
        data = b"\x07\x01\x02" + data + f["tail"]
        return [None, "data/c.x", "data/c.txt", "data/none"][n % 4], data, targets
    if k == "preload":
        for sub, ext, junk in f["refs"]:
            junk = junk.replace(b'"', b"")
            data += junk + b'Name="' + (sub + ext).encode() + b'"\n'
            p = sub.lower()
            targets |= {p + ".lua", p + ".luabin", p + ".luabin64"} if ext == ".lua" else {f"data/shared/particles/{p}.troybin"} if ext == ".troy" else {f"data/pre/{p}.preload"}
        return "data/pre/x.preload", data + f["tail"].replace(b'"', b""), targets
    if k == "shader":
        for up, sub, junk in f["refs"]:
            data += junk.replace(b'"', b"") + b'\n#include "' + (up + sub).encode() + b'"\n'
            base = {"": "assets/shaders/hlsl/", "./": "assets/shaders/hlsl/", "../": "assets/shaders/", "../../": "assets/"}[up]
            targets.add(base + sub.lower())
        return "assets/shaders/hlsl/s." + ["hls", "ps_2_0", "ps_3_0", "vs_2_0", "vs_3_0"][n % 5], data + f["tail"].replace(b'"', b""), targets
    for sub, junk in f["refs"]:
        data += junk + b"\n" + sub.encode() + b"\nsize: 1,2\n"
        targets.add("data/spine/" + sub.lower())
    return "data/spine/x.atlas", data + f["tail"], targets


@st.composite
def cases(draw, kind):
    files = draw(st.lists(lcu_files() if kind == "lcu" else game_files(), min_size=1, max_size=4))
    others = draw(st.lists(st.tuples(st.binary(max_size=20), st.sampled_from([0, 3, 2, 4, 4]), st.sampled_from([None, "flip", "cut"])), max_size=3))
    return dict(kind=kind, files=files, others=others, command=draw(st.integers(0, 3)) == 0)


def check(case, ctx):
    root, kind = ctx.tmp(), case["kind"]
    known = list(LCU_KNOWN if kind == "lcu" else GAME_KNOWN)
    entries, targets, taken = [], set(), set()
    for f in case["files"]:
        path, data, found = (lcu_file if kind == "lcu" else game_file)(f)
        if path is None:
            # the detected type of a file depends on its hash only
            path = int.from_bytes(hashlib.sha1(b"c19" + data).digest()[:8], "little")
        else:
            known.append(path)
        if path in taken:
            continue
        taken.add(path)
        entries.append((path, data, f["kind"], None))
        targets |= found
        ctx.label(f["k"])
    targets -= set(known)
    targets = sorted(t for t in targets if t not in taken)[:40]
    for i, (data, k, damage) in enumerate(case["others"]):
        h = int.from_bytes(hashlib.sha1(b"c19 other %d" % i + data).digest()[:8], "little")
        entries.append((h, data, k, damage if k == 4 else None))
    # a target may be in another archive
    ext = ".wad" if kind == "lcu" else ".wad.client"
    half = len(targets) // 2 + 1
    descs = [dict(name=f"a{ext}", entries=entries + [(t, b"\x01x", 0, None) for t in targets[:half]], toc=True),
             dict(name=f"b{ext}", entries=[(t, b"\x01x", 0, None) for t in targets[half:]], toc=True)]
    wads = [G.write_archive(root, d) for d in descs]
    G.set_lists(known if kind == "lcu" else ["x"], known if kind == "game" else ["x"])
    hf = H.hashfile_lcu if kind == "lcu" else H.hashfile_game
    if case["command"]:
        for f, name in ((H.hashfile_lcu, "lcu"), (H.hashfile_game, "game")):
            f.filename = f"{root}/{name}.txt"
            f.save()
            f.hashes = None
        rc, out, err = run_cli(["hashes-guess", "-m", "grep", *wads])
        eq(rc, 0, f"exit status of hashes-guess ({err})")
        got = hf.load(force=True)
    else:
        g = (LcuHashGuesser if kind == "lcu" else GameHashGuesser).from_wads([Wad(w) for w in wads])
        try:
            with contextlib.redirect_stdout(Stream()), contextlib.redirect_stderr(Stream()):
                for w in g.wads:
                    w.guess_extensions()
                    g.grep_wad(w)
        except Exception as e:
            expect(False, f"grep_wad failed: {type(e).__name__}: {e}")
        got = g.known
    missed = [t for t in targets if got.get(G.xxh(t)) != t]
    expect(not missed, lambda: f"written paths not discovered: {missed[:4]} (contents {[short(e[1], 200) for e in entries]})")
    ctx.nontrivial(targets)


SUBS = [
    Sub("client", lambda: cases("lcu"), check, 4800, 40000, "at least one written path is to be discovered", shards=8),
    Sub("game", lambda: cases("game"), check, 4800, 40000, "at least one written path is to be discovered", shards=8),
]
