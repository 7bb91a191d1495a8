"""C15 Each patch file is exported, under the right path, or left out by rule"""
import io
import json
import os
from hypothesis import strategies as st
from PIL import Image
from vp import wadgen, bingen, rstgen, skngen, infogen, texgen, patchgen, ref
from vp.core import Sub, eq, expect, short
from cdtb.export import CdragonRawPatchExporter
from cdtb import rstfile as R
from cdtb import binfile as B

ASSUMPTIONS = ["no mesh is named *.bin.skn (its directory of submeshes would be named like a BIN file)", "within one patch, no two sources are exported to the same path, and no exported file is at the place of a directory",
               "paths are lowercase, as in the hash lists"]

VERSIONS = {"8.1": 801, "9.3": 903, "9.13": 913, "9.22": 922, "9.23": 923, "10.7": 1007, "10.8": 1008, "13.13": 1313, "13.14": 1314, "14.3": 1403, "14.4": 1404,
            "14.14": 1414, "14.15": 1415, "15.1": 1501, "15.2": 1502, "15.10": 1510, "main": 9999}

GAME_DIRS = ["data/", "data/x/", "assets/a b/", "data/menu/", "data/menu/en_us/", "assets/items/icons2d/autoatlas/large/", "assets/items/icons2d/autoatlas/", "global/champions/",
             "levels/map_skins_1/", "levels/map_skins_1/", "", "unknown/", "x.y/", "sub/data/menu/", "game/"]
LCU_DIRS = ["plugins/rcp-be-lol-game-data/global/default/", "plugins/rcp-fe-x/", "plugins/x/data/menu/", "", "v1/"]
STEMS = ["a", "b", "champ_skins_c", "atlas_info", "main_en_us", "championskins", "description", "a.b", "_skins_", "e.json", "f.png", "q.bin"]
EXTS = [".bin", ".bin", ".dds", ".tex", ".tga", ".png", ".jpg", ".skn", ".skn", ".txt", ".txt", ".stringtable", ".json", ".ttf", ".otf", ".lua", ".info", ".exe", ".dll", ".cdtb", "", ".bnk", ".webm", ".dat"]
GAME_WADS = ["DATA/FINAL/Champions/Aatrox.wad.client", "DATA/FINAL/Champions/Aatrox.fr_FR.wad.client", "DATA/FINAL/UI.ko_KR.wad.client", "data/final/maps.wad.client", "DATA/x.en_USA.wad.client"]
LCU_WADS = ["Plugins/rcp-be-lol-game-data/default-assets.wad", "Plugins/rcp-be-lol-game-data/assets2.wad", "Plugins/rcp-fe-lol-x/assets.wad", "Plugins/rcp-fe-lol-x/fr_FR-assets.wad",
            "Plugins/other/assets.wad", "Plugins/rcp-fe-lol-x/more.wad", "assets.wad", "Plugins/rcp-a/b/assets1.wad", "Plugins/rcp-a/assets10.wad", "Plugins/rcp-fe-lol-x/default-assets127.wad"]
PLAIN_DIRS = ["", "Plugins/rcp-be-lol-game-data/", "x/", "game/", "Game/data/", "x/y/z/"]
LANG = {GAME_WADS[1]: "fr_fr", GAME_WADS[2]: "ko_kr"}


@st.composite
def cases(draw):
    version = draw(st.sampled_from(sorted(VERSIONS)))
    n = draw(st.integers(1, 14))
    items = []
    for i in range(n):
        where = draw(st.sampled_from(["game", "game", "game", "lcu", "lcu", "plain"]))
        stem, ext = draw(st.sampled_from(STEMS)), draw(st.sampled_from(EXTS))
        if where == "plain":
            d = draw(st.sampled_from(PLAIN_DIRS))
            items.append(dict(where=where, elem=draw(st.sampled_from(["game", "client"])), path=d + stem + ext, n=draw(st.integers(0, 3))))
            continue
        dirs, wads = (GAME_DIRS, GAME_WADS) if where == "game" else (LCU_DIRS, LCU_WADS)
        special = draw(st.sampled_from([None] * 8 + ["global/champions/championskins.info", "assets/items/icons2d/autoatlas/x/atlas_info.bin", "data/menu/en_us/main.stringtable", "data/menu/fontconfig_fr_fr.txt"]))
        path = special if special and where == "game" else draw(st.sampled_from(dirs)) + stem + ext
        if draw(st.integers(0, 19)) == 0:
            real = ext_of(path)
            path = path[:len(path) - len(real)] + "x" * 250 + real
        if path.endswith("q.bin.skn"):
            path = path[:-8] + ".skn"
        items.append(dict(where=where, wad=draw(st.sampled_from(wads)), path=path, n=draw(st.integers(0, 3)), known=draw(st.integers(0, 4)) > 0, shift=draw(st.sampled_from([0, 0, 33, 36])),
                          kind=draw(st.sampled_from([0, 1, 3, 4, 2]) if draw(st.integers(0, 3)) == 0 else st.sampled_from([0, 3])),
                          like=draw(st.sampled_from(["tex", "dds", "skn", "json", "txt", "bin", "png", "bnk", "lua"]))))
    return dict(version=version, items=items, wad_version=draw(st.sampled_from([(2, 0), (3, 0), (3, 4), (1, 0)])), elements=draw(st.sampled_from(["both", "both", "both", "client", "game"])),
                stray=draw(st.booleans()), again=draw(st.booleans()))


def ext_of(path):
    name = path.rsplit("/", 1)[-1].lstrip(".")
    i = name.rfind(".")
    return name[i:] if i >= 0 else ""


def converter(path):
    """(type of conversion, {output suffix...}) from an export path"""
    ext = ext_of(path)
    if ext in (".dds", ".tga", ".tex"):
        return ext[1:]
    if path.startswith("game/") or "/game/" in path:
        if path.endswith(".cdtb"):
            return "atlas"
        if path.startswith("game/assets/items/icons2d/autoatlas/") and path.endswith("/atlas_info.bin") and path.count("/") >= 6:
            return "atlas"
        if path.endswith(".bin"):
            return "bin"
        if ext in (".txt", ".stringtable"):
            i = path.find("game/")
            rest = "/" + path[i + 5:]
            if "/data/menu/" in rest:
                return "rst"
    if ext == ".skn":
        return "skn"
    if path == "game/global/champions/championskins.info":
        return "skins"
    return "copy"


def outputs(path, conv):
    """Published paths"""
    base = path[:len(path) - len(ext_of(path))]
    return {"dds": [base + ".png"], "tga": [base + ".png"], "tex": [base + ".png"], "atlas": [path + ".json"], "bin": [path, path + ".json"],
            "rst": [path, path + ".json"], "skn": [path, base], "skins": [path + ".json"], "copy": [path]}[conv]


GOOD_EXTS = (".png", ".skn", ".txt", ".stringtable", ".json", ".ttf", ".otf")


def game_kept(path, conv):
    if conv == "bin":
        return "_skins_" not in path
    return any(ext_of(p) in GOOD_EXTS for p in outputs(path, conv))


BIN_NAMES = {"entries": {}, "hashes": {}, "fields": {7: "mSeven"}, "types": {}, "paths": {}}


def content(conv, n, game):
    """(source bytes, model of the conversion)"""
    if conv in ("tex", "dds", "tga"):
        w, h = n + 1, 3 - n % 2
        return patchgen.image(bytes([n, 9, 200]), w=w, h=h, ext=conv), (w, h)
    if conv == "bin":
        fields = [(1, "U8", n), (2, "LIST", ("U8", [1, 2])), (3, "LINK", 5), (7, "STRUCT", (9, [(4, "FLAG", 1)])), (5, "OPTION", ("S32", -n)), (6, "EMBEDDED", (8, []))]
        case = dict(version=3, patch=False, linked=["l"], entries=[dict(path=3 + n, type=4, fields=fields)])
        return bingen.build_bin(case, game), case
    if conv == "rst":
        v = [2, 3, 4, 5][n]
        bits = rstgen.bits_for(v, game)
        case = dict(version=v, entries=[(rstgen.rst_hash("some_key", bits, game), {"text": b"caf\xc3\xa9"}), (11, {"text": b"eleven"})])
        return rstgen.build_rst(case, game)[0], {"entries": {"some_key": "café", f"{{{11:010x}}}": "eleven"}, "version": v}
    if conv == "skn":
        case = dict(major=1, minor=0, submeshes=[dict(name=x, vertices=[((0, 0x3f800000, 0), (0, 0), (0, 0, n))], faces=[(0, 0, 0)]) for x in ["Body", "Hat"][:1 + n % 2]])
        return skngen.build_skn(case), case
    if conv == "atlas":
        case = dict(hashed=bool(n % 2), atlases=[5] if n % 2 else ["Up/Atlas.dds"], textures=[(6 if n % 2 else "t", (0, 0x3f800000, 0, 0), 0)], known={}, tail=b"")
        return infogen.build_atlas(case), case
    if conv == "skins":
        case = [("Ahri", [(n, 4, "Skin"), (n + 1, 0, "x")])]
        return infogen.build_skins(case), case
    return b"content %d" % n if n else b"", None


def check_output(conv, path, data, model, tree, game):
    base = path[:len(path) - len(ext_of(path))]
    outs = outputs(path, conv)
    if conv in ("bin", "rst", "skn", "copy"):
        eq(tree.pop(path, None), data, f"exported {path}")
    if conv == "skn":
        for name, vertices, faces in skngen.model(model):
            obj = tree.pop(f"{base}/{name}.obj", None)
            expect(obj is not None, f"{path}: {name}.obj missing")
            skngen.compare_obj(obj.decode(), vertices, faces, eq, f"{path}/{name}")
        return
    if conv in ("tex", "dds", "tga"):
        raw = tree.pop(base + ".png", None)
        expect(raw is not None, f"{base}.png missing")
        eq(Image.open(io.BytesIO(raw)).size, model, f"size of {base}.png")
        return
    if conv != "copy":
        raw = tree.pop(outs[-1], None)
        expect(raw is not None, f"{outs[-1]} missing")
        got = json.loads(raw.decode())
        want = {"bin": lambda: bingen.model_file_json(model, bingen.Names(BIN_NAMES)), "rst": lambda: model, "atlas": lambda: infogen.model_atlas(model),
                "skins": lambda: infogen.model_skins(model)}[conv]()
        expect(bingen.same_json(got, want), lambda: f"{outs[-1]}: {short(got)}, want {short(want)}")


def check(case, ctx):
    version = case["version"]
    game = VERSIONS[version]
    lang_dirs = game >= 1404
    elems = {"game": {}, "client": {}}
    wads, taken, used_hashes = {}, set(), set()
    known_game, known_lcu = set(patchgen.data_paths()), set()
    want, unknown, stats = {}, set(), dict(kept=0, dropped=0)

    def claim(path, conv):
        """Reserve the published paths"""
        outs = outputs(path, conv)
        if any(o == t or o.startswith(t + "/") or t.startswith(o + "/") for o in outs for t in taken):
            return False
        taken.update(outs)
        return True

    taken.add("cdragon")
    data_files = patchgen.data_files(version)
    for files in data_files.values():
        for p, data, storage in files:
            full = f"game/en_us/{p}" if lang_dirs and "menu" in p else f"game/{p}"
            claim(full, converter(full))
            want[full] = (None, data, None)
    for it in case["items"]:
        path = it["path"]
        elem = {"game": "game", "lcu": "client"}.get(it["where"]) or it["elem"]
        if case["elements"] != "both" and elem != case["elements"]:
            continue
        if it["where"] == "plain":
            if path in ("",) or path.endswith("/") or path.lower() in taken:
                continue
            conv = converter(path.lower())
            data, model = content(conv, it["n"], game)
            kept = not path.lower().endswith((".exe", ".dll", "/description.json"))
            if any(x.lower() == path.lower() or x.lower().startswith(path.lower() + "/") or path.lower().startswith(x.lower() + "/") for x in list(elems["game"]) + list(elems["client"]) + [w for _, w in wads]):
                continue
            if kept and not claim(path.lower(), conv):
                continue
            elems[elem][path] = data
            if kept:
                want[path.lower()] = (conv, data, model)
            stats["kept" if kept else "dropped"] += 1
            continue
        wad, h = it["wad"], wadgen.wad_hash(path)
        is_known = it["known"] or not path
        prefix = ""
        if it["where"] == "game":
            prefix = f"game/{LANG[wad]}/" if lang_dirs and wad in LANG else "game/"
        if is_known:
            guess = ref.file_name_of(path, h, None)
            conv = converter(prefix + guess)
            data, model = content(conv, it["n"], game)
            full = ref.file_name_of(path, h, data)
            if converter(prefix + full) != conv:   # an extension was guessed from the content
                data, model = b"\x01\x02 no known type", None
                full = ref.file_name_of(path, h, data)
                if converter(prefix + full) != "copy":
                    continue
                conv = "copy"
        else:
            conv = it["like"] if it["like"] in ("tex", "dds", "skn") else "bin" if it["like"] == "bin" and it["where"] == "game" else "copy"
            data, model = content(conv, it["n"], game)
            if conv == "copy":
                data = {"json": b'{"n": %d}', "txt": b"text %d", "bin": b"PROP%d", "png": b"\x89PNG\r\n\x1a\n%d", "bnk": b"BKHD%d", "lua": b"\x1bLuaQ\x00\x01\x04\x04%d"}[it["like"]] % it["n"]
            # the extension of an unknown file only depends on its content
            h = wadgen.wad_hash(f"secret {it['like']} {it['n']} {conv} {game}" + (wad if it["kind"] != 2 else "link")) >> it["shift"]
            unknown_dir = "unknown"
            low = wad.lower().split("/")
            if it["where"] == "lcu" and low[0] == "plugins" and low[1].startswith("rcp-") and low[-1].rsplit(".")[0].rstrip("0123456789").endswith("assets"):
                unknown_dir = "/".join(low[:-1]) + "/unknown"
            full = ref.file_name_of(None, h, data, unknown_dir)
        redirect = it["kind"] == 2
        if any(hh == h for hh in wads.get((elem, wad), {})):
            continue
        full = prefix + full
        if redirect:
            kept = False
        elif full.endswith((".exe", ".dll")):
            kept = False
        else:
            kept = it["where"] != "game" or game_kept(full, conv)
        if (it["where"] == "game" and path in known_lcu) or (it["where"] != "game" and path in known_game):
            pass
        if kept and not claim(full, conv):
            continue
        if is_known:
            (known_game if it["where"] == "game" else known_lcu).add(path)
        elif not redirect:
            unknown.add(h)
        kind = it["kind"]
        if kind == 4 and case["wad_version"][0] != 3:
            kind = 3
        if kind == 4:
            # one subchunk table per archive: extra known file
            toc = f"{prefix}{'data/' if it['where'] == 'game' else ''}wad.subchunktoc"
            if it["where"] != "game":
                kind = 3
        wads.setdefault((elem, wad), {})[h] = (h, data if not redirect else b"target/of/link", kind)
        if kept:
            want[full] = (conv, data, model)
        stats["kept" if kept else "dropped"] += 1
        ctx.label(f"{it['where']}-{conv if kept else 'dropped'}{'' if is_known else '-unknown'}")
    # a hash unknown in one list may be known in the other: the lists are separate
    unknown -= {wadgen.wad_hash(p) for p in ()}
    for (elem, wad), files in wads.items():
        elems[elem][wad] = patchgen.wad_bytes(list(files.values()), tuple(case["wad_version"]))
    if data_files:
        for name, files in data_files.items():
            elems["game"][name] = patchgen.wad_bytes(files)
    patchgen.set_hashes(game=known_game, lcu=known_lcu)
    good, other = (R.hashfile_rst_xxh3, R.hashfile_rst_xxh64) if game >= 1415 else (R.hashfile_rst_xxh64, R.hashfile_rst_xxh3)
    good.hashes = {rstgen.rst_hash("some_key", 64, game): "some_key"}
    other.hashes = {rstgen.rst_hash("some_key", 64, game): "wrong list"}
    B.hashfile_binfields.hashes = dict(BIN_NAMES["fields"])
    root = ctx.tmp()
    use_game = case["elements"] != "client" or data_files
    patch = patchgen.make_patch(root, "p", version, elems["client"] if case["elements"] != "game" else None, elems["game"] if use_game else None)
    out = f"{root}/out/{version}"
    if case["stray"]:
        ref.write_tree(out, {"stray.txt": b"x", "game/data/stray.bin": b"x", "plugins/old/deep/old.js": b"x", "cdragon/files.other.txt": b"x"})
        for p in list(want)[:2]:
            # what is already there is replaced
            if want[p][0] == "copy":
                ref.write_tree(out, {p: b"older content"})
    exporter = CdragonRawPatchExporter(out, patch)
    exporter.process()
    if case["again"]:
        exporter.process()
    for e in patch.elements:
        expect(True in e.downloaded, f"element {e.name} exported without being completely downloaded")
    tree = {p: d for p, d in ref.read_tree(out).items() if d is not None}
    # published lists
    listed = tree.pop("cdragon/files.exported.txt").decode().split("\n")
    unk = tree.pop("cdragon/files.unknown.txt").decode().split("\n")
    expect(listed[-1] == "" and unk[-1] == "", "published list not ended by a newline")
    listed, unk = listed[:-1], unk[:-1]
    eq(listed, sorted(listed), "files.exported.txt sorted")
    eq(unk, sorted(unk), "files.unknown.txt sorted")
    eq(set(unk), {f"{h:016x}" for h in unknown}, "files.unknown.txt")
    published = set()
    for p, (conv, _, _) in want.items():
        published.update(outputs(p, conv or converter(p)))
    eq(set(listed), published, "files.exported.txt")
    eq(len(listed), len(set(listed)), "lines of files.exported.txt")
    # files
    if data_files:
        for k in ("tft", "arena"):
            if f"cdragon/{k}/en_us.json" in tree:
                tree.pop(f"cdragon/{k}/en_us.json")
    if case["stray"]:
        tree.pop("cdragon/files.other.txt", None)
    for p, (conv, data, model) in want.items():
        if conv is None:
            eq(tree.pop(p, None), data, f"exported {p}")
            expect(tree.pop(p + ".json", None) is not None, f"{p}.json missing")
        else:
            check_output(conv, p, data, model, tree, game)
    eq(tree, {}, "other published files")
    ctx.label("langdirs" if lang_dirs else "nolangdirs")
    ctx.nontrivial(stats["kept"] and stats["dropped"])


SUBS = [
    Sub("export", cases, check, 8000, 60000, "some files are exported and some are left out by rule", shards=8),
]
