"""C11 A bad asset never spoils an export"""
import io
import json
import os
from hypothesis import strategies as st
from PIL import Image
from vp import wadgen, bingen, rstgen, skngen, infogen, texgen, patchgen, ref
from vp.core import Sub, eq, expect, short, Violation
from cdtb.export import CdragonRawPatchExporter

ASSUMPTIONS = ["archives themselves (headers, entry compression) are well-formed but for the data of subchunked entries: the damage is in the assets",
               "a texture, mesh or table is only ever tried as what its path says it is"]

VERSIONS = {"9.3": 903, "9.13": 913, "12.10": 1210, "14.3": 1403, "14.20": 1420, "15.3": 1503, "main": 9999}

# type: candidate export sources (element, archive or None, path)
PLACES = {
    "tex": [("game", "a", "assets/t{}.tex"), ("client", "p", "plugins/x/t{}.tex"), ("client", None, "plugins/y/t{}.tex")],
    "dds": [("game", "a", "assets/d{}.dds"), ("client", "p", "plugins/x/d{}.dds"), ("client", None, "d{}.dds")],
    "tga": [("game", "a", "assets/g{}.tga"), ("client", None, "a/g{}.tga")],
    "skn": [("game", "a", "assets/s{}.skn"), ("game", "b", "assets/q/s{}.skn"), ("client", None, "s{}.skn")],
    "bin": [("game", "a", "data/b{}.bin"), ("game", "b", "data/x/b{}.bin"), ("game", None, "game/plain{}.bin")],
    "rst": [("game", "a", "data/menu/f{}.txt"), ("game", "b", "data/menu/g{}.stringtable")],
    "atlas": [("game", "a", "assets/items/icons2d/autoatlas/l{}/atlas_info.bin"), ("game", "b", "uiautoatlas/atlas{}.cdtb")],
    "skins": [("game", "a", "global/champions/championskins.info")],
    "plain": [("game", "a", "data/p{}.txt"), ("game", "b", "data/p{}.json"), ("client", "p", "plugins/x/p{}.js"), ("client", None, "p{}.css")],
}
KINDS = sorted(PLACES)
LONG = "long" * 75
# paths the file system does not support, if only for a converted file
LONG_PATHS = [f"assets/{LONG}/a.{{}}", f"assets/t/{LONG}.{{}}", f"assets/{LONG[:250]}.{{}}", f"{LONG[:252]}.{{}}", f"data/menu/{LONG}/{LONG}.{{}}"]


@st.composite
def st_source(draw, kind, game):
    """(valid content as a case)"""
    if kind in ("tex", "dds", "tga"):
        return (draw(st.sampled_from([0x0a, 0x0c, 0x0d, 0x0e, 0x14])), draw(st.integers(1, 9)), draw(st.integers(1, 9)), draw(st.binary(min_size=1, max_size=12)), draw(st.booleans()))
    if kind == "skn":
        return draw(skngen.st_skn().filter(lambda c: c["major"] == 0 or c["submeshes"]))
    if kind == "bin":
        return draw(bingen.st_binfile(version=game, depth=2, max_entries=2))
    if kind == "rst":
        return draw(rstgen.st_rst(game))
    if kind == "atlas":
        return draw(infogen.st_atlas().filter(lambda c: not c["known"]))
    if kind == "skins":
        return draw(infogen.st_skins())
    return draw(st.binary(max_size=20))


def build_source(kind, src, game):
    if kind == "tex":
        return texgen.build_tex(src[0], src[1], src[2], texgen.spread(src[3], texgen.level_size(*src[:3])), src[4], src[3])
    if kind == "dds":
        return texgen.build_dds(src[0], src[1], src[2], texgen.spread(src[3], texgen.level_size(*src[:3])))
    if kind == "tga":
        return texgen.build_tga(src[1], src[2], texgen.spread(src[3], 4 * src[1] * src[2]), 32, src[4], False)[0]
    if kind == "skn":
        return skngen.build_skn(src)
    if kind == "bin":
        return bingen.build_bin(src, game)
    if kind == "rst":
        return rstgen.build_rst(src, game)[0]
    if kind == "atlas":
        return infogen.build_atlas(src)
    if kind == "skins":
        return infogen.build_skins(src)
    return src


st_damage = st.one_of(
    st.tuples(st.just("cut"), st.integers(0, 10000)),
    st.tuples(st.just("cut"), st.integers(0, 40)),
    st.tuples(st.just("magic"), st.integers(0, 255)),
    st.tuples(st.just("bytes"), st.one_of(st.binary(max_size=40), st.sampled_from([b"PROP", b"PTCH", b"RST\x05", b"TEX\0", b"DDS ", b"mahC", b"IMAA", b"3\"\x11\0", b"{}", b"\0" * 64, b"\xff" * 64]))),
    st.tuples(st.just("flip"), st.lists(st.tuples(st.integers(0, 2000), st.integers(1, 255)), min_size=1, max_size=6)),
    st.tuples(st.just("head"), st.lists(st.tuples(st.integers(4, 40), st.sampled_from([0, 1, 2, 0x7f, 0x80, 0xff, 0x2f, 0x2e])), min_size=1, max_size=4)),
    st.tuples(st.just("swap"), st.sampled_from(KINDS)),
    st.tuples(st.just("name"), st.integers(0, 3)),
)


def damage(data, dmg, cases, game, asset):
    kind, arg = dmg
    if kind == "cut":
        return data[:arg % (len(data) + 1)]
    if kind == "magic":
        return bytes([arg]) * 4 + data[4:]
    if kind == "bytes":
        return arg
    if kind == "name":
        # a mesh with a submesh name that cannot be a file name, possibly after valid ones
        src = dict(asset[1]) if asset[0] == "skn" else {}
        if src.get("major"):
            k = arg % len(src["submeshes"])
            src["submeshes"] = [dict(sm, name="a/b") if i == k else sm for i, sm in enumerate(src["submeshes"])]
            return skngen.build_skn(src)
        return data[:-1]
    if kind == "swap":
        for k, s in cases:
            if k == arg:
                return build_source(k, s, game)
        return b"not what it says"
    out = bytearray(data)
    for pos, val in arg:
        if out:
            if kind == "flip":
                out[pos % len(out)] ^= val
            elif pos < len(out):
                out[pos] = val
    return bytes(out)


def too_big(kind, data):
    """Huge images only cost time"""
    i = int.from_bytes
    if data[:4] == b"TEX\0":
        return max(i(data[4:6], "little"), i(data[6:8], "little")) > 2000
    if data[:4] == b"DDS ":
        return max(i(data[12:16], "little"), i(data[16:20], "little")) > 2000
    if kind in ("tga", "dds") and len(data) >= 18:
        return max(i(data[12:14], "little"), i(data[14:16], "little")) > 2000
    return False


@st.composite
def cases(draw):
    version = draw(st.sampled_from(sorted(VERSIONS)))
    game = VERSIONS[version]
    n = draw(st.integers(2, 5))
    st_any = st.integers(0, 5).flatmap(lambda k: st.just(("unreadable", 0)) if k == 0 else st_damage)
    assets = []
    for i in range(n):
        kind = draw(st.sampled_from(KINDS))
        if kind == "skins" and any(a[0] == "skins" for a in assets):
            kind = "tex"
        place = draw(st.integers(0, 3))
        assets.append((kind, place, draw(st_source(kind, game)), draw(st.sampled_from([0, 1, 3])),
                       draw(st.none() | st_any) if i else draw(st_any)))
    return dict(version=version, assets=assets, siblings=draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([".json", ".ttf", "x.json"]), st.booleans()), max_size=3)), prior=draw(st.sampled_from(["none", "none", "good", "bad"])), lazy=draw(st.booleans()),
                long=draw(st.lists(st.tuples(st.integers(0, len(LONG_PATHS) - 1), st.sampled_from(["tex", "dds", "skn", "bin", "txt", "json", "js"]), st.sampled_from("abp")), max_size=3)))


def converted(exp_path, kind):
    """(kept original, converted files predicate)"""
    base = exp_path.rsplit(".", 1)[0]
    if kind in ("tex", "dds", "tga"):
        return None, lambda p: p == base + ".png"
    if kind == "skn":
        return exp_path, lambda p: p.startswith(base + "/") and p.endswith(".obj")
    if kind in ("bin", "rst"):
        return exp_path, lambda p: p == exp_path + ".json"
    if kind in ("atlas", "skins"):
        return None, lambda p: p == exp_path + ".json"
    return exp_path, lambda p: False


def check_complete(p, data):
    """A converted file must not be a partial one"""
    try:
        if p.endswith(".png"):
            Image.open(io.BytesIO(data)).load()
        elif p.endswith(".json"):
            json.loads(data.decode("utf-8"))
        elif p.endswith(".obj"):
            expect(data == b"" or data.endswith(b"\n"), f"{p}: partial OBJ")
    except (OSError, ValueError, SyntaxError) as e:
        raise Violation(f"{p}: partially written ({e}): {short(data, 100)}")


def export(root, tag, version, sources, output, prior=None, overwrite=True):
    """sources: [(element, archive, path, content, storage)]"""
    elems = {"game": {}, "client": {}}
    wads = {}
    for elem, archive, path, content, storage in sources:
        if archive is None:
            elems[elem][path] = content
        else:
            name = {"a": "DATA/FINAL/A.wad.client", "b": "DATA/FINAL/Champions/B.wad.client", "p": "plugins/x/assets.wad"}[archive]
            wads.setdefault((elem, name), []).append((path, content, storage))
    for name, files in patchgen.data_files(version).items():
        wads.setdefault(("game", name), []).extend(files)
    for (elem, name), files in wads.items():
        elems[elem][name] = patchgen.wad_bytes(files)
    patch = patchgen.make_patch(root, tag, version, elems["client"], elems["game"])
    CdragonRawPatchExporter(output, patch).process(overwrite=overwrite)


def check(case, ctx):
    game = VERSIONS[case["version"]]
    good_cases = [(a[0], a[2]) for a in case["assets"]]
    bad, missing = {}, set()
    siblings = []
    for i, ext, last in case.get("siblings", ()):
        kind, place = case["assets"][i][:2]
        if kind == "plain":
            continue
        elem, archive, path = PLACES[kind][place % len(PLACES[kind])]
        siblings.append((elem, archive, path.format(i).rsplit(".", 1)[0] + ext, b"[1]", 3, last))
    siblings = list({s[2]: s for s in siblings}.values())
    first, last = [s[:5] for s in siblings if not s[5]], [s[:5] for s in siblings if s[5]]
    good, mixed, original = list(first), list(first), list(first)
    for i, (kind, place, src, storage, dmg) in enumerate(case["assets"]):
        elem, archive, path = PLACES[kind][place % len(PLACES[kind])]
        path = path.format(i)
        data = build_source(kind, src, game)
        original.append((elem, archive, path, data, storage))
        exp_path = f"game/{path}" if elem == "game" and archive else path
        if dmg is not None and dmg[0] == "unreadable":
            if archive is None or not data:
                dmg = None
            else:
                missing.add(exp_path)
                mixed.append((elem, archive, path, data, patchgen.UNREADABLE))
                continue
        if dmg is None:
            good.append((elem, archive, path, data, storage))
            mixed.append(good[-1])
        else:
            spoiled = damage(data, dmg, good_cases, game, (kind, src))
            if spoiled == data or too_big(kind, spoiled):
                good.append((elem, archive, path, data, storage))
                mixed.append(good[-1])
                continue
            bad[exp_path] = (kind, dmg, spoiled)
            mixed.append((elem, archive, path, spoiled, storage))
    for l in (good, mixed, original):
        l.extend(last)
    long = []
    for i, ext, archive in case["long"]:
        path = LONG_PATHS[i].format(ext)
        if all(path != s[2] for s in long):
            elem = "client" if archive == "p" else "game"
            kind = ext if ext in KINDS else "plain"
            data = next((build_source(k, src, game) for k, src in good_cases if k == kind), b"content")
            long.append((elem, archive, path, data, 3))
            ctx.label("long-path")
    mixed += long
    paths = [s[2] for s in mixed]
    patchgen.set_hashes(game=paths + patchgen.data_paths(), lcu=paths)
    root = ctx.tmp()
    export(root, "good", case["version"], good, f"{root}/good")
    out = f"{root}/mixed"
    lazy = case["lazy"]
    if missing:
        ctx.label("unreadable")     # what an older export left of them is not specified
    elif case["prior"] == "good":
        export(root, "orig", case["version"], original, out)
        lazy = False
    elif case["prior"] == "bad":
        export(root, "m0", case["version"], mixed, out)
    export(root, "mixed", case["version"], mixed, out, overwrite=not lazy)
    # other files
    got = patchgen.visible(out)
    want = patchgen.visible(f"{root}/good")
    for t in (got, want):
        t.pop("cdragon/files.exported.txt", None)
        t.pop("cdragon/files.unknown.txt", None)
        t.pop("wad.subchunktoc", None)     # subchunk tables of archives made with unreadable entries
    for p in [p for p in got if LONG[:200] in p]:
        # only the part that can be written
        got.pop(p)
    failed = 0
    for exp_path, (kind, dmg, spoiled) in bad.items():
        kept, pred = converted(exp_path, kind)
        if kept is not None:
            eq(got.pop(kept, None), spoiled, f"copy of {exp_path}")
        outs = [p for p in got if pred(p) and p not in want]
        failed += not outs and kind != "plain"
        for p in outs:
            check_complete(p, got.pop(p))
        ctx.label(f"{kind}-{dmg[0]}-{'converted' if outs else 'refused'}")
    eq(got, want, "other files of the export")    # nothing is exported for unreadable entries
    # same result as exporting to an empty directory
    if case["prior"] != "none" and not missing:
        export(root, "fresh", case["version"], mixed, f"{root}/fresh")
        eq(patchgen.visible(out), patchgen.visible(f"{root}/fresh"), "export over an older export, compared to a fresh one")
    ctx.nontrivial((failed or missing or long) and len(good) >= 1)


# --- each converter alone: a malformed input is a conversion error and nothing else

@st.composite
def convert_cases(draw):
    game = draw(st.sampled_from(sorted(VERSIONS.values())))
    kind = draw(st.sampled_from([k for k in KINDS if k != "plain"]))
    src = draw(st_source(kind, game))
    return dict(game=game, kind=kind, src=src, damage=draw(st_damage), others=[(k, draw(st_source(k, game))) for k in draw(st.lists(st.sampled_from(KINDS), max_size=1))])


def check_convert(case, ctx):
    import re
    from cdtb import export as E
    game, kind = case["game"], case["kind"]
    patchgen.set_hashes()
    conv = {"tex": lambda: E.TexConverter(), "dds": lambda: E.ImageConverter((".dds", ".tga")), "tga": lambda: E.ImageConverter((".dds", ".tga")),
            "skn": lambda: E.SknConverter(), "bin": lambda: E.BinConverter(re.compile(r"game/.*\.bin$"), game),
            "rst": lambda: E.RstConverter(re.compile(r"game/.*\.txt$"), game), "atlas": lambda: E.AtlasInfoConverter(re.compile(r"game/.*\.cdtb$")),
            "skins": lambda: E.ChampionSkinInfoConverter()}[kind]()
    path = {"skins": "game/global/champions/championskins.info", "atlas": "game/a/b.cdtb", "rst": "game/data/menu/x.txt"}.get(kind, f"game/a/b.{kind}")
    expect(conv.is_handled(path), f"{path} not handled")
    data = damage(build_source(kind, case["src"], game), case["damage"], case["others"], game, (kind, case["src"]))
    if too_big(kind, data):
        return
    out = ctx.tmp()
    root = os.path.join(out, "in/out")
    ref.write_tree(out, {"keep.txt": b"outside", "in/keep.obj": b"outside", "in/out/game/a/other.txt": b"other", "in/out/game/a/b.js": b"sibling", "in/out/game/a/bc.png": b"sibling"})
    error = None
    try:
        conv.convert(io.BytesIO(data), root, path)
    except E.FileConversionError as e:
        error = e
    tree = ref.read_tree(out)
    for p, d in (("keep.txt", b"outside"), ("in/keep.obj", b"outside"), ("in/out/game/a/other.txt", b"other"), ("in/out/game/a/b.js", b"sibling"), ("in/out/game/a/bc.png", b"sibling")):
        eq(tree.pop(p, None), d, f"unrelated file {p}")
    kept, pred = converted(path, kind)
    left = {}
    for p, d in tree.items():
        if d is None:
            continue   # empty directory
        if not p.startswith("in/out/"):
            raise Violation(f"written outside of the output directory: {p}")
        left[p[len("in/out/"):]] = d
    if kept:
        eq(left.pop(kept, None), data, "copy of the original")
    if error is None and case["damage"][0] == "cut" and (kind in ("dds", "tga") or kind == "tex" and not case["src"][4]):
        full = build_source(kind, case["src"], game)
        expect(len(data) >= len(full), f"{kind} texture of {len(full)} bytes converted from its first {len(data)} bytes")
        ctx.label("whole")
    if error:
        eq(left, {}, f"left after a conversion error ({error})")
    else:
        for p, d in list(left.items()):
            expect(pred(p), f"unexpected output {p}")
            check_complete(p, d)
    ctx.label(f"{kind}-{'refused' if error else 'converted'}")
    ctx.nontrivial(error is not None and len(data) > 8)


SUBS = [
    Sub("export", cases, check, 1500, 12000, "a bad asset is refused next to a good one", shards=5),
    Sub("convert", convert_cases, check_convert, 4500, 60000, "an input longer than 8 bytes is refused", shards=3),
]
