"""C18 Each substitution method finds every path it promises"""
import contextlib
from unittest import mock
from hypothesis import strategies as st
from vp import guessgen as G, guessref as R
from vp.cli import Stream
from vp.core import Sub, eq, expect, short
from cdtb.hashes import LcuHashGuesser, GameHashGuesser, build_wordlist
import requests

ASSUMPTIONS = ["skin number substitution is checked on paths whose skin numbers are all the same", "directories have no dot in their names",
               "character names are not part of the fixed directory names"]
HEX = "0123456789abcdef" * 2

EXTRA_LCU = [f"{G.BASE}v1/x/{HEX}.png", f"{G.BASE}v1/champion-icons/12.png", f"{G.BASE}v1/champions/-1.json", f"{G.BASE}v1/champions/1.json", f"{G.BASE}data/items/icons2d/12_fire.png", f"{G.BASE}data/items/icons2d/fire_12.png",
             f"{G.BASE}data/characters/ahri/fire_07.png", "plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/chest_1.png", "plugins/rcp-fe-lol-x/global/default/100%_fire-12.js",
             "plugins/rcp-fe-lol-x/br/fr_fr/a_b-c.d_e.png", f"{G.BASE}v1/champions/12/x_1234.json", f"plugins/rcp-fe-lol-x/{HEX}.1.png"]
EXTRA_GAME = ["data/100%/fire_12.bin", "assets/characters/ahri/skins/skin1/100%.dds", "data/vo/fire.bin", "sfx/a_b.bin", "data/x_skins_skin1.bin", "assets/shaders/generated/shaders/x.ps_2_0", "assets/shaders/generated/shaders/y.vs-dx11_100",
              "assets/shaders/generated/shaders/z.ps.dx9", "characters/kayn_a", "characters/x.y", "assets/characters/ahri/skins/skin12/ahri.skl", "assets/characters/ahri/skins/skin3/x.dds", "data/characters/kayn_a/kayn_a.bin",
              "assets/sounds/vo_en_us.wpk", "assets/en_us/vo_en_us.wpk", "data/fire_1234_12.bin", "x.fire.bin", "x.y.fire.bin", "assets/characters/sightward/skins/skin1/x.dds"]


@st.composite
def known_lists(draw, kind):
    p = st.one_of(G.lcu_paths(), G.lcu_paths(), st.sampled_from(EXTRA_LCU)) if kind == "lcu" else st.one_of(G.game_paths(), G.game_paths(), st.sampled_from(EXTRA_GAME))
    return draw(st.lists(p, min_size=1, max_size=7, unique=True))


SKIN = st.builds(lambda a, c, s, f: f"{a}/characters/{c}/skins/{s}/{f.replace('SKIN', s)}", st.sampled_from(["assets", "data", "x/y"]), st.sampled_from(G.CHARS), st.sampled_from(G.SKINS + ["skin7", "skin30"]),
                 st.sampled_from(["x.dds", "ahri.skn", "p/fire_1.bin", "kayn_a.x.skl", "100%.tex", "skinny.bin", "base.bin", "ahri_SKIN.dds", "SKIN/x_SKIN_cm.tex"]))
LANG = st.builds(lambda a, l, f: f"{a}/{l}/{f}.wpk", st.sampled_from(["assets/vo", "data/menu"]), st.sampled_from(G.LANGS[1:] + ["ar_ae", "xx_yy"]), st.sampled_from(["a", "b_1", "en_us_x"]))
SHADER = st.builds(lambda n, e, v: f"assets/shaders/{n}{e}{v}", st.sampled_from(["x", "a.b", "vs"]), st.sampled_from([".ps_2_0", ".vs_3_0", ".ps", ".vs", ".ps_4_0", ".psx"]), st.sampled_from(["", ".dx11", "-metal_100", ".glsl_19900", ".dx9.txt"]))
SUFFIX = st.builds(lambda n, s, e: f"data/{n}{s}{e}", st.sampled_from(["x", "y", "a.b"]), st.sampled_from(["", ".fire", ".ice", ".100%"]), st.sampled_from([".bin", ".dds", ".1"]))
SPECIFIC = {"substitute_skin_numbers": SKIN, "substitute_character": SKIN, "guess_skin_groups_bin": SKIN, "guess_characters_files": SKIN, "substitute_lang": LANG, "guess_shader_variants": SHADER,
            "substitute_suffixes": SUFFIX, "substitute_numbers": st.sampled_from(EXTRA_GAME + ["data/a1_22.33.bin", "x/12.dds", "x/1234/y.dds", "x/007a08.bin"])}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["lcu", "game"]))
    method = draw(st.sampled_from(R.LCU_METHODS if kind == "lcu" else R.GAME_METHODS))
    args = {}
    if method == "substitute_numbers":
        if draw(st.booleans()):
            args["nmax"] = draw(st.sampled_from([1, 2, 10, 11, 100, 1000]))
        if draw(st.integers(0, 2)):
            args["digits"] = draw(st.sampled_from([True, 1, 2, 3]))
    elif method == "substitute_basename_words" and kind == "lcu":
        if draw(st.booleans()):
            args["words"] = draw(st.lists(st.sampled_from(G.WORDS + ["new", "a.b", "1"]), min_size=1, max_size=4, unique=True))
        args["nold"], args["nnew"] = draw(st.sampled_from([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)]))
        if "words" not in args and args["nnew"] > 2:
            args["nnew"] = 1
        if draw(st.integers(0, 2)) == 0:
            args["plugin"] = draw(st.sampled_from(G.PLUGINS))
        if draw(st.integers(0, 2)) == 0:
            args["fileext"] = draw(st.sampled_from([".png", ".js", "map"]))
    elif method == "check_basenames":
        args["names"] = draw(st.lists(G.basenames(G.LCU_EXTS), min_size=1, max_size=3))
    elif method == "check_basename_prefixes" and draw(st.booleans()):
        args["prefixes"] = draw(st.lists(st.sampled_from(["2x_", "x", "hq-"]), min_size=1, max_size=2))
    elif method == "guess_characters_files" and draw(st.booleans()):
        args["chars"] = draw(st.lists(st.sampled_from(["ahri", "petx", "sightward", "new_c"]), min_size=1, max_size=2))
    lcu, game = draw(known_lists("lcu")), draw(known_lists("game"))
    if kind == "game" and method in SPECIFIC:
        game = list(dict.fromkeys(draw(st.lists(SPECIFIC[method], min_size=1, max_size=6)) + game[:2]))
    elif method == "guess_from_lcu_hashes":
        lcu = lcu[:2] + [G.BASE + x for x in draw(st.lists(st.builds(lambda a, b, c: a + b + c, st.sampled_from(["assets/", "data/", "v1/", "assets/x/"]), st.sampled_from(["a", "b.c", "png"]), st.sampled_from([".png", ".jpg", ".json", ".js"])), min_size=1, max_size=4))]
        lcu = list(dict.fromkeys(lcu))
    elif method == "substitute_numbers" and draw(st.booleans()):
        lcu = list(dict.fromkeys(draw(st.lists(st.sampled_from(EXTRA_LCU + [G.BASE + "v1/1_22.33.png", G.BASE + "v1/007a08.json", "plugins/x/1234.js"]), min_size=1, max_size=4)) + lcu[:2]))
    elif method == "substitute_plugin":
        lcu = list(dict.fromkeys(lcu + [f"plugins/{draw(st.sampled_from(['new', 'a.b']))}/z.js"]))
    return dict(kind=kind, method=method, args=args, lcu=lcu, game=game,
                picks=draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=12)), toc=draw(st.booleans()))


def run(f, what):
    try:
        with contextlib.redirect_stdout(Stream()), contextlib.redirect_stderr(Stream()):
            return f()
    except Exception as e:
        expect(False, f"{what} failed: {type(e).__name__}: {e}")


def check(case, ctx):
    kind, method, args = case["kind"], case["method"], case["args"]
    G.set_lists(case["lcu"], case["game"], case["toc"])
    toc = ["data/wad.subchunktoc"] if case["toc"] else []
    lcu, game = case["lcu"] + toc, case["game"] + toc
    known = lcu if kind == "lcu" else game
    chosen = R.pick(R.targets(kind, method, args, lcu, game), known, case["picks"])
    decoys = {12345, 2 ** 64 - 1}
    g = (LcuHashGuesser if kind == "lcu" else GameHashGuesser)({G.xxh(p) for p in chosen} | decoys)
    run(lambda: getattr(g, method)(**args), f"{method}({args})")
    missed = [p for p in chosen if g.known.get(G.xxh(p)) != p]
    expect(not missed, lambda: f"{method}({args}) did not find {missed[:3]} from {known}")
    eq(set(g.unknown), decoys, f"hashes still unknown after {method}")
    eq(set(g.known.values()), set(known) | set(chosen), f"known paths after {method}")
    ctx.label(f"{kind}:{method}" + ("" if chosen else ":none"))
    ctx.nontrivial(chosen)


# --- lists

@st.composite
def list_cases(draw):
    kind = draw(st.sampled_from(["lcu", "game"]))
    return dict(kind=kind, known=draw(known_lists(kind)), later=draw(known_lists(kind)))


def check_lists(case, ctx):
    kind, known = case["kind"], case["known"]
    G.set_lists(known if kind == "lcu" else [], known if kind == "game" else [])
    all_known = known + ["data/wad.subchunktoc"]
    later = [p for p in case["later"] if p not in all_known]
    g = (LcuHashGuesser if kind == "lcu" else GameHashGuesser)({G.xxh(p) for p in later})
    for step in range(2):
        words = list(g.build_wordlist())
        eq(words, sorted(R.lcu_words(all_known) if kind == "lcu" else R.words_of(all_known)), "word list")
        eq(list(build_wordlist(all_known)), sorted(R.words_of(all_known)), "build_wordlist")
        eq({d for d in g.directory_list(cached=False) if d}, R.directories(all_known), "directory list")
        got = list(g.directory_list())
        eq(len(got), len(set(got)), "duplicates in directory list")
        if kind == "game":
            eq(list(g.get_characters()), sorted(R.characters(all_known)), "characters")
        if step == 0:
            run(lambda: g.check_iter(later), "check_iter")
            all_known = all_known + later
    ctx.label(kind)
    ctx.nontrivial(len(all_known) > 3)


# --- chroma groups, from the published skin list

@st.composite
def chroma_cases(draw):
    chars = draw(st.lists(st.sampled_from(["ahri", "kayn_a", "lux"]), min_size=1, max_size=2, unique=True))
    skins = {}
    cid = 100
    for c in chars:
        cid += 1
        ids = draw(st.lists(st.integers(0, 30), min_size=1, max_size=6, unique=True))
        groups, i = [], 0
        while i < len(ids):
            n = draw(st.integers(1, 3))
            groups.append(ids[i:i + n])
            i += n
        skins[c] = (cid, groups[:4])
    return dict(skins=skins, picks=draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=8)))


def check_chromas(case, ctx):
    data, targets = {}, set()
    for c, (cid, groups) in case["skins"].items():
        for ids in groups:
            d = dict(id=cid * 1000 + ids[0], loadScreenPath=f"/lol-game-data/assets/ASSETS/Characters/{c.title()}/Skins/x.jpg")
            if len(ids) > 1:
                d["chromas"] = [dict(id=cid * 1000 + i) for i in ids[1:]]
            elif cid % 2:
                d["chromas"] = []
            data[str(d["id"])] = d
        blocks = [[f"skin{i}" for i in ids] for ids in groups] + [["root"]]
        for mask in range(1, 2 ** len(blocks)):
            names = sorted(f"_skins_{n}" for k, b in enumerate(blocks) if mask >> k & 1 for n in b)
            targets.add(f"data/{c}{''.join(names)}.bin")
    G.set_lists([], ["x"])
    chosen = R.pick(targets, [], case["picks"])
    g = GameHashGuesser({G.xxh(p) for p in chosen} | {7})
    response = mock.Mock(status_code=200)
    response.json.return_value = data
    with mock.patch.object(requests, "get", lambda url, **kw: response):
        run(g.guess_skin_groups_bin_using_chromas, "guess_skin_groups_bin_using_chromas")
    missed = [p for p in chosen if g.known.get(G.xxh(p)) != p]
    expect(not missed, lambda: f"skin groups not found: {missed[:3]}, skins {case['skins']}")
    ctx.nontrivial(len(chosen) > 1)


SUBS = [
    Sub("substitution", cases, check, 12000, 150000, "at least one unknown path is derivable by the method", shards=8),
    Sub("lists", list_cases, check_lists, 2000, 20000, "more than three known paths"),
    Sub("chromas", chroma_cases, check_chromas, 600, 5000, "at least two planted paths"),
]
