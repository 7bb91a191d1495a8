"""C31 String tables are found in the newest layout, one per language"""
import os
from hypothesis import strategies as st
from vp import rstgen, ref
from vp.core import Sub, eq, expect, raises, short
from cdtb.tools import stringtable_paths
from cdtb.tftdata import load_translations

ASSUMPTIONS = ["text tables are UTF-8, with one `tr \"key\" = \"text\"` per line and no equal sign or quote in keys", "keys of a table are distinct"]

LANGS = ["en_us", "fr_fr", "ko_kr", "zh_cn", "ar_ae", "id_id"]


def table(layout, lang, game):
    return [f"{lang}/data/menu/en_us/{game}.stringtable", f"{lang}/data/menu/en_us/main.stringtable", f"data/menu/main_{lang}.stringtable", f"data/menu/fontconfig_{lang}.txt"][layout]


UNRELATED = ["data/menu/main_en_us.stringtable.json", "data/menu/fontconfig_fr_fr.txt.json", "data/menu/fontconfig_x.txt", "data/menu/main.stringtable", "data/menu/en_us/main.stringtable", "data/menu/en_us/lol.stringtable",
             "fr_fr/data/menu/en_us/main.stringtable.json", "fr_fr/data/menu/en_us/lol.stringtable.json", "de_de/data/menu/de_de/main.stringtable", "german/data/menu/en_us/lol.stringtable", "de_de/data/menu/main_de_de.stringtable",
             "data/menu/sub/main_de_de.stringtable", "de_de/menu/en_us/tft.stringtable", "xde_de/data/menu/en_us/tft.stringtable", "data/menu/xmain_de_de.stringtable", "data/menu/fontconfig_de_de.stringtable",
             "x/de_de/data/menu/en_us/main.stringtable", "data/menu/main_de_de.txt", "fr_fr/data/menu/en_us/lol_main.stringtable"]


@st.composite
def dir_cases(draw):
    present = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(LANGS), st.sampled_from(["lol", "tft"])), max_size=8))
    return dict(present=present, unrelated=draw(st.lists(st.sampled_from(UNRELATED), max_size=5, unique=True)), game=draw(st.sampled_from(["lol", "tft"])),
                base=draw(st.sampled_from(["in", "in", "a b/x", "data/menu", "en_us", "fr_fr/data/menu/en_us", "in[1]", "x*", "[ab]/?", "é", "main_ab_cd.d", "data/menu/main_ab_cd.stringtable", "data/menu/fontconfig_ab_cd.txt", "ab_cd/data/menu/en_us/lol.stringtable", "x_ab_cd"])), slash=draw(st.sampled_from(["", "", "/"])), relative=draw(st.booleans()))


def check_dir(case, ctx):
    root = ctx.tmp()
    base = f"{root}/{case['base']}"
    os.makedirs(base)
    found = {}
    for layout, lang, game in case["present"]:
        ref.write_tree(base, {table(layout, lang, game): b"RST"})
        if layout or game == case["game"]:
            found.setdefault(layout, set()).add(lang)
    for p in case["unrelated"]:
        if not os.path.exists(f"{base}/{p}") and not any(os.path.isfile(f"{base}/{p}"[:i]) for i, c in enumerate(f"{base}/{p}") if c == "/"):
            ref.write_tree(base, {p: b"x"})
    # tables of neighbouring directories are not looked at
    ref.write_tree(root, {"other/data/menu/main_en_us.stringtable": b"x", "a/en_us/data/menu/en_us/lol.stringtable": b"x", "x/en_us/data/menu/en_us/tft.stringtable": b"x"})
    arg = base + case["slash"]
    cwd = os.getcwd()
    try:
        if case["relative"]:
            os.chdir(root)
            arg = case["base"] + case["slash"]
        if not found:
            raises(RuntimeError, lambda: stringtable_paths(arg, case["game"]), "directory without string table")
            ctx.label("none")
            return
        got = stringtable_paths(arg, case["game"])
        layout = min(found)
        eq({l: os.path.abspath(p) for l, p in got.items()}, {l: f"{base}/{table(layout, l, case['game'])}" for l in found[layout]}, f"tables of layout {layout}")
        for p in got.values():
            expect(isinstance(p, str) and os.path.isfile(p), f"{p!r} is not the path of a file")
    finally:
        os.chdir(cwd)
    ctx.label(f"layout{layout}")
    ctx.nontrivial(len(found) > 1)


# --- content

KEYS = ["game_item_displayname_1001", "a", "Key With Spaces", "tft_x", "é", "UPPER"]
TEXTS = st.one_of(st.sampled_from(["", "text", "a = b", 'say "hi"', "é 한국어", "trailing ", " leading", '"', '" = "', "%i:x% <br>", 'tr "a" = "b"', "\\", "\\n", "'"]),
                  st.text(st.characters(codec="utf-8", exclude_characters="\0\r\n"), max_size=8))
OTHER_LINES = ['[FontConfig "French"]', 'fontlib "fonts_latn.swf"', 'map "$NormalFont" = "Sansation" Normal', "", "# comment", ' tr "indented" = "no"', "// tr"]


@st.composite
def content_cases(draw):
    kind = draw(st.sampled_from(["text", "text", "rst"]))
    game = draw(st.sampled_from([800, 914, 1403, 1414, 1415, 1501, 1502, 9999]))
    keys = draw(st.lists(st.sampled_from(KEYS), max_size=6, unique=True))
    return dict(kind=kind, game=game, texts=[(k, draw(TEXTS)) for k in keys], eol=draw(st.sampled_from(["\n", "\n", "\r\n"])), last=draw(st.booleans()), header=draw(st.integers(0, 3)) > 0, bom=draw(st.booleans()),
                others=draw(st.lists(st.tuples(st.integers(0, 6), st.sampled_from(OTHER_LINES)), max_size=4)), version=draw(st.sampled_from([2, 3, 4, 5])), font=draw(st.sampled_from([None, "config"])))


def check_content(case, ctx):
    path = ctx.tmp() + "/table"
    game = case["game"]
    if case["kind"] == "text":
        lines = [f'tr "{k}" = "{v}"' for k, v in case["texts"]]
        for pos, l in case["others"]:
            lines.insert(min(pos, len(lines)), l)
        if case["header"]:
            lines.insert(0, "[FontConfig]")
        data = case["eol"].join(lines) + (case["eol"] if case["last"] else "")
        data = (b"\xef\xbb\xbf" if case["bom"] else b"") + data.encode()
    else:
        bits = rstgen.bits_for(case["version"], game)
        data = rstgen.build_rst(dict(version=case["version"], font=case["font"], trenc=False, layout=[2, 0, 1], entries=[(rstgen.rst_hash(k, bits, game), {"text": v.encode()}) for k, v in case["texts"]]), game)[0]
    with open(path, "wb") as f:
        f.write(data)
    try:
        got = load_translations(path, game)
    except Exception as e:
        expect(False, f"loading failed: {type(e).__name__}: {e}")
    for k, v in case["texts"]:
        expect(k in got, f"key {k!r} not found")
        eq(got[k], v, f"text of {k!r}")
        eq(got.get(k, "default"), v, f"text of {k!r}")
    for k in KEYS + ["indented", "", "missing"]:
        if k not in dict(case["texts"]):
            expect(k not in got, f"unexpected key {k!r}")
            eq(got.get(k, "default"), "default", f"text of {k!r}")
    eq(len(got if case["kind"] == "text" else got.entries), len(case["texts"]), "number of texts")
    ctx.label(case["kind"])
    ctx.nontrivial(len(case["texts"]) > 1)


SUBS = [
    Sub("layouts", dir_cases, check_dir, 9000, 100000, "tables of at least two layouts are present", shards=8),
    Sub("content", content_cases, check_content, 9000, 200000, "at least two texts", shards=4),
]
