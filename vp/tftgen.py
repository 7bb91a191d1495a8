"""Generators and models of TFT and Arena game data, with their string tables (nothing here imports the code under test)"""
import os
import struct
import xxhash
from hypothesis import strategies as st
from vp import bingen, rstgen, ref

H = ref.fnv1a
GAMES = [914, 917, 922, 923, 1007, 1008, 1304, 1305, 1314, 1403, 1404, 1414, 1415, 1501, 1502, 1510, 9999]
LANGS = ["en_us", "fr_fr", "ko_kr", "zh_cn", "vn_vn"]
CONST_MAP = 0xdf085b93
MANA_BASE = 0x726ee5cd


def path_hash(p):
    return xxhash.xxh64_intdigest(p.lower().encode())


def fbits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


class Entries:
    """Builds BIN entries from named fields"""

    def __init__(self, shuffle, junk):
        self.entries = []
        self.shuffle = shuffle
        self.junk = junk

    def fields(self, fields):
        """fields: [(name or hash, type, payload)]; unset ones are None"""
        out = [(H(n) if isinstance(n, str) else n, t, p) for n, t, p in (f for f in fields if f is not None)]
        if self.junk:
            out.insert(len(out) // 2, (H("mOtherField"), "U8", 7))
        if self.shuffle:
            k = self.shuffle % (len(out) or 1)
            out = out[k:] + out[:k]
        return out

    def struct(self, type, *fields):
        return (H(type), self.fields(fields))

    def add(self, type, path, *fields):
        self.entries.append(dict(type=H(type), path=path if isinstance(path, int) else H(path), fields=self.fields(fields)))

    def add_list(self, type, path, name, links):
        """Lists are the first field of their entry"""
        self.entries.append(dict(type=H(type), path=H(path), fields=[(H(name), "LIST", ("LINK", links))] + ([(H("mOtherField"), "U8", 7)] if self.junk else [])))

    def build(self, game):
        es = list(self.entries)
        if self.shuffle % 2:
            es.reverse()
        if self.junk:
            es.insert(len(es) // 2, dict(type=H("OtherData"), path=H("other/entry"), fields=[(H("mName"), "STRING", "other")]))
        return bingen.build_bin(dict(version=3 if self.junk else 2, patch=False, linked=["DATA/x.bin"], entries=es), game)


def opt(cond, *field):
    return tuple(field) if cond else None


# --- values

def floats():
    return st.sampled_from([0.0, 1.0, 2.5, 0.1, -3.0, 180.0, 540.0, 1e10, 0.30000001192092896, 100.0]).map(lambda x: struct.unpack("<f", struct.pack("<f", x))[0])


ICONS = ["ASSETS/Items/A.tex", "ASSETS/x/b.dds", "assets/C.png", "no_extension", "ASSETS/Kit.v2/Icon.TEX", "assets/a.b.dds", "ASSETS/x.tex/plain", "assets/A.B.C.DDS", "ASSETS/dds"]


@st.composite
def icons(draw):
    """Text, or hashed path (known or not)"""
    return (draw(st.sampled_from(["text", "text", "known", "unknown"])), draw(st.sampled_from(ICONS)))


def icon_field(name, icon, game):
    if icon is None:
        return None
    how, p = icon
    if how == "text" or game < 1023:
        return (name, "STRING", p)
    return (name, "PATH", path_hash(p if how == "known" else "unknown/" + p))


def icon_text(icon, game):
    how, p = icon
    if how == "text" or game < 1023:
        return p
    return p.lower() if how == "known" else f"{{{path_hash('unknown/' + p):016x}}}"


def known_paths():
    return {path_hash(p): p.lower() for p in ICONS}


EFFECTS = ["Armor", "AD", "HealthRegen", "{12345678}"]


@st.composite
def effects(draw):
    kind = draw(st.sampled_from(["none", "amounts", "constants", "empty-constants"]))
    names = draw(st.lists(st.sampled_from(EFFECTS[:3] + ["Other"]), max_size=3, unique=True))
    return dict(kind=kind, hashed=draw(st.booleans()), values=[(n, draw(floats()), draw(st.integers(0, 5)) > 0) for n in names] if kind in ("amounts", "constants") else [])


def effects_field(e, w):
    if e["kind"] == "none":
        return None
    if e["kind"] == "amounts":
        return ("effectAmounts", "LIST", ("EMBEDDED", [w.struct("TftEffectAmount", ("name", "HASH", H(n)) if e["hashed"] else ("name", "STRING", n),
                                                                opt(has, "value", "FLOAT", fbits(v))) for n, v, has in e["values"]]))
    fields = []
    if e["kind"] == "constants":
        fields = [(CONST_MAP, "MAP", ("HASH", "EMBEDDED", [(H(n), w.struct("GameCalc", opt(has, "mValue", "FLOAT", fbits(v)))) for n, v, has in e["values"]]))]
    return ("constants", "EMBEDDED", w.struct("Consts", *fields))


def hash_text(n, names):
    return n if n in names else f"{{{H(n):08x}}}"


def effects_model(e, names):
    """names: names in the hash list"""
    return {hash_text(n, names) if e["kind"] == "constants" or e["hashed"] else n: v if has else None for n, v, has in e["values"]}


# --- translations

def keys(kind):
    return [f"tft_{kind}_{x}" for x in ("A", "b", "Long Name", "d")]


ALL_KEYS = [k for kind in ("item", "itemdesc", "trait", "traitdesc", "champ", "ability", "abilitydesc") for k in keys(kind)]


@st.composite
def tables(draw, all_keys=ALL_KEYS, layouts=("game", "main", "old-rst", "txt", "txt-rst")):
    """String tables of several languages"""
    langs = draw(st.lists(st.sampled_from(LANGS), min_size=1, max_size=3, unique=True))
    # some languages may have no translation at all; a text may look like another key
    texts = st.one_of(st.sampled_from(["Épée", "x", "", 'say "hi" = a\\b', "한국어", "%i:scaleAD% <b>x</b>"]), st.sampled_from(all_keys), st.text(st.characters(codec="utf-8", exclude_characters="\0\r\n"), max_size=5))
    out = {}
    for l in langs:
        ks = draw(st.one_of(st.just(all_keys), st.lists(st.sampled_from(all_keys), max_size=8, unique=True)))
        out[l] = {k: f"{l} {k}" for k in ks} | draw(st.dictionaries(st.sampled_from(all_keys), texts, max_size=6))
    return dict(layout=draw(st.sampled_from(layouts)), rst=draw(st.sampled_from([2, 3, 4, 5])), texts=out, upper=draw(st.booleans()), bom=draw(st.booleans()))


def table_path(layout, lang, name):
    return {"game": f"{lang}/data/menu/en_us/{name}.stringtable", "main": f"{lang}/data/menu/en_us/main.stringtable", "old-rst": f"data/menu/main_{lang}.stringtable",
            "txt": f"data/menu/fontconfig_{lang}.txt", "txt-rst": f"data/menu/fontconfig_{lang}.txt"}[layout]


def table_bytes(t, lang, game):
    texts = t["texts"][lang]
    if t["layout"] == "txt":
        out = b"\xef\xbb\xbf" if t["bom"] else b""
        out += b'[FontConfig "x"]\nfontlib "fonts_latn.swf"\n\n'
        for k, v in texts.items():
            out += f'tr "{k}" = "{v}"\n'.encode()
        return out + b"map x\n"
    bits = rstgen.bits_for(t["rst"], game)
    return rstgen.build_rst(dict(version=t["rst"], font=None, trenc=False, layout=[1, 0], entries=[(rstgen.rst_hash(k.upper() if t["upper"] else k, bits, game), {"text": v.encode()}) for k, v in texts.items()]), game)[0]


def write_tables(root, t, game, name):
    for l in t["texts"]:
        p = os.path.join(root, table_path(t["layout"], l, name))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(table_bytes(t, l, game))


def translator(t, lang):
    """Text of a key"""
    texts = t["texts"][lang]
    if t["layout"] == "txt":
        return lambda k: texts.get(k, k)
    low = {k.lower(): v for k, v in texts.items()}
    return lambda k: low.get(k.lower(), k) if k is not None else None


# --- TFT

TRAIT_NAMES = ["TFT9_Void", "Set1_Assassin", "TFT_Template", "TFT9_TemplateTrait", "TFT9_Rogue"]
ITEM_NAMES = ["TFT_Item_BFSword", "TFT_Item_Null", "TFT_Item_Template", "TFT9_Augment_A", "TFT9_Augment_B", "TFT_Item_Zeal", "TFT_Consumable_Null"]
CHAMP_NAMES = ["TFT9_Ahri", "TFT9_Lux", "TFT_Template", "tft1_garen", "TFT9_Kaisa", "TFT9_Zed"]


def maybe(draw, s, p=3):
    """None one time out of p"""
    return None if draw(st.integers(0, p - 1)) == 0 else draw(s)


@st.composite
def trait_desc(draw, name):
    return dict(name=name, key=maybe(draw, st.sampled_from(keys("trait")), 8), desc=maybe(draw, st.sampled_from(keys("traitdesc")), 8), icon=draw(icons()), layout=draw(st.sampled_from(["m", "m", "", "", "none"])),
                sets=draw(st.lists(st.fixed_dictionaries(dict(min=st.sampled_from([None, 1, 2]), max=st.sampled_from([None, 0, 3, 8]), style=st.sampled_from([None, 0, 1, 3]), effects=effects())), max_size=3)),
                innate=draw(st.one_of(st.none(), st.lists(effects(), max_size=2))))


@st.composite
def item_desc(draw, name, items, traits):
    refs = st.lists(st.sampled_from(items), max_size=3) if items else st.just([])
    trefs = st.lists(st.sampled_from(traits), max_size=2) if traits else st.just([])
    return dict(name=name, id=draw(st.sampled_from([None, 0, 1, 77, 99])), key=maybe(draw, st.sampled_from(keys("item")), 8), desc=maybe(draw, st.sampled_from(keys("itemdesc")), 8), icon=draw(icons()),
                augment=draw(st.sampled_from([None, True, False])), unique=draw(st.sampled_from([None, True, False])), composition=maybe(draw, refs), associated=maybe(draw, trefs), incompatible=maybe(draw, trefs),
                effects=draw(effects()), tags=maybe(draw, st.lists(st.sampled_from(["TagA", "TagB", "{cafe}"]), max_size=2)), text_tags=draw(st.booleans()))


STATS = [("hp", "baseHPModifiable", "baseHP"), ("damage", "baseDamageModifiable", "BaseDamage"), ("armor", "baseArmorModifiable", "baseArmor"), ("magicResist", "baseMR", "baseSpellBlock"),
         ("attackSpeed", "attackSpeedModifiable", "attackSpeed"), ("range", "attackRangeModifiable", "attackRange")]


@st.composite
def champ_desc(draw, name, traits):
    spells = draw(st.lists(st.fixed_dictionaries(dict(
        script=st.sampled_from(["AhriSpell", "OtherSpell", "ahrispell2", None]), values=st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(["Dmg", "Heal"]), st.one_of(st.none(), st.lists(floats(), max_size=3))), max_size=2)),
        newnames=st.booleans(), newlist=st.booleans(), name=st.sampled_from([None, None] + keys("ability")), tooltip=st.sampled_from([None] + keys("abilitydesc")), client=st.booleans())), min_size=0, max_size=3))
    n = len(spells)
    return dict(name=name, case=draw(st.sampled_from(["same", "same", "upper", "lower"])), file=draw(st.sampled_from(["data", "data", "cdtb", "both", "none"] if draw(st.integers(0, 2)) == 0 else ["data", "cdtb"])),
                record=draw(st.sampled_from(["spells", "spells", "spellNames"] if draw(st.integers(0, 5)) else ["no-spell", "no-record"])), spells=spells,
                refs=draw(st.lists(st.integers(-1, n), min_size=1, max_size=3)),   # -1: null, n: not in the file
                spellname=draw(st.sampled_from(["Characters/X/Spells/AhriSpell", "AHRISPELL2", "Missing", "OtherSpell"])),
                traits=maybe(draw, st.lists(st.sampled_from(traits + ["TFT_Unknown"]), max_size=3, unique=True) if traits else st.just([])), linked=draw(st.booleans()),
                tier=draw(st.sampled_from([None, 1, 3, 5])), rarity=draw(st.sampled_from([None, 0, 1, 3, 4, 5, 6, 10, 11, 12])), role=draw(st.sampled_from([None, 0, 1])),
                mana=draw(st.sampled_from(["none", "struct", "struct-default", "plain", "default"])), manavalue=draw(floats()), initial=maybe(draw, floats()), stats={s: draw(st.tuples(st.sampled_from(["mod", "mod", "plain", "plain", "none"]), floats())) for s, _, _ in STATS},
                crit=maybe(draw, floats()), critchance=maybe(draw, floats()), character=maybe(draw, st.just("TFT_X"), 5), key=maybe(draw, st.sampled_from(keys("champ")), 8),
                splash=maybe(draw, icons()), oldicon=draw(st.sampled_from(ICONS)), tile=draw(icons()), square=draw(icons()), abilitykey=maybe(draw, st.sampled_from(keys("ability")), 2), abilitydesc=maybe(draw, st.sampled_from(keys("abilitydesc")), 2),
                abilityicon=maybe(draw, icons()), oldabilityicon=draw(st.sampled_from(ICONS)))


@st.composite
def tft_data(draw):
    game = draw(st.sampled_from(GAMES))
    few = draw(st.integers(0, 9)) > 0
    traits = draw(st.lists(st.sampled_from(TRAIT_NAMES), min_size=few, max_size=4, unique=True))
    items = draw(st.lists(st.sampled_from(ITEM_NAMES), min_size=2 * few, max_size=5, unique=True))
    champs = draw(st.lists(st.sampled_from(CHAMP_NAMES), min_size=few, max_size=4, unique=True))
    published = [i for i in items if "Template" not in i and i != "TFT_Item_Null"]
    usable = st.sampled_from(champs + ["TFT_NoShop"])
    charlists = draw(st.lists(st.lists(usable, min_size=few, max_size=4, unique=True), min_size=1, max_size=3))
    traitlists = draw(st.lists(st.lists(st.sampled_from(traits + ["TFT_Unknown"]), max_size=3, unique=True), min_size=1, max_size=2))
    itemlists = draw(st.lists(st.lists(st.sampled_from(items + ["TFT_Unknown"]), max_size=4), min_size=1, max_size=2))
    old = draw(st.integers(0, 7)) == 0
    sets = []
    if not old:
        for _ in range(draw(st.integers(1, 3))):
            cl = draw(st.lists(st.sampled_from([0, len(charlists) - 1, 0, -1]), min_size=few, max_size=3, unique=True))
            sets.append(dict(number=draw(st.sampled_from([1, 2, 9, 10, 1, 2, 9, 10, 11, None])), mutator=draw(st.sampled_from(["TFTSet9", None])), name=draw(st.sampled_from(["TFTSet9_Act2", None])), title=draw(st.sampled_from(["Set1", "Neon", "Gizmos", "é", "Set1", "Neon", "x", None])),
                             chars=cl, split=draw(st.integers(0, 3)), traits=maybe(draw, st.lists(st.sampled_from([0, len(traitlists) - 1, 0, -1]), max_size=2, unique=True), 10),
                             items=maybe(draw, st.lists(st.integers(-1, len(itemlists) - 1), max_size=2))))
    return dict(game=game, traits=[draw(trait_desc(t)) for t in traits], items=[draw(item_desc(i, published, traits)) for i in items], champs=[draw(champ_desc(c, traits)) for c in champs],
                charlists=charlists, traitlists=traitlists, itemlists=itemlists, sets=sets, shuffle=draw(st.integers(0, 7)), junk=draw(st.booleans()), characters=draw(st.sampled_from([0, 1, 2])),
                names=draw(st.lists(st.sampled_from(EFFECTS[:3] + ["TagA"]), unique=True, max_size=4)), typenames=draw(st.booleans()))


def respell(name, how):
    return {"same": name, "upper": name.upper(), "lower": name.lower()}[how]


def stat_struct(w, v):
    return w.struct("ModifiableFloat", ("BaseValue", "FLOAT", fbits(v)))


def write_tft(root, d):
    """Write BIN files"""
    game = d["game"]
    w = Entries(d["shuffle"], d["junk"])
    for t in d["traits"]:
        p = t["layout"]
        sets = [w.struct("TraitSet", opt(s["min"] is not None, p + "MinUnits", "U8", s["min"]), opt(s["max"] is not None, p + "MaxUnits", "U32", s["max"]),
                         opt(s["style"] is not None, p + "Style", "U8", s["style"]), effects_field(s["effects"], w)) for s in t["sets"]]
        w.add("TftTraitData", f"traits/{t['name']}", ("mName", "STRING", t["name"]), opt(t["key"] is not None, "mDisplayNameTra", "STRING", t["key"]), opt(t["desc"] is not None, "mDescriptionNameTra", "STRING", t["desc"]),
              icon_field("mIconPath", t["icon"], game), opt(p != "none", "mTraitSets" if p == "m" else "mConditionalTraitSets", "LIST", ("EMBEDDED", sets)),
              opt(t["innate"] is not None, "InnateTraitSets", "LIST", ("EMBEDDED", [w.struct("InnateTraitSet", effects_field(e, w)) for e in t["innate"] or []])))
    for i in d["items"]:
        links = lambda names, kind: ("LINK", [H(f"{kind}/{n}") for n in names or []])
        tags = ("STRING", i["tags"] or []) if i["text_tags"] else ("HASH", [H(x) for x in i["tags"] or []])
        w.add("TftItemData", f"items/{i['name']}", ("mName", "STRING", i["name"]), opt(i["id"] is not None, "mId", "S32", i["id"]), opt(i["key"] is not None, "mDisplayNameTra", "STRING", i["key"]),
              opt(i["desc"] is not None, "mDescriptionNameTra", "STRING", i["desc"]), icon_field("mIconPath", i["icon"], game), opt(i["augment"] is not None, "IsAugment", "BOOL", i["augment"]),
              opt(i["unique"] is not None, "mIsUnique", "BOOL", i["unique"]), opt(i["composition"] is not None, "mComposition", "LIST", links(i["composition"], "items")),
              opt(i["associated"] is not None, "AssociatedTraits", "LIST", links(i["associated"], "traits")), opt(i["incompatible"] is not None, "IncompatibleTraits", "LIST", links(i["incompatible"], "traits")),
              effects_field(i["effects"], w), opt(i["tags"] is not None, "ItemTags", "LIST", tags))
    chars = []
    for l in d["charlists"]:
        chars += [c for c in l if c not in chars]
    for n, c in enumerate(chars):
        # bin data is inconsistent about case
        w.add("Character" if (n + d["characters"]) % 2 else "TftCharacter", f"chars/{c}", ("name", "STRING", c.lower() if d["characters"] else c))
    for n, l in enumerate(d["charlists"]):
        w.add_list("MapCharacterList" if n % 2 else "TftCharacterList", f"charlist/{n}", "Characters", [H(f"chars/{c}") for c in l] + ([H("chars/nobody")] if d["characters"] == 2 else []))
    for n, l in enumerate(d["traitlists"]):
        w.add_list("TftTraitList", f"traitlist/{n}", "mTraits", [H(f"traits/{t}") for t in l])
    for n, l in enumerate(d["itemlists"]):
        w.add("TFTItemList", f"itemlist/{n}", ("mItems", "LIST", ("LINK", [H(f"items/{t}") for t in l])))
    for n in range(2):
        w.add("TFTCharacterRoleData", f"roles/{n}", ("name", "STRING", f"Role{n}"))
    for n, s in enumerate(d["sets"]):
        cl = [H(f"charlist/{i}") for i in s["chars"]]
        k = s["split"]
        title = [] if s["title"] is None else [("mValue", "STRING", s["title"])]
        w.add("TFTSetData", f"sets/{n}", opt(s["number"] is not None, "number", "U8", s["number"]), opt(s["mutator"] is not None, "Mutator", "STRING", s["mutator"]), opt(s["name"] is not None, "name", "STRING", s["name"]),
              opt(cl[:k], "characterLists", "LIST", ("LINK", cl[:k])), opt(cl[k:], "tftCharacterLists", "LIST", ("LINK", cl[k:])),
              opt(s["traits"] is not None, "TraitLists", "LIST", ("LINK", [H(f"traitlist/{i}") for i in s["traits"] or []])), opt(s["items"] is not None, "ItemLists", "LIST", ("LINK", [H(f"itemlist/{i}") for i in s["items"] or []])),
              ("ScriptData", "MAP", ("STRING", "STRUCT", [("Other", w.struct("V", ("mValue", "STRING", "other"))), ("SetName", w.struct("V", *title))])))
    for c in d["champs"]:
        w.add("TftShopData", f"shop/{c['name']}", ("mName", "STRING", respell(c["name"], c["case"])), opt(c["key"] is not None, "mDisplayNameTra", "STRING", c["key"]), opt(c["rarity"] is not None, "mRarity", "U8", c["rarity"]),
              icon_field("PcSplashPath", c["splash"], game) or ("mIconPath", "STRING", c["oldicon"]), icon_field("TeamPlannerPortraitPath", c["tile"], game), icon_field("SquareSplashPath", c["square"], game),
              opt(c["abilitykey"] is not None, "mAbilityNameTra", "STRING", c["abilitykey"]), opt(c["abilitydesc"] is not None, "mDescriptionTra", "STRING", c["abilitydesc"]),
              icon_field("AbilityIconPath", c["abilityicon"], game) or ("mPortraitIconPath", "STRING", c["oldabilityicon"]))
        write_champ(root, c, d)
    put(root, "data/maps/shipping/map22/map22.bin", w.build(game))


def put(root, path, data):
    p = os.path.join(root, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)


def write_champ(root, c, d):
    game = d["game"]
    w = Entries(d["shuffle"], d["junk"])
    name = c["name"].lower()
    if c["record"] != "no-record":
        links = [0 if r < 0 else H(f"spells/{r}") for r in c["refs"]]
        spells = {"spells": ("spells", "LIST", ("LINK", links)), "spellNames": ("spellNames", "LIST", ("STRING", [c["spellname"], "Spare"]))}.get(c["record"])
        tr = c["traits"] or []
        if c["linked"]:
            traits = ("LIST", ("EMBEDDED", [w.struct("TFTTraitContributionData", ("TraitData", "LINK", H(f"traits/{t}")), ("Amount", "U8", 1)) for t in tr]))
        else:
            traits = ("LIST", ("LINK", [H(f"traits/{t}") for t in tr]))
        mana = {"none": None, "struct": [(MANA_BASE, "EMBEDDED", stat_struct(w, c["manavalue"])), ("arBase", "FLOAT", fbits(7.0))], "struct-default": [(MANA_BASE, "EMBEDDED", w.struct("ModifiableFloat"))],
                "plain": [("arBase", "FLOAT", fbits(c["manavalue"]))], "default": []}[c["mana"]]
        stats = []
        for s, mod, plain in STATS:
            how, v = c["stats"][s]
            if how == "mod":
                stats.append((mod, "EMBEDDED", stat_struct(w, v)))
                stats.append((plain, "FLOAT", fbits(v + 1)))
            elif how == "plain":
                stats.append((plain, "FLOAT", fbits(v)))
        w.add("TFTCharacterRecord", f"records/{name}", spells, opt(c["traits"] is not None, "mLinkedTraits", *traits), opt(c["tier"] is not None, "tier", "U8", c["tier"]),
              opt(c["role"] is not None, "CharacterRole", "LINK", H(f"roles/{c['role']}")), opt(mana is not None, "primaryAbilityResource", "EMBEDDED", w.struct("AbilityResource", *(mana or []))),
              opt(c["initial"] is not None, "mInitialMana", "FLOAT", fbits(c["initial"] or 0)), *stats, opt(c["crit"] is not None, "critDamageMultiplier", "FLOAT", fbits(c["crit"] or 0)),
              opt(c["critchance"] is not None, "baseCritChance", "FLOAT", fbits(c["critchance"] or 0)), opt(c["character"] is not None, "mCharacterName", "STRING", c["character"]))
    for n, s in enumerate(c["spells"]):
        values = []
        for vn, vs in s["values"] or []:
            names = ("name", "values") if s["newnames"] else ("mName", "mValues")
            values.append(w.struct("SpellDataValue", (names[0], "STRING", vn), opt(vs is not None, names[1], "LIST", ("FLOAT", [fbits(x) for x in vs or []]))))
        keys = [opt(s["name"] is not None, "keyName", "STRING", s["name"]), opt(s["tooltip"] is not None, "keyTooltip", "STRING", s["tooltip"])]
        # the key list is a map from texts to texts, looked up by name
        lockeys = ("mLocKeys", "MAP", ("STRING", "STRING", [(f[0], f[2]) for f in keys if f]))
        client = ("mClientData", "EMBEDDED", w.struct("ClientData", ("mTooltipData", "EMBEDDED", w.struct("TooltipData", lockeys))))
        w.add("SpellObject", f"spells/{n}", opt(s["script"] is not None, "mScriptName", "STRING", s["script"]),
              ("mSpell", "EMBEDDED", w.struct("SpellData", opt(s["values"] is not None, "DataValues" if s["newlist"] else "mDataValues", "LIST", ("EMBEDDED", values)), client if s["client"] else None)))
    data = w.build(game)
    if c["file"] in ("cdtb", "both"):
        put(root, f"characters/{name}.cdtb.bin", data)
    if c["file"] == "data":
        put(root, f"data/characters/{name}/{name}.bin", data)
    elif c["file"] == "both":
        # an other version, not used
        put(root, f"data/characters/{name}/{name}.bin", Entries(0, False).build(game))


def champ_spell(c, shuffled):
    """Index of the main spell"""
    if c["record"] == "spells":
        refs = [r for r in c["refs"] if r >= 0]
        return refs[0] if refs and refs[0] < len(c["spells"]) else None
    want = c["spellname"].rsplit("/", 1)[-1].lower()
    order = list(range(len(c["spells"])))
    if shuffled % 2:
        order.reverse()
    return next((i for i in order if (c["spells"][i]["script"] or "").lower() == want), None)


def model_tft(d, tr):
    """Exported data with texts given by tr"""
    game, names = d["game"], d["names"]
    traits = {}
    for t in d["traits"]:
        if "Template" in t["name"]:
            continue
        base = {}
        for e in t["innate"] or []:
            base |= effects_model(e, names)
        traits[t["name"]] = dict(apiName=t["name"], name=tr(t["key"]), desc=tr(t["desc"]), icon=icon_text(t["icon"], game),
                                 effects=[dict(minUnits=s["min"], maxUnits=s["max"] or 25000, style=1 if s["style"] is None else s["style"], variables=base | effects_model(s["effects"], names)) for s in t["sets"]] if t["layout"] != "none" else [])
    champs = {}
    for c in d["champs"]:
        if c["name"].lower() == "tft_template" or c["file"] == "none" or c["record"] in ("no-record", "no-spell"):
            continue
        i = champ_spell(c, d["shuffle"])
        variables, key_name, key_tooltip = [], None, None
        if i is not None:
            s = c["spells"][i]
            variables = [dict(name=n, value=vs) for n, vs in s["values"] or []]
            if s["client"]:
                key_name, key_tooltip = s["name"], s["tooltip"]
        if c["tier"] is not None:
            cost = c["tier"]
        else:
            cost = (c["rarity"] or 0) + 1
            cost += cost // 6
        stats = {s: None if how == "none" else v for s, (how, v) in c["stats"].items()}
        stats["range"] = (stats["range"] or 0) // 180
        champs[c["name"]] = dict(apiName=respell(c["name"], c["case"]), characterName=c["character"], name=tr(c["key"]), cost=cost, icon=icon_text(c["splash"], game) if c["splash"] else c["oldicon"],
                                 tileIcon=icon_text(c["tile"], game), squareIcon=icon_text(c["square"], game), traits=[traits[t]["name"] for t in c["traits"] or [] if t in traits],
                                 role=None if c["role"] is None else f"Role{c['role']}",
                                 stats=dict(stats, mana={"none": 100, "struct": c["manavalue"], "struct-default": 100, "plain": c["manavalue"], "default": 100}[c["mana"]], initialMana=c["initial"] or 0, critMultiplier=c["crit"], critChance=c["critchance"]),
                                 ability=dict(name=tr(c["abilitykey"] or key_name), desc=tr(c["abilitydesc"] or key_tooltip), icon=icon_text(c["abilityicon"], game) if c["abilityicon"] else c["oldabilityicon"], variables=variables))
    items = []
    by_name = {i["name"]: i for i in d["items"]}
    for i in d["items"]:
        if "Template" in i["name"] or i["name"] == "TFT_Item_Null":
            continue
        comp = i["composition"] or []
        items.append({"id": i["id"], "name": tr(i["key"]), "apiName": i["name"], "desc": tr(i["desc"]), "icon": icon_text(i["icon"], game), "isAugment": bool(i["augment"]), "unique": bool(i["unique"]), "composition": comp,
                      "associatedTraits": i["associated"] or [], "incompatibleTraits": i["incompatible"] or [], "effects": effects_model(i["effects"], names), "tags": [x if i["text_tags"] else hash_text(x, names) for x in i["tags"] or []],
                      "from": None if i["id"] is None else [by_name[x]["id"] for x in comp]})
    sets = []
    for s in d["sets"]:
        if not s["chars"] or s["traits"] is None or s["number"] is None or s["title"] is None:
            continue
        members = [c for i in s["chars"] if i >= 0 for c in d["charlists"][i]]
        tlist = {t for i in s["traits"] if i >= 0 for t in d["traitlists"][i]}
        ilist = {t for i in s["items"] or [] if i >= 0 for t in d["itemlists"][i] if t in by_name}
        sets.append(dict(number=s["number"], mutator=s["mutator"] if s["mutator"] is not None else s["name"], name=s["title"], traits=[traits[t] for t in sorted(tlist) if t in traits], champions=[champs[c] for c in members if c in champs],
                         augments=sorted(t for t in ilist if by_name[t]["augment"]), items=sorted(t for t in ilist if not by_name[t]["augment"])))
    return dict(sets=sets, items=items, traits=traits, champs=champs)


def all_names(d):
    """Content of the hash lists"""
    return dict(hashes={H(n): n for n in d["names"]}, entries={}, paths=known_paths(),
                types={H(n): n for n in ("TftItemData", "TftTraitData", "Character", "TFTSetData", "TftShopData", "SpellObject", "AugmentData", "TFTCharacterRecord")} if d["typenames"] else {},
                fields={H(n): n for n in ("mName", "TraitData", "Characters", "name", "mSpellCalculations")} if d["typenames"] else {})


# --- Arena

ARENA_KEYS = [f"augment_{k}_{x}" for k in ("name", "desc", "tip") for x in ("A", "b", "c")]
ARENA_GAMES = [1314, 1315, 1324, 1401, 1403, 1404, 1414, 1415, 1501, 1502, 1510, 9999]
CALC_TYPES = ["GameCalculation", "EffectValueCalculationPart"]


@st.composite
def calc(draw, game, depth=2):
    """Arbitrary serialized fields of a calculation"""
    return draw(bingen.st_fields(game, depth, max_size=2))


@st.composite
def arena_data(draw):
    game = draw(st.sampled_from(ARENA_GAMES))
    spells = []
    for n in range(draw(st.sampled_from([1, 2, 3, 0]))):
        values = draw(st.lists(st.tuples(st.sampled_from(["Dmg", "Heal", "é %", "Cd"]), st.one_of(st.none(), st.lists(floats(), min_size=1, max_size=3)), st.booleans()), min_size=draw(st.sampled_from([1, 0])), max_size=3, unique_by=lambda v: v[0]))
        spells.append(dict(values=values, newlist=draw(st.booleans()), nolist=draw(st.integers(0, 5)) == 0, calcs=draw(st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(["TotalDamage", "Hidden"]), calc(game)), max_size=2, unique_by=lambda c: c[0])))))
    augments = []
    for n in range(draw(st.integers(1, 5))):
        augments.append(dict(id=draw(st.sampled_from([None, 0, 1, 42, 300])), api=f"Aug{n}", enabled=draw(st.sampled_from([None, None, True, True, False])), spell=draw(st.sampled_from([*range(len(spells)), 0, 0, None, -1])) if spells else draw(st.sampled_from([None, -1])),
                             keys=[maybe(draw, st.sampled_from(ARENA_KEYS), 8) for _ in range(3)], small=draw(icons()), large=draw(icons()), rarity=draw(st.sampled_from([None, 0, 1, 2, 4]))))
    return dict(game=game, spells=spells, augments=augments, shuffle=draw(st.integers(0, 5)), junk=draw(st.booleans()), names=draw(st.lists(st.sampled_from(["TotalDamage"]), max_size=1)), typenames=draw(st.booleans()))


def arena_bin(d):
    game = d["game"]
    w = Entries(d["shuffle"], d["junk"])
    for n, s in enumerate(d["spells"]):
        vals = []
        for name, v, new in s["values"]:
            names = ("name", "values") if new else ("mName", "mValues")
            vals.append(w.struct("SpellDataValue", (names[0], "STRING", name), opt(v is not None or new, names[1], "LIST", ("FLOAT", [fbits(x) for x in v or []]))))
        calcs = None if s["calcs"] is None else ("mSpellCalculations", "MAP", ("HASH", "STRUCT", [(H(c), (H(CALC_TYPES[0]), f)) for c, f in s["calcs"]]))
        w.add("SpellObject", f"spells/{n}", ("mSpell", "EMBEDDED", w.struct("SpellDataResource", None if s["nolist"] else ("DataValues" if s["newlist"] else "mDataValues", "LIST", ("EMBEDDED", vals)), calcs)))
    for a in d["augments"]:
        k = a["keys"]
        w.add("AugmentData", f"augments/{a['api']}", opt(a["id"] is not None, "AugmentPlatformId", "S32", a["id"]), ("AugmentNameId", "STRING", a["api"]), opt(a["enabled"] is not None, "enabled", "BOOL", a["enabled"]),
              opt(k[0] is not None, "NameTra", "STRING", k[0]), opt(k[1] is not None, "DescriptionTra", "STRING", k[1]), opt(k[2] is not None, "AugmentTooltipTra", "STRING", k[2]),
              icon_field("AugmentSmallIconPath", a["small"], game), icon_field("AugmentLargeIconPath", a["large"], game), opt(a["rarity"] is not None, "rarity", "U8", a["rarity"]),
              opt(a["spell"] is not None, "RootSpell", "LINK", 0 if a["spell"] == -1 else H(f"spells/{a['spell']}")))
    return w.build(game)


def published_icon(icon, game):
    p = icon_text(icon, game).lower()
    for ext in (".dds", ".tex"):
        if p.endswith(ext):
            return p[:-4] + ".png"
    return p


def model_arena(d, tr):
    game = d["game"]
    names = bingen.Names(dict(all_names(d)))
    out = []
    for a in d["augments"]:
        if a["enabled"] is False:
            continue
        values, calcs = {}, {}
        if a["spell"] is not None and a["spell"] >= 0:
            s = d["spells"][a["spell"]]
            for name, v, new in () if s["nolist"] else s["values"]:
                values[name] = (v or []) if new else v[0] if v else 0
            if s["calcs"] is not None:
                calcs = bingen.model_json("MAP", ("HASH", "STRUCT", [(H(c), (H(CALC_TYPES[0]), f)) for c, f in s["calcs"]]), names)
        out.append(dict(id=a["id"], apiName=a["api"], name=tr(a["keys"][0]), desc=tr(a["keys"][1]), tooltip=tr(a["keys"][2]), iconSmall=published_icon(a["small"], game), iconLarge=published_icon(a["large"], game),
                        rarity=a["rarity"] or 0, dataValues=values, calculations=calcs))
    return out
