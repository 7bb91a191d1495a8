"""What each guessing method promises to find: derived paths, described without regular expressions on formats.

targets(kind, method, args, lcu, game) -> set of paths (they may include known ones)
"""
import itertools
from vp.guessgen import BASE

ALL_REGIONS = ("br cn eun eune euw garena2 garena3 id jp kr la la1 la2 lan las me1 na oc oc1 oce pbe ph ph2 ru sg sg2 tencent th th2 tr tw tw2 vn vn2").split()
ALL_LANGS = ("ar_ae ar_eg cs_cz de_de el_gr en_au en_gb en_ph en_pl en_sg en_us es_ar es_es es_mx fr_fr hu_hu id_id it_it ja_jp ko_kr ms_my pl_pl pt_br ro_ro ru_ru th_th tr_tr vi_vn vn_vn "
             "zh_cn zh_my zh_tw").split()
SHADER_VARIANTS = [".dx11", ".dx9", ".dx9sm3", ".glsl", ".metal", "-dx11", "-metal"]


def split(path):
    d, s, base = path.rpartition("/")
    return d + s, base


def zone(base):
    """Length of the part of a file name before its extension (0: no extension)"""
    i = base.rfind(".")
    return i if i >= 0 and i + 1 < len(base) else 0


def runs(base, end, inside):
    """[(start, end)] of maximal runs of characters satisfying `inside` within base[:end]"""
    out, start = [], None
    for i, c in enumerate(base[:end] + "\0"):
        ok = i < end and inside(c)
        if ok and start is None:
            start = i
        elif not ok and start is not None:
            out.append((start, i))
            start = None
    return out


def word_runs(base):
    return runs(base, zone(base), lambda c: c not in "_.-")


def number_runs(base):
    return runs(base, zone(base), lambda c: c in "0123456789")


def words_of(paths):
    out = set()
    for p in paths:
        for c in "/_.":
            p = p.replace(c, "-")
        for w in p.split("-")[:-1]:
            if not (len(w) >= 3 and all(c in "0123456789" for c in w)):
                out.add(w)
    return out


def has_hex_name(p):
    """A 32-digit file name"""
    for part in p.split("/")[1:]:
        if len(part) > 32 and part[32] == "." and all(c in "0123456789abcdef" for c in part[:32]):
            return True
    return False


def lcu_words(paths):
    return words_of(p for p in paths if not p.startswith(BASE + "data/characters/") and not has_hex_name(p))


def directories(paths):
    out = set()
    for p in paths:
        parts = p.split("/")[:-1]
        out.update("/".join(parts[:i]) for i in range(1, len(parts) + 1))
    return out


def characters(paths):
    out = set()
    for p in paths:
        parts = p.split("/")
        if parts[0] in ("assets", "data"):
            parts = parts[1:]
        if len(parts) >= 2 and parts[0] == "characters" and parts[1] and "." not in parts[1]:
            out.add(parts[1])
    return out


def t_numbers(paths, nmax, digits):
    out = set()
    if digits is True:
        digits = len(str(nmax - 1))
    for p in paths:
        d, base = split(p)
        for a, b in number_runs(base):
            if digits is None:
                new = (str(n) for n in range(nmax))
            elif b - a == digits:
                new = (str(n).rjust(digits, "0") for n in range(nmax))
            else:
                continue
            out.update(d + base[:a] + n + base[b:] for n in new)
    return out


def lcu_numbers_excluded(p):
    if has_hex_name(p):
        return True
    if p.startswith(BASE + "data/characters/") or p.startswith(BASE + "assets/characters/"):
        return True
    if p.startswith(BASE + "data/items/icons2d/"):
        rest = p[len(BASE + "data/items/icons2d/"):]
        n = len(rest) - len(rest.lstrip("0123456789"))
        if n and rest[n:n + 1] == "_":
            return True
    parts = p.split("/")
    if parts[:2] == ["plugins", "rcp-be-lol-game-data"] and len(parts) > 5:
        rest = "/".join(parts[4:])
        return rest.startswith("v1/champion-") or rest.startswith("v1/champions/-1.json")
    return False


def t_words(paths, words, nold, nnew):
    out = set()
    for p in paths:
        d, base = split(p)
        w = word_runs(base)
        for i in range(len(w) - nold + 1):
            if any(base[w[j][1]:w[j + 1][0]] not in ("-", "_") for j in range(i, i + nold - 1)):
                continue
            for sep in "-_":
                for new in itertools.product(words, repeat=nnew):
                    out.add(d + base[:w[i][0]] + sep.join(new) + base[w[i + nold - 1][1]:])
    return out


def t_add_word(paths, words):
    out = set()
    for p in paths:
        d, base = split(p)
        for a, b in word_runs(base):
            for w in words:
                for sep in "-_":
                    out.add(d + base[:a] + w + sep + base[a:])
                    out.add(d + base[:b] + sep + w + base[b:])
    return out


def extension(p):
    d, base = split(p)
    i = base.rfind(".")
    return base[i:] if i > 0 else ""


def occurrences(p, word):
    return p.count(word)


def skin_marks(p):
    """[(start, end)] of 'base' and 'skin<number>' in a path"""
    out, i = [], 0
    while i < len(p):
        if p.startswith("base", i):
            out.append((i, i + 4))
            i += 4
        elif p.startswith("skin", i) and p[i + 4:i + 5].isdigit():
            j = i + 4
            while j < len(p) and p[j].isdigit():
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def skin_of(p):
    """(character, skin) of a path in a skin directory"""
    parts = p.split("/")
    for i in range(1, len(parts) - 4):
        if parts[i] == "characters" and parts[i + 1] and parts[i + 2] == "skins":
            s = parts[i + 3]
            if s == "base" or (s[:4] == "skin" and s[4:].isdigit()):
                return parts[i + 1], s
    return None


def t_skins(paths):
    chars = {}
    for p in paths:
        s = skin_of(p)
        if s and s[0] != "sightward":
            chars.setdefault(s[0], set()).add(s[1])
    out = set()
    for p in paths:
        s = skin_of(p)
        marks = skin_marks(p)
        # the same number everywhere
        if s and s[0] in chars and all(p[a:b] == s[1] for a, b in marks):
            for skin in chars[s[0]]:
                q = p
                for a, b in reversed(marks):
                    q = q[:a] + skin + q[b:]
                out.add(q)
    return out


def suffix_parts(p):
    d, base = split(p)
    i = base.rfind(".")
    if i < 0:
        return None
    j = base.rfind(".", 0, i)
    if j < 0:
        return d + base[:i], "", base[i:]
    return d + base[:j], base[j:i], base[i:]


def t_suffixes(paths):
    parts = [x for x in map(suffix_parts, paths) if x]
    suffixes = {""} | {x[1] for x in parts}
    return {a + s + c for a, _, c in parts for s in suffixes}


def t_lang(paths):
    out = set()
    for p in paths:
        langs = {l for l in ALL_LANGS if l in p}
        if len(langs) == 1:
            l0 = langs.pop()
            out.update(p.replace(l0, l) for l in ALL_LANGS)
    return out


def t_skin_groups(paths):
    chars = {}
    for p in paths:
        parts = p.split("/")
        if len(parts) > 5 and parts[:2] == ["assets", "characters"] and parts[3] == "skins" and parts[4][:4] == "skin" and parts[4][4:].isdigit() and parts[2] != "sightward":
            chars.setdefault(parts[2], {0}).add(int(parts[4][4:]))
    out = set()
    for c, skins in chars.items():
        for n in range(1, len(skins) + 1):
            for group in itertools.combinations(skins, n):
                out.add(f"data/{c}" + "".join(sorted(f"_skins_skin{i}" for i in group)) + ".bin")
    return out


def t_characters_files(chars):
    out = set()
    for c in chars:
        out.update([f"characters/{c}", f"data/characters/{c}/skins/root.bin", f"data/characters/{c}/tiers/root.bin", f"data/characters/{c}/skins/base/{c}_tx_cm.dds"])
        out.update(f"data/characters/{c}/skins/base/{c}.{x}" for x in ("skl", "skn"))
        out.update(f"data/characters/{c}/{c}.{x}" for x in ("bin", "ddf"))
        out.update(f"{a}/characters/{c}/hud/{c}_{x}.dds" for a in ("assets", "data") for x in ("circle", "square"))
        for i in range(500 if c == "sightward" else 200):
            out.add(f"data/characters/{c}/skins/skin{i}.bin")
            out.add(f"data/characters/{c}/animations/skin{i}.bin")
        if c.startswith("pet"):
            out.update(f"data/characters/{c}/tiers/tier{i}.bin" for i in range(10))
    return out


def shader_base(p):
    """Path of a shader without its variant"""
    best = None
    for i in range(len(p)):
        if p[i:i + 3] in (".ps", ".vs"):
            rest = p[i + 3:]
            if rest[:4] in ("_2_0", "_3_0"):
                best = p[:i + 7]
            elif rest == "" or rest[0] in ".-":
                best = p[:i + 3]
    return best


def t_shaders(paths):
    out = set()
    for b in {shader_base(p) for p in paths} - {None}:
        for v in SHADER_VARIANTS:
            out.add(b + v)
            out.update(f"{b}{v}_{n}" for n in range(0, 20000, 100))
    return out


def t_region_lang(paths):
    out = set()
    for p in paths:
        parts = p.split("/", 4)
        if parts[0] == "plugins" and len(parts) == 5 and all(parts[1:4]):
            out.update(f"plugins/{parts[1]}/{r}/{l}/{parts[4]}" for r in ALL_REGIONS + ["global"] for l in ALL_LANGS + ["default"])
    return out


def t_plugin(paths):
    split3 = [p.split("/", 2) for p in paths]
    split3 = [x for x in split3 if x[0] == "plugins" and len(x) == 3 and x[1]]
    return {f"plugins/{n}/{x[2]}" for x in split3 for n in {y[1] for y in split3}}


def t_patterns(paths):
    out = set()
    perks = range(8000, 8600, 100)
    root = "plugins/rcp-fe-lol-perks/global/default/images"
    for i in perks:
        out.update(f"{root}/inventory-card/{i}/p{i}_s{j}_k{k}.jpg" for j in [0, *perks] for k in [0, i, i + 1, i + 50, i + 99])
        out.update(f"{root}/construct/{i}/{x}" for x in ["environment.jpg", "construct.png", f"keystones/{i}.png", f"keystones/{i + 99}.png", "second/8000.png", "second/8500.png"])
    s = "plugins/rcp-be-sanitizer/global/default/"
    for l in ALL_LANGS:
        a, b = l.split("_")
        for n in range(5):
            for act in ("filter", "unfilter", "whitelist"):
                out.update(f"{s}{n}.{act}{x}.csv" for x in ("", f".language.{a}", f".country.{b}", f".locale.{l}"))
        for x in ("allowedchars", "breakingchars", "projectedchars", "projectedchars1337", "punctuationchars", "variantaliases"):
            out.update([f"{s}{x}.locale.{l}.txt", f"{s}{x}.language.{a}.txt"])
    out.update(f"{s}{n}.{act}.region.{r}.csv" for n in range(5) for act in ("filter", "unfilter", "whitelist") for r in ALL_REGIONS)
    loot = "plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/"
    out.update(p[:-4] + "_splash.png" for p in paths if p.startswith(loot) and p.endswith(".png") and p.count(".png") == 1)
    return out


def targets(kind, method, args, lcu, game):
    paths = lcu if kind == "lcu" else game
    words = args.get("words")
    if words is None:
        words = lcu_words(paths) if kind == "lcu" else words_of(paths)
    if method == "substitute_numbers":
        if kind == "lcu":
            paths = [p for p in paths if not lcu_numbers_excluded(p)]
        return t_numbers(paths, args.get("nmax", 10000 if kind == "lcu" else 100), args.get("digits"))
    if method == "substitute_basename_words":
        if args.get("plugin"):
            paths = [p for p in paths if p.startswith("plugins/" + args["plugin"] + "/")]
        if args.get("fileext"):
            paths = [p for p in paths if p.endswith(args["fileext"])]
        return t_words(paths, words, args.get("nold", 1), args.get("nnew", 1))
    if method == "add_basename_word":
        if kind == "game":
            paths = [p for p in paths if not any(x in p for x in ("assets/characters/", "vo/", "sfx/", "skins_skin"))]
        return t_add_word(paths, words)
    if method == "substitute_basenames":
        return {f"{d}/{split(p)[1]}" for p in paths for d in directories(paths)}
    if method == "check_basenames":
        return {f"{d}/{n}" for n in args["names"] for d in directories(paths)}
    if method == "substitute_extensions":
        exts = {e for e in map(extension, paths) if not e.endswith("00")}
        return {p[:len(p) - len(extension(p))] + e for p in paths for e in exts}
    if method == "check_basename_prefixes":
        prefixes = args.get("prefixes") or ["2x_", "2x_sd_", "4x_", "4x_sd_", "sd_"]
        return {split(p)[0] + x + split(p)[1] for p in paths for x in prefixes}
    if method == "substitute_character":
        in_dir = [p for p in paths if p.split("/")[0] in ("assets", "data") and p.split("/")[1:2] == ["characters"] and len(p.split("/")) > 3]
        chars = {p.split("/")[2] for p in in_dir}
        return {p.replace(p.split("/")[2], c) for p in in_dir for c in chars}
    if method == "substitute_skin_numbers":
        return t_skins(paths)
    if method == "substitute_suffixes":
        return t_suffixes(paths)
    if method == "substitute_lang":
        return t_lang(paths)
    if method == "guess_skin_groups_bin":
        return t_skin_groups(paths)
    if method == "guess_characters_files":
        return t_characters_files(args.get("chars") or characters(paths))
    if method == "guess_shader_variants":
        return t_shaders(paths)
    if method == "substitute_region_lang":
        return t_region_lang(paths)
    if method == "substitute_plugin":
        return t_plugin(paths)
    if method == "guess_patterns":
        return t_patterns(paths)
    if method == "guess_from_lcu_hashes":
        out = set()
        for p in lcu:
            if p.startswith(BASE + "assets/") or p.startswith(BASE + "data/"):
                p = p[len(BASE):]
                if p.endswith((".png", ".jpg")):
                    out.add(p[:-4] + ".dds")
                elif p.endswith(".json"):
                    out.add(p)
        return out
    if method == "guess_from_game_hashes":
        out = set()
        for p in game:
            if extension(p) == ".dds":
                out.update([BASE + p[:-4] + ".png", BASE + p[:-4] + ".jpg"])
            elif extension(p) == ".json":
                out.add(BASE + p)
        return out
    raise KeyError(method)


LCU_METHODS = ["substitute_numbers", "substitute_basename_words", "add_basename_word", "substitute_basenames", "check_basenames", "substitute_extensions", "substitute_region_lang", "substitute_plugin",
               "guess_patterns", "guess_from_game_hashes"]
GAME_METHODS = ["substitute_numbers", "substitute_basename_words", "add_basename_word", "substitute_basenames", "check_basenames", "substitute_extensions", "check_basename_prefixes", "substitute_character",
                "substitute_skin_numbers", "substitute_suffixes", "substitute_lang", "guess_skin_groups_bin", "guess_characters_files", "guess_shader_variants", "guess_from_lcu_hashes"]


def rare(t):
    """Targets of large fixed families are less interesting than those derived from a given path"""
    return not (t.startswith(("plugins/rcp-be-sanitizer/global/default/", "plugins/rcp-fe-lol-perks/")) or "/skins/skin" in t or t[-2:] == "00")


def pick(targets, known, picks):
    """A deterministic choice of unknown targets"""
    t = sorted(set(targets) - set(known))
    r = [x for x in t if rare(x)]
    out = set()
    for i in picks:
        c = r if i % 3 and r else t
        if c:
            out.add(c[i // 3 % len(c)])
    return sorted(out)
