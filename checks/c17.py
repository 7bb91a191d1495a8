"""C17 Guessing never records a wrong hash"""
import contextlib
import io
import json
import os
from hypothesis import strategies as st
from vp import guessgen as G, guessref as R, patchgen
from vp.cli import run_cli, Stream
from vp.core import Sub, eq, expect, short
from cdtb import hashes as H
from cdtb.hashes import LcuHashGuesser, GameHashGuesser
from cdtb.storage import PatchVersion
from cdtb.wad import Wad

ASSUMPTIONS = ["archives are well-formed but for the data of subchunked entries; contents are arbitrary", "known paths are single-line texts",
               "lists are small, so that methods stay fast"]


class GuessStorage(patchgen.FakeStorage):
    """Storage whose elements are set by the check"""
    storage_type = "vpguess"
    current = []

    @classmethod
    def from_conf_data(cls, conf):
        return cls(conf["path"], cls.current)


# --- contents

@st.composite
def references(draw, paths):
    """References to a path, in one of the searched forms"""
    p = draw(paths)
    short_p = p.split("/", 4)[-1] if p.startswith("plugins/") else p
    up = draw(st.sampled_from([p, p.upper(), p.title()]))
    enc = up.encode("utf-8")
    n = draw(st.sampled_from([len(enc), 0, 3, 65535]))
    return draw(st.sampled_from([
        enc, n.to_bytes(2, "little") + enc, n.to_bytes(4, "little") + enc, b"\0\0" + n.to_bytes(2, "little") + enc, b'"' + enc + b'"', b'"' + short_p.encode() + b'"',
        b" ./" + short_p.encode() + b" ", b"/fe/lol-x/" + short_p.encode(), b"/lol-game-data/assets/" + short_p.encode(), b"/DATA/" + short_p.encode(),
        b'Name="' + enc + b'"', b'Name="caf\xe9.lua"', b'#include "' + enc + b'"', b'#include "..\\x\xff"', enc + b"\n", b"sourceMappingURL=" + short_p.encode() + b".js.map",
        b'<template id="x-template-' + short_p.encode() + b'">', b"Maps/MapGeometry/x", b"Shaders/x", b"Characters/ahri", b"DATA_Soon/x.lua",
    ]))


JSON_LEAF = st.one_of(st.none(), st.booleans(), st.integers(-5, 9), st.floats(allow_nan=False), st.text("a/.-\ud800é", max_size=5), st.sampled_from(["pluginDependencies", "files", "recommendedItemDefaults", "rcp-fe-lol-x"]))
JSON_ANY = st.recursive(JSON_LEAF, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from(["pluginDependencies", "name", "musicVolume", "files", "recommendedItemDefaults", "id", "x"]), c, max_size=4)), max_leaves=8)


@st.composite
def json_contents(draw, paths):
    k = draw(st.integers(0, 7))
    if k == 0:
        d = dict(pluginDependencies={}, name=draw(st.sampled_from(G.PLUGINS)))
    elif k == 1:
        d = dict(musicVolume=1, files={"a": "x-splash-fire.webm", "b": draw(G.basenames([".webm"]))})
    elif k == 2:
        d = [dict(id=draw(st.integers(-1, 5))), dict(id=2)]
    elif k == 3:
        d = dict(recommendedItemDefaults=["/" + draw(G.basenames([".json"]))])
    elif k == 4:
        d = {draw(st.sampled_from(G.WORDS)): "x"}
    elif k == 5:
        return b"[" * draw(st.sampled_from([10, 100000]))
    else:
        d = draw(JSON_ANY)
    return json.dumps(d).encode()


def contents(paths):
    return st.one_of(st.lists(references(paths), max_size=4).map(b"; ".join), json_contents(paths), st.lists(references(paths), max_size=3).map(lambda l: b"PROP" + b"".join(l)),
                     st.binary(max_size=30), st.just(b""), st.just(b"\xef\xbb\xbf{}"))


LCU_SPECIAL = ["plugins/rcp-fe-lol-loot/global/default/trans.json", G.BASE + "v1/champion-summary.json", "plugins/rcp-fe-lol-x/description.json", "plugins/rcp-fe-lol-x/global/default/a.js",
               G.BASE + "v1/hextech-images/fire.png", G.BASE + "v1/champions/2.json", "plugins/rcp-fe-lol-x/global/default/index.html"]
GAME_SPECIAL = ["data/x.preload", "data/x.hls", "shaders/x.ps_2_0", "x.atlas", "data/x.inibin", "data/characters/ahri/ahri.bin", "a.preload", "a.hls", "a.atlas", "assets/characters/ahri/hud/ahri_circle.dds"]


def paths_of(kind):
    return st.one_of(G.lcu_paths(True), G.lcu_paths(), st.sampled_from(LCU_SPECIAL)) if kind == "lcu" else st.one_of(G.game_paths(True), G.game_paths(), st.sampled_from(GAME_SPECIAL))


LCU_METHODS = ["substitute_region_lang", "substitute_basename_words", "words2", "words_filtered", "add_basename_word", "substitute_numbers", "numbers_digits", "substitute_plugin", "grep_wad", "grep_wad",
               "guess_from_game_hashes", "guess_patterns"]
GAME_METHODS = ["substitute_numbers", "numbers_digits", "check_basename_prefixes", "prefixes", "substitute_basename_words", "add_basename_word", "substitute_character", "substitute_skin_numbers",
                "substitute_suffixes", "substitute_lang", "guess_skin_groups_bin", "guess_from_lcu_hashes", "guess_characters_files", "guess_shader_variants", "grep_wad", "grep_wad", "grep_file"]
COMMON = ["substitute_basenames", "substitute_extensions", "check", "is_known", "check_iter", "check_text_list", "check_basenames", "check_xdbg_hashes", "save"]


def respell(p, how):
    return {"upper": p.upper(), "title": p.title(), "space": p + " ", "slash": "/" + p, "backslash": p.replace("/", "\\"), "nl": p + "."}[how]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["lcu", "game"]))
    paths = paths_of(kind)
    other = paths_of("game" if kind == "lcu" else "lcu")
    ext = ".wad" if kind == "lcu" else ".wad.client"
    names = [f"a{ext}", f"x/b{ext}"] + ([".wad.client", "c.wad"] if draw(st.integers(0, 3)) == 0 else [])
    known = draw(st.lists(paths, min_size=1, max_size=6))
    unknown = draw(st.lists(paths, max_size=8))
    # other spellings of paths, which have other hashes
    respelled = draw(st.lists(st.tuples(st.sampled_from((unknown + known)[:6]), st.sampled_from(["upper", "title", "space", "slash", "backslash", "nl"])), max_size=4))
    # variants of known paths
    for p in known[:3]:
        for a, b in draw(st.lists(st.tuples(st.sampled_from(G.WORDS + G.CHARS + G.SKINS + G.LANGS + G.REGIONS + ["1", "07", ".png", ".dds"]), st.sampled_from(G.WORDS + G.CHARS + G.SKINS + G.LANGS + G.REGIONS + ["1", "2", "12", "03", ".jpg", ".bin"])), max_size=3)):
            if a in p:
                unknown.append(p.replace(a, b))
    return dict(kind=kind, known=known, respelled=[respell(*r) for r in respelled], other=draw(st.lists(other, max_size=3)), unknown=unknown, randoms=draw(st.lists(st.integers(0, 2 ** 64 - 1), max_size=2)),
                wads=[draw(G.archives(n, paths, contents(paths))) for n in names], from_wads=draw(st.booleans()),
                special=draw(st.lists(st.tuples(st.sampled_from(LCU_SPECIAL[:4] if kind == "lcu" else GAME_SPECIAL[:9]), st.one_of(contents(paths), st.lists(references(paths), min_size=1, max_size=4).map(b"\n".join))), max_size=3)),
                picks=draw(st.lists(st.integers(0, 10 ** 6), max_size=5)), steps=draw(st.lists(st.tuples(st.sampled_from(COMMON + (LCU_METHODS if kind == "lcu" else GAME_METHODS) * 2), st.integers(0, 9)), min_size=1, max_size=6)))


def call(g, case, step, n, wads, root):
    cand = case["respelled"] + case["unknown"] + case["known"]
    some = [p for p in cand[n % 3::2]]
    if step == "words2":
        g.substitute_basename_words(words=G.WORDS[:3], nold=1 + n % 2, nnew=1 + n // 5)
    elif step == "words_filtered":
        g.substitute_basename_words(plugin=G.PLUGINS[n % 5], fileext=".png", words=set(G.WORDS))
    elif step == "substitute_numbers":
        g.substitute_numbers(nmax=[10, 13, 100][n % 3])
    elif step == "numbers_digits":
        g.substitute_numbers(nmax=[10, 100, 13][n % 3], digits=[True, 2, 1][n // 3 % 3])
    elif step == "prefixes":
        g.check_basename_prefixes(["2x_", "ice"])
    elif step == "grep_wad":
        for w in wads:
            if n % 4:
                w.guess_extensions()
            g.grep_wad(w)
    elif step == "grep_file":
        g.grep_file(data=b"".join(c for w in case["wads"] for _, c, _, _ in w["entries"]))
    elif step == "guess_characters_files":
        g.guess_characters_files(None if n % 2 else ["ahri", "petahri", "sightward"])
    elif step == "check":
        for p in some:
            g.check(p)
    elif step == "is_known":
        for p in some:
            h = G.xxh(p)
            want = h in g.known or h in g.unknown
            eq(bool(g.is_known(p)), want, f"is_known({p!r})")
            eq(h in g.known, want, f"{p!r} known after is_known")
    elif step == "check_iter":
        g.check_iter(some if n % 2 else iter(some))
    elif step == "check_text_list":
        g.check_text_list("\n ".join(some) + "\n")
    elif step == "check_basenames":
        g.check_basenames({p.rsplit("/", 1)[-1] for p in some})
    elif step == "check_xdbg_hashes":
        path = f"{root}/xdbg.txt"
        with open(path, "w") as f:
            f.write("".join(f'hash: "{p}" x\nother "{p}"\n' for p in some if '"' not in p))
        g.check_xdbg_hashes(path)
    elif step == "save":
        g.save()
    else:
        getattr(g, step)()


def lines_of(found):
    return sorted(f"{h:016x} {p}" for h, p in found.items())


def check_sequence(case, ctx):
    root = ctx.tmp()
    all_known = case["known"] + [p for p, _ in case["special"]]
    lcu, game = (all_known, case["other"]) if case["kind"] == "lcu" else (case["other"], all_known)
    G.set_lists(lcu, game)
    hf = H.hashfile_lcu if case["kind"] == "lcu" else H.hashfile_game
    other_hf = H.hashfile_game if case["kind"] == "lcu" else H.hashfile_lcu
    other_before = dict(other_hf.hashes)
    hf.filename = f"{root}/list.txt"
    cls = LcuHashGuesser if case["kind"] == "lcu" else GameHashGuesser
    ext = ".wad" if case["kind"] == "lcu" else ".wad.client"
    derived = set()
    for step, n in case["steps"]:
        if step in R.LCU_METHODS + R.GAME_METHODS and step != "check_basenames":
            t = R.targets(case["kind"], step, {"nmax": 10} if step == "substitute_numbers" else {}, lcu, game)
            derived.update(R.pick(t, all_known, case["picks"]))
    descs = [dict(w) for w in case["wads"]]
    # files with derivable paths
    descs[0]["entries"] = [(p, c, 3 * (i % 2), None) for i, (p, c) in enumerate(case["special"])] + descs[0]["entries"] + [(p, b"x", 0, None) for p in sorted(derived)]
    wads = [Wad(G.write_archive(root, w)) for w in descs]
    own = [w for w in wads if w.path.endswith(ext)]
    initial = dict(hf.hashes)
    wanted = {G.xxh(p) for p in case["unknown"]} | {G.xxh(p) for p in derived} | set(case["randoms"])
    if case["from_wads"]:
        g = cls.from_wads(wads)
        eq([w.path for w in g.wads], [w.path for w in own], "archives kept by from_wads")
        wanted = {wf.path_hash for w in own for wf in w.files}
    else:
        given = set(wanted) if len(wanted) % 2 else sorted(wanted)
        g = cls(given)
    eq(g.known, initial, "initial known hashes")
    unknown0 = wanted - set(initial)
    eq(set(g.unknown), unknown0, "initial unknown hashes")
    found = {}
    for step, n in case["steps"]:
        before, unk = dict(g.known), set(g.unknown)
        saved = initial | found if step == "save" else None
        out = Stream()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(Stream()):
                call(g, case, step, n, own, root)
        except Exception as e:
            expect(False, f"{step} failed: {type(e).__name__}: {e}")
        after = dict(g.known)
        for h, p in before.items():
            eq(after.get(h), p, f"known path {h:016x} after {step}")
        new = {h: p for h, p in after.items() if h not in before}
        for h, p in new.items():
            eq(G.xxh(p), h, f"hash of the path recorded by {step} for {h:016x} ({p!r})")
            expect(h in unk, f"{step} recorded {p!r}, which was not searched for")
        eq(set(g.unknown), unk - set(new), f"unknown hashes after {step}")
        eq(sorted(l for l in out.getvalue().split("\n") if l), lines_of(new), f"discoveries printed by {step}")
        found.update(new)
        if new:
            ctx.label(f"found:{step}")
        if saved is not None:
            check_list(hf.filename, saved)
    eq(g.known, initial | found, "known hashes")
    if not case["from_wads"]:
        eq(set(given), wanted, "collection of hashes given to the guesser, afterwards")
    eq(other_hf.hashes, other_before, "the other hash list")
    with contextlib.redirect_stdout(io.StringIO()):
        g.save()
    check_list(hf.filename, initial | found)
    eq(hf.load(), initial | found, "list after saving")
    ctx.label(case["kind"])
    ctx.nontrivial(found)


def check_list(path, want):
    with open(path, newline="") as f:
        lines = f.read().split("\n")
    eq(sorted(lines[:-1]), lines_of(want), "saved list")
    eq(lines[-1], "", "end of saved list")


# --- command line

METHODS = ["grep", "numbers", "basenames", "words", "ext", "regionlang", "plugin", "skin-num", "character", "prefixes"]


@st.composite
def commands(draw):
    lcu, game = paths_of("lcu"), paths_of("game")
    wads = []
    for i in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["lcu", "game"]))
        p = lcu if k == "lcu" else game
        wads.append(draw(G.archives(f"w{i}" + (".wad" if k == "lcu" else ".wad.client"), p, contents(p))))
    return dict(wads=wads, lcu=draw(st.lists(lcu, min_size=1, max_size=4)), game=draw(st.lists(game, min_size=1, max_size=4)),
                methods=draw(st.sampled_from([None, None] + [[m] for m in METHODS if m != "numbers"] + [["grep", "ext"], ["basenames", "words"], ["ext", " plugin", "character "]])),
                dry=draw(st.booleans()), via=draw(st.sampled_from(["path", "path", "patch", "element", "missing"])), picks=draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4)), extra=draw(st.sampled_from([[], ["x.txt"], ["x.wad.bak"]])))


def check_command(case, ctx):
    root = ctx.tmp()
    lists = {}
    for name, hf, known in (("lcu", H.hashfile_lcu, case["lcu"]), ("game", H.hashfile_game, case["game"])):
        lists[name] = {G.xxh(p): p for p in known}
        lists[name][G.TOC] = "data/wad.subchunktoc"
        hf.filename = f"{root}/{name}.txt"
        hf.hashes = dict(lists[name])
        hf.save()
        hf.hashes = None
    descs = [dict(w) for w in case["wads"]]
    for w in descs:
        kind = "lcu" if w["name"].endswith(".wad") else "game"
        methods = {"lcu": ["substitute_extensions", "substitute_plugin", "substitute_region_lang", "substitute_basename_words", "substitute_basenames"],
                   "game": ["substitute_extensions", "substitute_basename_words", "substitute_basenames", "substitute_skin_numbers", "substitute_character", "check_basename_prefixes"]}[kind]
        for m in methods[case["picks"][0] % 2::2]:
            t = R.targets(kind, m, {}, case["lcu"], case["game"])
            w["entries"] = w["entries"] + [(p, b"x", 0, None) for p in R.pick(t, case[kind], case["picks"])]
    paths = [G.write_archive(root, w) for w in descs]
    stored = {}
    for name in lists:
        with open(f"{root}/{name}.txt", "rb") as f:
            stored[name] = f.read()
    argv = ["hashes-guess"]
    if case["dry"]:
        argv += ["-n"]
    if case["methods"]:
        argv += ["-m", ",".join(case["methods"])]
    if case["via"] == "path":
        argv += paths
    else:
        # archives of a stored patch
        files = [(p, p, None) for p in paths]
        for x in case["extra"]:
            with open(f"{root}/{x}", "wb") as f:
                f.write(b"not an archive")
            files.append((f"{root}/{x}", x, None))
        half = 1 if case["via"] == "patch" else 0
        client = [f for i, f in enumerate(files) if f[0].endswith(".wad") or half == 0]
        game = [f for f in files if f not in client]
        GuessStorage.current = [patchgen.FakeElement("game", PatchVersion("9.1"), game), patchgen.FakeElement("client", PatchVersion("9.1"), client)]
        argv += ["-s", f"vpguess:{root}", {"patch": "patch=9.1", "element": "client=9.1", "missing": "patch=1.1"}[case["via"]]]
    try:
        rc, out, err = run_cli(argv)
    except Exception as e:
        expect(False, f"{argv[1:]} failed: {type(e).__name__}: {e}")
    eq(rc, 0, f"exit status of {argv[1:]} ({err})")
    hashes = {"lcu": set(), "game": set()}
    if case["via"] != "missing":
        for p in paths:
            hashes["lcu" if p.endswith(".wad") else "game"].update(wf.path_hash for wf in Wad(p, hashes={}).files)
    lines = [l for l in out.split("\n") if l]
    found = {}
    section = "lcu"
    pending = {}
    summary = [l for l in lines if l.startswith("found ")]
    pos = 0
    total = 0
    for name, label in (("lcu", "LCU"), ("game", "game")):
        got = {}
        head = f"found {label} hashes: "
        # discoveries of one kind are printed before its summary
        if any(l.startswith(head) for l in lines):
            while not lines[pos].startswith(head):
                h, p = lines[pos].split(" ", 1)
                expect(int(h, 16) not in got, f"discovery printed twice: {lines[pos]}")
                got[int(h, 16)] = p
                pos += 1
            eq(lines[pos], f"{head}{len(got)}", "summary line")
            pos += 1
        for h, p in got.items():
            eq(G.xxh(p), h, f"hash of printed path {p!r}")
            expect(h in hashes[name] and h not in lists[name], f"{label} discovery {p!r} was not searched for")
        with open(f"{root}/{name}.txt", "rb") as f:
            raw = f.read()
        if case["dry"] or not got:
            eq(raw, stored[name], f"{name} list file")
        else:
            check_list(f"{root}/{name}.txt", lists[name] | got)
        total += len(got)
    eq(lines[pos:], [], "other output lines")
    ctx.label(case["via"], "dry" if case["dry"] else "save")
    ctx.nontrivial(total)


SUBS = [
    Sub("sequence", cases, check_sequence, 4800, 60000, "at least one hash is discovered", shards=8),
    Sub("command", commands, check_command, 500, 8000, "at least one hash is discovered", shards=8),
]
