"""C38 Hash lists are those of the directory given by the environment"""
import ast
import atexit
import json
import os
import subprocess
import sys
from hypothesis import strategies as st
from vp import bingen, patchgen, ref, rstgen, wadgen
from vp.core import HarnessError, Sub, eq, expect

ASSUMPTIONS = ["the environment has a home directory", "the data directories given by the environment exist, unless the lists are fetched"]

LISTS = ["hashes.binentries.txt", "hashes.binfields.txt", "hashes.binhashes.txt", "hashes.bintypes.txt", "hashes.game.txt", "hashes.lcu.txt", "hashes.rst.txt", "hashes.rst.xxh64.txt", "hashes.rst.xxh3.txt"]
KINDS = {"entries": "hashes.binentries.txt", "fields": "hashes.binfields.txt", "hashes": "hashes.binhashes.txt", "types": "hashes.bintypes.txt", "paths": "hashes.game.txt"}
VARS = ["CDTB_HASHES_DIR", "CDRAGON_DATA", "XDG_DATA_HOME", "LOCALAPPDATA"]
TAILS = {"CDTB_HASHES_DIR": "", "CDRAGON_DATA": "hashes/lol", "XDG_DATA_HOME": "cdragon/data/hashes/lol", "LOCALAPPDATA": "cdragon/data/hashes/lol"}
BASE = "https://raw.communitydragon.org/data/hashes/lol/"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# hashes in all the lists, with a different text in each of them
POOL32 = [0x11, 0xabcdef01, 0xffffffff, 0x811c9dc5]
POOL64 = [0x11, 0xabcdef01, 0xffffffff, 0x811c9dc5, 2 ** 64 - 1, 1 << 60, 0x123456789abcdef]
PLANTED = {"hashes.lcu.txt": (["plugins/p/global/default/x.json", "plugins/p/global/default/y.png"], "plugins/p/global/default/x.png"),
           "hashes.game.txt": (["data/q/x.dds", "data/q/y.bin"], "data/q/x.bin")}
process = []


def submit(job):
    if not process or process[0].poll() is not None:
        process[:] = [subprocess.Popen([sys.executable, os.path.join(HERE, "vp/envserver.py"), "fresh"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)]
        atexit.register(process[0].kill)
    s = process[0]
    s.stdin.write(repr(job) + "\n")
    s.stdin.flush()
    line = s.stdout.readline().strip()
    if line != "ok":
        raise HarnessError(f"environment server: {line!r}")
    out = []
    for i in range(len(job["commands"])):
        with open(f"{job['results']}.{i}", encoding="utf-8", errors="surrogatepass") as f:
            out += ast.literal_eval(f.read())
    return out


def tag(where, name):
    return f"{where}.{name.split('.', 1)[1].rsplit('.', 1)[0]}"


def list_map(where, name):
    """Content of a list: {hash: text}"""
    t = tag(where, name)
    out = {h: f"t/{t}/{h:x}.dds" for h in (POOL32 if name in KINDS.values() and name != "hashes.game.txt" else POOL64)}
    for p in PLANTED.get(name, [[]])[0]:
        out[wadgen.wad_hash(p)] = p
    return out


def list_bytes(mapping, name):
    size = 8 if name in KINDS.values() and name != "hashes.game.txt" else 16
    return "".join(f"{h:0{size}x} {s}\n" for h, s in sorted(mapping.items(), key=lambda t: t[1])).encode()


@st.composite
def cases(draw):
    styles = {v: draw(st.sampled_from(["unset", "unset", "empty", "absolute", "absolute", "relative", "slash"])) for v in VARS}
    return dict(env=styles, missing=draw(st.lists(st.sampled_from(LISTS), max_size=2, unique=True)), others=draw(st.booleans()),
                hashes=draw(st.lists(st.sampled_from(POOL64), min_size=1, max_size=4, unique=True)), h32=draw(st.permutations(POOL32)), key=draw(st.sampled_from(POOL64)), path=draw(st.sampled_from(POOL64)),
                game=draw(st.sampled_from([1414, 1415, 1502, 1301])), explicit=draw(st.sampled_from([None, "x.txt", "hashes.lcu.txt", "y.wad"])), dry=draw(st.booleans()),
                fetch=draw(st.sampled_from(["no", "fresh", "update", "update"])), json=draw(st.booleans()))


def check(case, ctx):
    root = ctx.tmp()
    cwd = f"{root}/cwd"
    environ, dirs = {"HOME": f"{root}/home"}, {"HOME": f"{root}/home/.local/share/cdragon/data/hashes/lol"}
    for v in VARS:
        style = case["env"][v]
        where = f"{root}/d{VARS.index(v)}"
        environ[v] = {"unset": None, "empty": "", "absolute": where, "relative": f"../d{VARS.index(v)}", "slash": f"{where}//"}[style]
        if style not in ("unset", "empty"):
            dirs[v] = os.path.normpath(f"{where}/{TAILS[v]}")
    chosen = next((v for v in VARS if v in dirs and not (v == "XDG_DATA_HOME" and case["env"][v] == "relative")), "HOME")
    # lists everywhere but for missing ones
    fresh = case["fetch"] == "fresh"
    tree = {}
    for v, d in dirs.items():
        if v != chosen and not case["others"]:
            continue
        for name in LISTS:
            if v != chosen or (name not in case["missing"] and not fresh):
                tree[f"{os.path.relpath(d, root)}/{name}"] = list_bytes(list_map(v, name), name)
    d = dirs[chosen]
    mine = os.path.relpath(d, root)
    # a directory of the current directory has no influence
    for name in LISTS:
        tree[f"cwd/{name}"] = list_bytes(list_map("cwd", name), name)
    if not (fresh and case["missing"]):
        os.makedirs(d, exist_ok=True)
    archives = {}
    for ext in (".wad", ".wad.client"):
        archives[f"in/a{ext}"] = patchgen.wad_bytes([(h, b"\x01data", 0) for h in case["hashes"]])
        archives[f"in/g{ext}"] = patchgen.wad_bytes([(wadgen.wad_hash(p), b"\x01", 0) for p in [PLANTED["hashes.lcu.txt" if ext == ".wad" else "hashes.game.txt"][1]]])
    a, b, c, e = case["h32"]
    obj = dict(version=3, patch=False, linked=[], entries=[dict(path=a, type=b, fields=[(c, "HASH", e), (e, "LINK", b), (b, "PATH", case["path"]), (a, "STRUCT", (c, []))])])
    key_bits = rstgen.bits_for(5, case["game"])
    # the key of a text is the hash given by the list, reduced
    key = case["key"] & ((1 << key_bits) - 1)
    rst, _ = rstgen.build_rst(dict(version=5, entries=[(key, {"text": b"some text"})]), case["game"])
    files = {**archives, "in/x.bin": bingen.build_bin(obj, 1502), "in/x.rst": rst}
    if case["explicit"]:
        files["in/" + case["explicit"]] = list_bytes(list_map("explicit", "hashes.game.txt"), "hashes.game.txt")
    ref.write_tree(root, {**tree, **files})
    explicit = ["-H", f"{root}/in/{case['explicit']}"] if case["explicit"] else []
    commands = [["wad-list", f"{root}/in/a.wad"], ["wad-list", f"{root}/in/a.wad.client"], ["bin-dump"] + ["-j"] * case["json"] + [f"{root}/in/x.bin"], ["@rst", f"{root}/in/x.rst", case["game"], f"{root}/rst"]]
    if explicit:
        commands += [["wad-list", *explicit, f"{root}/in/a.wad"], ["wad-list", f"{root}/in/a.wad.client", *explicit]]
    reading = list(commands)
    commands.append(["hashes-guess", "-m", "ext", *["-n"] * case["dry"], f"{root}/in/g.wad", f"{root}/in/g.wad.client"])
    if case["fetch"] != "no":
        commands.append(["fetch-hashes"])
    published = {name: list_bytes(list_map("published", name), name) for name in LISTS}
    routes = {BASE + name: (200, data, {"last-modified": "Fri, 01 Jan 2100 00:00:00 GMT"}) for name, data in published.items()}
    os.makedirs(f"{root}/rst")
    got = submit(dict(cwd=cwd, environ=environ, routes=routes, results=f"{root}/res", commands=[reading] + [[c] for c in commands[len(reading):]]))
    there = {name for name in LISTS if f"{mine}/{name}" in tree}
    names = bingen.Names({k: list_map(chosen, name) for k, name in KINDS.items()})
    ran = 0
    for argv, (rc, out) in zip(commands, got):
        what = f"{argv} with {case['env']}"
        if argv[0] == "wad-list":
            name = "hashes.lcu.txt" if argv[-1].endswith(".wad") or argv[1].endswith(".wad") and argv[1] != "-H" else "hashes.game.txt"
            if "-H" in argv:
                texts = list_map("explicit", "hashes.game.txt")
            elif name not in there:
                missing(rc, out, what)
                continue
            else:
                texts = list_map(chosen, name)
            eq((rc, sorted(out.splitlines())), (0, sorted(f"{h:016x} {texts[h]}" for h in case["hashes"])), what)
        elif argv[0] == "bin-dump":
            if not set(KINDS.values()) <= there:
                missing(rc, out, what)
                continue
            if case["json"]:
                eq(rc, 0, what)
                expect(bingen.same_json(json.loads(out), bingen.model_file_json(obj, names)), f"{what}: {out}")
            else:
                eq((rc, out), (0, bingen.model_dump(obj, names)), what)
        elif argv[0] == "@rst":
            name = "hashes.rst.xxh3.txt" if case["game"] >= 1415 else "hashes.rst.xxh64.txt"
            if name not in there:
                missing(rc, out, what)
                continue
            reduced = {}
            for h, s in sorted(list_map(chosen, name).items(), key=lambda t: t[1]):
                reduced.setdefault(h & ((1 << key_bits) - 1), []).append(s)
            eq(rc, 0, what)
            [(shown, text)] = json.loads(out)["entries"].items()
            expect(shown in reduced[key] and text == "some text", f"{what}: {shown!r}, want one of {reduced[key]}")
        elif argv[0] == "hashes-guess":
            used = {"hashes.lcu.txt", "hashes.game.txt"}
            if not used <= there:
                expect(rc != 0, f"{what}: status {rc}")
                eq(out, "", f"output of {what} without list")
                continue
            eq(rc, 0, what)
            if not case["dry"]:
                for name in used:
                    learnt(tree, mine, chosen, name)
        else:
            eq(rc, 0, what)
            first = out.split("\n")[0].split()[-1]
            eq(os.path.normpath(os.path.join(cwd, first)), d, f"directory printed by {what}")
            for name, data in published.items():
                tree[f"{mine}/{name}"] = data
        ran += 1
    after = ref.read_tree(root)
    after = {p: x for p, x in after.items() if isinstance(x, bytes) and not p.startswith(("res.", "rst/", "in/"))}
    eq(after, tree, f"lists with {case['env']}")
    ctx.label(chosen, case["fetch"])
    ctx.nontrivial(case["others"] and len(dirs) > 1 and ran >= 3)


def learnt(tree, mine, chosen, name):
    p = PLANTED[name][1]
    tree[f"{mine}/{name}"] = list_bytes({**list_map(chosen, name), wadgen.wad_hash(p): p}, name)


def missing(rc, out, what):
    expect(rc != 0, f"{what}: the list is missing, but the status is {rc}")
    eq(out, "", f"output of {what} without list")


SUBS = [Sub("environment", cases, check, 360, 8000, "lists in several directories, at least three commands run", shards=8)]
