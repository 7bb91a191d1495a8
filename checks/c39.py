"""C39 Text is UTF-8, whatever the platform's default encoding"""
import json
import os
from hypothesis import strategies as st
from checks.c27 import install
from vp import tftgen as T
from vp import bingen, infogen, patchgen, ref, rstgen, skngen, wadgen
from vp.cli import run_cli
from vp.core import Sub, default_encoding, eq, expect
from cdtb import binfile as B
from cdtb import hashes as H
from cdtb import rstfile as R
from cdtb.arenadata import ArenaTransformer
from cdtb.tftdata import TftTransformer
from cdtb.export import CdragonRawPatchExporter
from cdtb.rads import BinPackageFile
from cdtb.storage import Storage, get_content_metadata_version, get_system_yaml_version

ASSUMPTIONS = ["file names are UTF-8 in all cases (only the default encoding of text files differs)", "what is printed follows the encoding of the terminal"]

ENCODINGS = ["ascii", "ascii", "cp1252", "latin-1", "shift_jis", "cp1251", "utf-16"]
# a lower-case word, as all the paths of the lists
WORD = st.one_of(st.text("éßœ漢字яжñ😀ｱ", min_size=1, max_size=4), st.text("aé漢", min_size=1, max_size=4), st.text("abc", min_size=1, max_size=3))
LISTS = {"game": H.hashfile_game, "lcu": H.hashfile_lcu, "binentries": B.hashfile_binentries, "binhashes": B.hashfile_binhashes, "binfields": B.hashfile_binfields, "bintypes": B.hashfile_bintypes,
         "rst.xxh3": R.hashfile_rst_xxh3, "rst.xxh64": R.hashfile_rst_xxh64}


@st.composite
def cases(draw):
    words = draw(st.lists(WORD, min_size=4, max_size=6, unique=True))
    mesh = draw(skngen.st_skn().filter(lambda c: c["major"] != 0 and c["submeshes"]))
    for i, sm in enumerate(mesh["submeshes"]):
        sm["name"] = f"{words[i % len(words)]}{i}"
    game = draw(st.sampled_from([1301, 1502]))
    return dict(encoding=draw(st.sampled_from(ENCODINGS)), words=words, mesh=mesh, version=draw(st.sampled_from(["9.10", "9.11", "9.12"])), game=game,
                text=draw(st.text("a é漢\n\t<>\"'\\я\u2028", max_size=12)), key=draw(rstgen.st_key().filter(lambda k: k and k == k.strip() and len(k.splitlines()) == 1)), atlas=draw(infogen.st_atlas().filter(lambda a: not a["hashed"])), skins=draw(infogen.st_skins()),
                bin=draw(bingen.st_binfile(version=1502, depth=2, max_entries=2)), data=draw(st.text("ab é漢", max_size=8)), links=draw(st.booleans()))


def write_lists(root, case):
    w = case["words"]
    game = [f"data/{x}/x.dds" for x in w] + ["data/q/y.bin", f"data/{w[0]}/o.bin", f"assets/{w[1]}.skn", "global/champions/championskins.info", f"data/menu/{w[2]}.stringtable", f"data/{w[3]}.cdtb", "data/wad.subchunktoc"] + patchgen.data_paths()
    lcu = [f"plugins/p/global/default/{x}.json" for x in w] + [f"plugins/{w[1]}/global/default/y.png", "wad.subchunktoc"]
    lists = {"game": {wadgen.wad_hash(p): p for p in game}, "lcu": {wadgen.wad_hash(p): p for p in lcu}}
    for name in ("binentries", "binhashes", "binfields", "bintypes"):
        lists[name] = {h: f"{x}{name}" for h, x in zip(bingen.H_POOL, w)}
    for name, g in (("rst.xxh3", 1502), ("rst.xxh64", 1301)):
        lists[name] = {rstgen.rst_hash(k, 64, g): k for k in [case["key"], *w]}
    for name, hf in LISTS.items():
        size = 8 if name.startswith("bin") else 16
        hf.filename = f"{root}/lists/{name}.txt"
        hf.hashes = None
        ref.write_tree(root, {f"lists/{name}.txt": "".join(f"{h:0{size}x} {s}\n" for h, s in sorted(lists[name].items(), key=lambda t: t[1])).encode("utf-8")})
    return lists


def produce(root, case, encoding):
    """Everything that comes out of the operations on the files of the case"""
    w = case["words"]
    old = {name: (hf.filename, hf.hashes) for name, hf in LISTS.items()}
    out = {}
    try:
        lists = write_lists(root, case)
        bits = rstgen.bits_for(5, case["game"])
        rst, _ = rstgen.build_rst(dict(version=5, entries=[(rstgen.rst_hash(k, bits, case["game"]), {"text": case["text"].encode("utf-8")}) for k in dict.fromkeys([case["key"].lower(), *w])][:1]), case["game"])
        obj, mesh = bingen.build_bin(case["bin"], 1502), skngen.build_skn(case["mesh"])
        entries = [(f"data/{w[0]}/o.bin", obj, 0), (f"assets/{w[1]}.skn", mesh, 3), ("global/champions/championskins.info", infogen.build_skins(case["skins"]), 3), (f"data/menu/{w[2]}.stringtable", rst, 0),
                   (f"data/{w[3]}.cdtb", infogen.build_atlas(case["atlas"]), 0), (0x123456789, b"\x01unknown", 0)]
        guess = [(f"data/{w[0]}/x.bin", b"\x01", 0), (f"data/{w[1]}/x.dds", case["data"].encode(), 0)]
        lcu = [(f"plugins/p/global/default/{w[0]}.png", b"\x01", 0), (f"plugins/p/global/default/{w[1]}.json", json.dumps({"x": case["data"]}, ensure_ascii=False).encode(), 0)]
        ref.write_tree(root, {"in/a.wad.client": patchgen.wad_bytes(guess), "in/a.wad": patchgen.wad_bytes(lcu), "in/x.bin": obj, "in/x.skn": mesh,
                              "é/cdtb.storage.conf": json.dumps(dict(type="patcher", path=f"../{w[0]}", clientconfig_data=f"{root}/config.json"), ensure_ascii=False).encode(),
                              "config.json": json.dumps({"comment": w, "keystone.products.league_of_legends.patchlines.live": {"platforms": {"win": {"configurations": [{"id": w[0]}, {"id": "EUW", "patch_url": f"http://x/{w[1]}"}]}}}}, ensure_ascii=False).encode(),
                              "system.yaml": f"# {''.join(w)}\nname: '{w[0]}'\nbranch: 'Releases/9.{len(w)}'\n".encode(),
                              "content-metadata.json": json.dumps({"name": w, "version": "14.2.1+x"}, ensure_ascii=False).encode(),
                              "packagemanifest": ("PKG1\r\n" + "".join(f"/projects/p/releases/0.0.0.1/files/{x}.txt,BIN_0,0,1,0\r\n" for x in w)).encode(),
                              "words.txt": "".join(f'hash: 1 "plugins/p/global/default/{x}.png"\n' for x in w).encode()})
        plain = {f"d/{w[0]}.txt": b"1", "d/b.txt": b"2", f"e/{w[1]}/c.txt": b"3"}
        patches = []
        for n in (0, 1):
            client = dict(plain, **{f"d/{w[0]}.txt": b"%d" % n})
            game = {"DATA/FINAL/A.wad.client": patchgen.wad_bytes(entries)}
            patches.append(patchgen.make_patch(f"{root}/src", f"p{n}", ["9.9", case["version"]][n], client, game))
        with default_encoding(encoding):
            for name, hf in LISTS.items():
                eq(hf.load(), lists[name], f"list {name} loaded with the default encoding {encoding}")
            for argv in (["wad-list", f"{root}/in/a.wad"], ["wad-list", f"{root}/in/a.wad.client"], ["wad-extract", f"{root}/in/a.wad"], ["bin-dump", "-j", f"{root}/in/x.bin"], ["skn-extract", f"{root}/in/x.skn"]):
                out[argv[0] + argv[-1][len(root):]] = run_cli(argv)[:2]
            CdragonRawPatchExporter(f"{root}/out/1", patches[0]).process()
            CdragonRawPatchExporter(f"{root}/out/2", patches[1], patches[0], symlinks=case["links"]).process()
            eq(H.HashGuesser.unknown_from_export(f"{root}/out/1/cdragon"), {0x123456789}, f"unknown hashes of the export with the default encoding {encoding}")
            storage = Storage.from_path(f"{root}/é")
            out["storage"] = os.path.relpath(storage.path, root), storage.get_latest_client_manifest()
            out["yaml"] = get_system_yaml_version(f"{root}/system.yaml")
            out["metadata"] = get_content_metadata_version(f"{root}/content-metadata.json")
            out["package"] = [p.path for p in BinPackageFile.from_package_manifest(f"{root}/packagemanifest")]
            guesser = H.LcuHashGuesser({wadgen.wad_hash(f"plugins/p/global/default/{x}.png") for x in w})
            guesser.check_xdbg_hashes(f"{root}/words.txt")
            out["xdbg"] = sorted(guesser.known.values())
            H.hashfile_lcu.hashes = None
            out["guess"] = run_cli(["hashes-guess", "-m", "grep,ext", f"{root}/in/a.wad", f"{root}/in/a.wad.client"])[0]
    finally:
        for name, hf in LISTS.items():
            hf.filename, hf.hashes = old[name]
    return out, patchgen.snapshot(root)


def check(case, ctx):
    root = ctx.tmp()
    got = {}
    for encoding in ("utf-8", case["encoding"]):
        os.mkdir(f"{root}/x")
        try:
            got[encoding] = produce(f"{root}/x", case, encoding)
        except Exception as e:
            expect(False, f"default encoding {encoding}: {type(e).__name__}: {e}")
        os.rename(f"{root}/x", f"{root}/{encoding}")
    want, tree = got["utf-8"]
    out, other = got[case["encoding"]]
    eq(out, want, f"results with the default encoding {case['encoding']}")
    eq(other, tree, f"files written with the default encoding {case['encoding']}")
    eq(want["guess"], 0, "status of hashes-guess")
    ctx.label(case["encoding"])
    ctx.nontrivial(not all(x.isascii() for x in case["words"][:4]))


# --- texts of the game data

@st.composite
def data_cases(draw):
    d = draw(T.tft_data())
    a = draw(T.arena_data())
    return dict(encoding=draw(st.sampled_from(ENCODINGS)), tft=d, arena=a, tables=draw(T.tables()), arena_tables=draw(T.tables(T.ARENA_KEYS, ("game", "main", "old-rst"))))


def check_data(case, ctx):
    root = ctx.tmp()
    games = dict(tft=case["tft"]["game"], arena=case["arena"]["game"])
    T.write_tft(f"{root}/tft", case["tft"])
    T.write_tables(f"{root}/tft", case["tables"], games["tft"], "tft")
    T.put(f"{root}/arena", "data/maps/shipping/map30/map30.bin", T.arena_bin(case["arena"]))
    T.write_tables(f"{root}/arena", case["arena_tables"], games["arena"], "lol")
    trees = {}
    for encoding in ("utf-8", case["encoding"]):
        with default_encoding(encoding):
            for name, cls, d in (("tft", TftTransformer, case["tft"]), ("arena", ArenaTransformer, case["arena"])):
                install(d)
                try:
                    cls(f"{root}/{name}", games[name]).export(f"{root}/{encoding}/{name}")
                except Exception as e:
                    expect(False, f"{name} export with the default encoding {encoding}: {type(e).__name__}: {e}")
        trees[encoding] = ref.read_tree(f"{root}/{encoding}")
    eq(trees[case["encoding"]], trees["utf-8"], f"data files written with the default encoding {case['encoding']}")
    for name, data in trees["utf-8"].items():
        if data is not None:
            json.loads(data.decode("utf-8"))
    ctx.label(case["encoding"], f"layout:{case['tables']['layout']}")
    ctx.nontrivial(any(x is not None and not x.isascii() for x in trees["utf-8"].values()))


SUBS = [Sub("encoding", cases, check, 300, 8000, "one of the four main words is not ASCII"),
        Sub("data", data_cases, check_data, 300, 8000, "an exported data file has non-ASCII text")]
