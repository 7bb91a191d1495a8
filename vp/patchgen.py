"""Fake storage serving generated patches made of real files (plain files and WAD archives) in a scratch directory"""
import hashlib
import os
import xxhash
from hypothesis import strategies as st
from vp import wadgen, bingen, rstgen, texgen, ref
from cdtb.storage import Storage, PatchElement, PatchVersion
from cdtb import hashes as H
from cdtb import rstfile as R
from cdtb import binfile as B

# versions below are all < 9.14 unless game data is provided
OLD_VERSIONS = ["8.24", "9.1", "9.2", "9.3", "9.10", "9.12", "9.13"]


UNREADABLE = "unreadable"   # storage kind of an entry whose data does not match its subchunk table


class FakeElement(PatchElement):
    def __init__(self, name, version, files):
        super().__init__(name, version)
        self.files = files   # [(fspath, relpath, lang or None)]
        self.downloaded = []

    def download(self, langs=True):
        self.downloaded.append(langs)

    def _filter(self, langs):
        if langs is True:
            return list(self.files)
        if langs is False:
            return [f for f in self.files if f[2] is None]
        langs = [langs] if isinstance(langs, str) else list(langs)
        return [f for f in self.files if f[2] in langs]

    def fspaths(self, langs=True):
        return (f[0] for f in self._filter(langs))

    def relpaths(self, langs=True):
        return (f[1] for f in self._filter(langs))


class FakeStorage(Storage):
    storage_type = None

    def __init__(self, path, elements=()):
        super().__init__(path, "http://127.0.0.1:9/")
        self.elements = list(elements)   # latest first

    def patch_elements(self, stored=False):
        yield from self.elements


def wad_bytes(files, version=(3, 1), order=()):
    """files: [(path or hash, content, kind, sha or None)]; checksums are those of the content unless given"""
    entries = []
    for p, content, kind, *sha in files:
        h = wadgen.wad_hash(p) if isinstance(p, str) else p
        e = dict(hash=h, kind=kind)
        if kind == UNREADABLE:
            e.update(kind=wadgen.CHUNKED, corrupt=1 + len(content) // 2)
            kind = wadgen.CHUNKED
        if kind == wadgen.REDIRECT:
            e.update(target=content.decode("latin-1"), nul=1)
        else:
            e["content"] = content
        if kind == wadgen.CHUNKED:
            e["cuts"] = [(400, True), (600, False)]
        e["sha"] = sha[0] if sha and sha[0] is not None else xxhash.xxh64_intdigest(content)
        entries.append(e)
    case = dict(version=version, entries=entries, order=list(order))
    if any(e["kind"] == wadgen.CHUNKED for e in entries):
        case["toc"] = dict(hash=wadgen.TOC_HASH, kind=3, pos=len(entries), base=0, filler=0)
    return wadgen.build_wad(case)[0]


def write_source(root, tag, rel, data, shared):
    """Write a source file of a patch, return its path; shared: same content, same path"""
    sub = hashlib.sha1(rel.encode() + b"\0" + data).hexdigest()[:16] if shared else tag
    path = os.path.join(root, "src", sub, rel)
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
    return path


def make_patch(root, tag, version, client, game, shared=False):
    """client/game: {relpath (as in the manifest): bytes}, game may be None; returns a Patch"""
    elements = []
    for name, files in (("game", game), ("client", client)):
        if files is None:
            continue
        out = [(write_source(root, f"{tag}/{name}", rel, data, shared), rel.lower(), None) for rel, data in files.items()]
        elements.append(FakeElement(name, PatchVersion(version), out))
    return next(iter(FakeStorage(root, elements).patches()))


def set_hashes(game=(), lcu=(), extra=()):
    """Install in-memory hash lists"""
    H.hashfile_game.hashes = {wadgen.wad_hash(p): p for p in game}
    H.hashfile_lcu.hashes = {wadgen.wad_hash(p): p for p in lcu}
    H.hashfile_game.hashes[wadgen.TOC_HASH] = "data/wad.subchunktoc"
    H.hashfile_lcu.hashes[wadgen.TOC_HASH] = "wad.subchunktoc"
    for hf in (B.hashfile_binentries, B.hashfile_binhashes, B.hashfile_binfields, B.hashfile_bintypes):
        hf.hashes = {}
    R.hashfile_rst_xxh64.hashes = {}
    R.hashfile_rst_xxh3.hashes = {}


# --- minimal game data, so that the data transforms of recent patches have something to read

EMPTY_RST = b"RST\x05\0\0\0\0"


def data_files(version):
    """{wad relpath: [(path, content, kind)]} making a patch of `version` exportable (different files for each version)"""
    v = (9999, 0) if version == "main" else tuple(int(x) for x in version.split("."))
    if v < (9, 14):
        return {}
    bin22 = bingen.build_bin(dict(version=3, patch=False, linked=[version], entries=[dict(path=1, type=ref.fnv1a("TFTSetData"), fields=[])]), 1502)
    bin30 = bingen.build_bin(dict(version=3, patch=False, linked=[version], entries=[]), 1502)
    rst = EMPTY_RST + version.encode() + b"\0"
    out = {"DATA/FINAL/Maps/Shipping/Map22.wad.client": [("data/maps/shipping/map22/map22.bin", bin22, 3),
                                                         ("data/maps/shipping/map30/map30.bin", bin30, 0)]}
    if v >= (14, 4):
        tables = [("data/menu/en_us/tft.stringtable", rst, 3), ("data/menu/en_us/lol.stringtable", rst, 3)]
    else:
        tables = [("data/menu/main_en_us.stringtable", rst, 3)]
    out["DATA/FINAL/Localized/Global.en_US.wad.client"] = tables
    return out


def data_paths():
    return ["data/maps/shipping/map22/map22.bin", "data/maps/shipping/map30/map30.bin", "data/menu/en_us/tft.stringtable",
            "data/menu/en_us/lol.stringtable", "data/menu/main_en_us.stringtable"]


# --- small valid assets

def image(seed, fmt=0x14, w=2, h=2, ext="tex"):
    pixels = texgen.spread(seed, texgen.level_size(fmt, w, h))
    if ext == "tex":
        return texgen.build_tex(fmt, w, h, pixels, False, b"")
    if ext == "dds":
        return texgen.build_dds(fmt, w, h, pixels)
    return texgen.build_tga(w, h, texgen.spread(seed, 4 * w * h), 32, True, False)[0]


def visible(root):
    """{path: content} as seen through links; dangling links and empty directories are not visible"""
    return {p: d for p, d in ref.read_tree(root, follow=True).items() if isinstance(d, bytes)}


def snapshot(root):
    """Raw tree with links"""
    return ref.read_tree(root)
