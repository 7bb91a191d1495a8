"""Simulated patcher servers publishing generated releases"""
import builtins
import contextlib
import errno
import hashlib
import io
import json
import os
import time
import pyzstd
from hypothesis import strategies as st
from vp import rmangen, ref
from vp.cdn import CDN

BASE = "https://lol.dyn.riotcdn.net/"
CLIENTCONFIG = "https://clientconfig.rpg.riotgames.com/api/v1/config/public"
SIEVE = "https://sieve.services.riotcdn.net/api/v1/products/lol/version-sets/"


def chunk_id(data):
    return int.from_bytes(hashlib.sha1(b"chunk" + data).digest()[:8], "little")


def bundle_id(chunks):
    return int.from_bytes(hashlib.sha1(b"bundle" + b"".join(hashlib.sha1(c).digest() for c in chunks)).digest()[:8], "big")


def manifest_id(data):
    return int.from_bytes(hashlib.sha1(b"manifest" + data).digest()[:8], "big")


def bundle_url(bid):
    return f"{BASE}channels/public/bundles/{bid:016X}.bundle"


def bundle_path(bid):
    return f"channels/public/bundles/{bid:016X}.bundle"


def manifest_url(data, variant=0):
    base = BASE if not variant else BASE.replace("lol.dyn.", "lol.secure.dyn.")
    return f"{base}channels/public/releases/{manifest_id(data):016X}.manifest"


def client_config(configs, patchline="live"):
    """configs: [(id, patch_url)]"""
    return {f"keystone.products.league_of_legends.patchlines.{patchline}": {"platforms": {"win": {"configurations": [{"id": i, "patch_url": u} for i, u in configs]}}}, "other": {}}


def sieve_data(url):
    return {"releases": [{"release": {"id": "x"}, "download": {"url": url, "size": 1}}]}


def build_element(files, flags, bundles, layout=None, big=None):
    """files: [dict(path, chunks: [bytes], langs: [flag names], link)], bundles: [[chunk bytes]] where all chunks are; return (manifest bytes, {bundle id: bytes})"""
    desc = dict(bundles=[], flags={i + 1: f for i, f in enumerate(flags)}, dirs=[], files=[])
    data = {}
    used = {chunk_id(c) for f in files for c in f["chunks"]}
    for chunks in bundles:
        bid = bundle_id(chunks)
        row, blob = [], b""
        for c in chunks:
            z = pyzstd.compress(c)
            row.append((chunk_id(c), len(z), len(c)))
            blob += z
        data[bid] = blob
        if any(r[0] in used for r in row):
            desc["bundles"].append((bid, row))
    dirs = {}
    for n, f in enumerate(files):
        *parents, name = f["path"].split("/")
        cur, key = None, ()
        for p in parents:
            key += (p,)
            if key not in dirs:
                dirs[key] = len(dirs) + 1
                desc["dirs"].append((dirs[key], cur, p))
            cur = dirs[key]
        mask = 0
        for l in f["langs"]:
            mask |= 1 << flags.index(l)
        desc["files"].append(dict(id=n + 1, name=name, dir=cur, size=sum(len(c) for c in f["chunks"]), link=f.get("link"), flags=mask or None, chunks=[chunk_id(c) for c in f["chunks"]]))
    return rmangen.build_manifest(desc, layout), data


def wanted(f, langs):
    """Is a file description selected?"""
    if langs is True:
        return True
    if langs is False:
        return not any(rmangen.is_locale(x) for x in f["langs"])
    langs = [langs] if isinstance(langs, str) else langs
    return any(x.lower() in [l.lower() for l in langs] for x in f["langs"])


def content(f):
    return b"".join(f["chunks"])


class Clock:
    """Controlled time.time()"""

    def __init__(self, now=1500000000):
        self.now = now

    @contextlib.contextmanager
    def installed(self):
        old = time.time, time.time_ns
        # not on a second
        time.time, time.time_ns = lambda: self.now + 0.25, lambda: self.now * 10**9 + 25 * 10**7
        try:
            yield self
        finally:
            time.time, time.time_ns = old


class failing_writes:
    """Opening for writing the n-th file under a directory fails, or writing to it"""

    def __init__(self, base, n, when="open"):
        self.base, self.n, self.when = os.path.realpath(base), n, when
        self.count = 0
        self.failed = False

    def _open(self, file, mode="r", *args, **kwargs):
        if not isinstance(file, int) and any(c in mode for c in "wax+") and os.path.realpath(file).startswith(self.base + os.sep):
            self.count += 1
            if self.count == self.n + 1:
                self.failed = True
                if self.when == "open":
                    raise OSError(errno.ENOSPC, "simulated", file)
                f = self.open(file, mode, *args, **kwargs)
                return FailingFile(f)
        return self.open(file, mode, *args, **kwargs)

    def __enter__(self):
        self.open = builtins.open
        builtins.open = io.open = self._open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.open


class FailingFile:
    """File whose data cannot be written"""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def write(self, data):
        self.f.write(data[:len(data) // 2])
        raise OSError(errno.ENOSPC, "simulated")

    def __getattr__(self, name):
        return getattr(self.f, name)


class Servers:
    """Published releases"""

    def __init__(self, patchline="live", blocks=()):
        self.cdn = CDN(blocks=blocks)
        self.patchline = patchline
        self.client = self.game = None
        self.cdn.routes[CLIENTCONFIG] = self._config
        platform = "PBE1" if patchline == "pbe" else "EUW1"
        self.cdn.routes[SIEVE + platform] = lambda r: json.dumps(sieve_data(self.game)).encode()

    def _config(self, request):
        good = "PBE" if self.patchline == "pbe" else "EUW"
        bad = "EUW" if self.patchline == "pbe" else "PBE"
        return json.dumps(client_config([("NA", "https://bad.test/na"), (bad, "https://bad.test/"), (good, self.client)], self.patchline)).encode()

    def add(self, manifest, bundles, variant=0):
        """Serve a manifest and its bundles, return its URL"""
        url = manifest_url(manifest)
        self.cdn.routes[url] = manifest
        for bid, blob in bundles.items():
            self.cdn.routes[bundle_url(bid)] = blob
        return manifest_url(manifest, variant)

    def bundle_log(self, mark=0):
        return [u for u in self.cdn.urls()[mark:] if "/bundles/" in u]
