"""Runs commands in child processes whose environment differs in what must not matter.  Jobs on stdin, one literal a line."""
import ast
import os
import random
import sys
import time

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:1] = [REPO, HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True


def shuffle_listings(seed):
    """Directory entries come in no particular order"""
    rnd = random.Random(seed)
    listdir, scandir = os.listdir, os.scandir

    class Scan:
        def __init__(self, path):
            with scandir(path) as it:
                self.entries = list(it)
            self.entries.sort(key=lambda e: e.name)
            rnd.shuffle(self.entries)
            self.it = iter(self.entries)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def shuffled(path="."):
        names = sorted(listdir(path))
        rnd.shuffle(names)
        return names
    os.listdir = shuffled
    os.scandir = lambda path=".": Scan(path)


def run(job, commands):
    from vp.cli import run_cli
    from cdtb import hashes, binfile, rstfile
    os.chdir(job["cwd"])
    os.environ["TZ"] = job["tz"]
    time.tzset()
    for k, v in job["environ"].items():
        os.environ[k] = v
    shuffle_listings(job["shuffle"])
    import logging
    logging.disable(logging.NOTSET)
    hashes.hashfile_game.filename, hashes.hashfile_lcu.filename = job["hashes"]
    for hf in (hashes.hashfile_game, hashes.hashfile_lcu):
        hf.hashes = None
    for hf in (binfile.hashfile_binentries, binfile.hashfile_binhashes, binfile.hashfile_binfields, binfile.hashfile_bintypes, rstfile.hashfile_rst_xxh64, rstfile.hashfile_rst_xxh3):
        hf.hashes = {}
    out = []
    # the releases in the storage are the latest ones
    from vp.patcherkit import Servers
    srv = Servers()
    if "routes" in job:
        srv.cdn.routes.update(job["routes"])
        srv.cdn.blocks = job["blocks"]
    with srv.cdn.installed():
        for argv in commands:
            if "-s" in argv and "urls" in job:
                srv.client, srv.game = job["urls"][argv[argv.index("-s") + 1].rsplit("/", 1)[-1]]
            try:
                rc, text, _ = run_cli(["-v"] * job["verbose"] + argv)
            except Exception as e:
                rc, text = f"{type(e).__name__}: {e}", ""
            out.append((rc, text))
    return out


def run_fresh(job, commands):
    """With the given variables set before anything of the code under test is loaded"""
    os.chdir(job["cwd"])
    for k, v in job["environ"].items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    from vp.cdn import CDN
    from vp.cli import run_cli
    import re
    out = []
    with CDN(job["routes"]).installed():
        for argv in commands:
            try:
                if argv[0] == "@rst":
                    from cdtb.export import RstConverter
                    with open(argv[1], "rb") as f:
                        RstConverter(re.compile("."), argv[2]).convert(f, argv[3], "x")
                    with open(f"{argv[3]}/x.json", encoding="utf-8") as f:
                        rc, text = 0, f.read()
                else:
                    rc, text, _ = run_cli(argv)
            except Exception as e:
                rc, text = f"{type(e).__name__}: {e}", ""
            out.append((rc, text))
    return out


def main():
    fresh = sys.argv[1:] == ["fresh"]
    import logging
    logging.disable(logging.CRITICAL)
    import PIL.Image
    if fresh:
        import base64, concurrent.futures, fnmatch, glob, io, json, pathlib, re, shutil, struct, tarfile, textwrap, urllib.parse, uuid, gzip, zlib    # noqa
        import requests, xxhash, vp.cdn, pyzstd, argparse, copy, signal, multiprocessing.pool, hachoir.parser, hachoir.metadata    # noqa
        assert not [m for m in sys.modules if m.split(".")[0] == "cdtb"]
    else:
        import cdtb.__main__    # noqa: loaded before forking
        import vp.cli    # noqa
        import vp.patcherkit    # noqa
        import cdtb.arenadata, cdtb.tftdata    # noqa
    PIL.Image.init()
    for line in sys.stdin:
        job = ast.literal_eval(line)
        ok = True
        for i, commands in enumerate(job["commands"]):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    res = (run_fresh if fresh else run)(job, commands)
                    with open(f"{job['results']}.{i}", "w", encoding="utf-8", errors="surrogatepass") as f:
                        f.write(repr(res))
                    code = 0
                except BaseException as e:
                    with open(f"{job['results']}.error", "w") as f:
                        f.write(repr(e))
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            ok = ok and status == 0
        error = ""
        if not ok and os.path.exists(f"{job['results']}.error"):
            with open(f"{job['results']}.error") as f:
                error = f.read()
        sys.stdout.write("ok\n" if ok else f"failed {error}\n")
        sys.stdout.flush()


main()
