"""C36 A wrong command line is refused and changes nothing"""
import os
from pathlib import Path
from unittest import mock
from hypothesis import strategies as st
import cdtb.__main__ as cdtb_main
from vp import patchgen, skngen, bingen, wadgen, ref
from vp.cdn import CDN
from vp.cli import run_cli
from vp.core import Sub, eq, expect
from cdtb import hashes as H
from cdtb.storage import PatchVersion

ASSUMPTIONS = ["files that exist have the right content (bad assets are covered by C11)", "storages are of a known type"]


class ListStorage(patchgen.FakeStorage):
    """Storage serving a given list of (element, is stored)"""
    storage_type = "vprefuse"
    current = []

    @classmethod
    def from_conf_data(cls, conf):
        return cls(conf["path"], [])

    def patch_elements(self, stored=False):
        for e, is_stored in self.current:
            if is_stored or not stored:
                yield e


FILES = {"a.wad": "wad", "noext": "wad", "sub/b.wad.client": "wad", "m.skn": "skn", "d.bin": "bin", "text.txt": "text", "out/x.txt": "text", "export/9.3/keep.txt": "text"}
DIRS = ["sub", "out", "export", "dir.wad", "dir.skn", "dir.bin"]
MISSING = ["nosuch.wad", "sub/nosuch.wad", "nosuch/a.wad", "a.wad2", "A.WAD", "text.txt/x.wad", "nosuch.skn", "nosuch.bin", "dir.wad", "dir.skn", "dir.bin", "sub", ".", ""]
STORED = ["9.3", "9.2"]
LISTED = ["9.4", "9.3", "9.2", "9.1"]
ABSENT = ["9.5", "1.1", "10.3", "9.30", "main"]
BAD_COMPONENTS = ["x=9.3", "patch", "9.3", "patch=x", "patch=9.", "game 9.3", "patch:9.3", "solution=9.3", "", "patch=9.3 ", "lol_game_client_sln=0.0.0.1"]


@st.composite
def cases(draw):
    """(argv, expected: text the error tells (or None), or 'ok')"""
    k = draw(st.sampled_from(["file", "file", "output", "component", "component", "components", "export", "export", "versions", "usage", "guess", "patchline", "hashes", "none", "ok"]))
    pick = lambda *l: draw(st.sampled_from(l))
    st_opts = draw(st.lists(st.sampled_from([["-v"]]), max_size=1))
    head = [x for o in st_opts for x in o]
    S = ["-s", "vprefuse:x"]
    tell = None
    if k == "file":
        cmd = pick("wad-extract", "wad-list", "skn-extract", "bin-dump")
        opts = {"wad-extract": [[], ["-o", "new"], ["--lazy"], ["-u", "only"], ["-p", "*"], ["-H", "text.txt"]], "wad-list": [[], ["-H", "text.txt"]], "skn-extract": [[], ["-o", "new"]],
                "bin-dump": [[], ["-j"], ["-V", "9.3"]]}[cmd]
        argv = [cmd, *pick(*opts), pick(*MISSING)]
    elif k == "output":
        argv = pick(["wad-extract", "-o", "text.txt", "a.wad"], ["wad-extract", "a.wad", "-o", "d.bin"], ["wad-extract", "noext"], ["wad-extract", "./noext", "--lazy"], ["wad-extract", "-o", "a.wad", "a.wad"],
                    ["wad-extract", "-u", "no", "-o", "out/x.txt", "sub/b.wad.client"])
    elif k in ("component", "components"):
        bad = pick(True, False)
        c = draw(st.sampled_from(BAD_COMPONENTS)) if bad else pick("patch=", "game=", "client=") + draw(st.sampled_from(ABSENT)) + pick("", "")
        tell = c
        opts = pick([], ["--no-lang"], ["-r"], ["-v"])
        if k == "component":
            argv = ["files", *S, *[o for o in opts if o != "-v"], c]
        else:
            others = draw(st.lists(st.sampled_from(["patch=9.3", "game=9.3", "patch=9.4", "client=", "patch="]), max_size=2))
            i = draw(st.integers(0, len(others)))
            argv = ["download", *S, *[o for o in opts if o == "--no-lang"], *others[:i], c, *others[i:]]
    elif k == "export":
        o = ["-o", pick("export", "new", "out")] + pick([], ["-L"], ["--lazy"])
        form = pick("prev-no-patch", "full-no-patch", "nothing", "from-with-patch", "absent", "absent-prev", "absent-full", "prev-absent", "prev-not-stored", "no-guess")
        v = draw(st.sampled_from(ABSENT))
        argv = ["export", *S, *o]
        if form == "prev-no-patch":
            argv += ["--previous", pick(*STORED)] + pick([], ["--from", "9.2"])
        elif form == "full-no-patch":
            argv += ["--full"] + pick([], ["--from", "9.2"])
        elif form == "from-with-patch":
            argv += ["--from", "9.2", pick(*LISTED, "latest")] + pick([], ["--full"])
        elif form == "absent":
            argv += [v]
            tell = v
        elif form == "absent-prev":
            argv += ["--previous", "9.2", v]
            tell = v
        elif form == "absent-full":
            argv += ["--full", v]
            tell = v
        elif form == "prev-absent":
            argv += ["--previous", v, pick("9.3", "9.4")]
            tell = v
        elif form == "prev-not-stored":
            argv += ["--previous", "9.1", pick("9.3", "9.2")]
            tell = "9.1"
        elif form == "no-guess":
            argv += [pick("9.2", "9.1")]      # nothing stored before
    elif k == "versions":
        argv = ["versions", *S, *pick([], ["-a"]), pick("x", "patches", "Game", "9.3", "", "solution")]
    elif k == "usage":
        argv = draw(st.sampled_from([["nosuch"], ["wad-extract"], ["wad-list"], ["skn-extract"], ["bin-dump"], ["files"], ["files", *S], ["download", *S], ["versions", *S], ["wad-extract", "-u", "maybe", "a.wad"],
                                     ["wad-extract", "a.wad", "sub/b.wad.client"], ["wad-extract", "--nosuch", "a.wad"], ["wad-extract", "a.wad", "-o"], ["export", *S, "--previous"], ["bin-dump", "d.bin", "-x"],
                                     ["export", *S, "9.3", "9.2"], ["files", *S, "patch=9.3", "patch=9.2"], ["wad-list", "-o", "new", "a.wad"], ["fetch-hashes", "x"], ["versions", *S, "patch", "game"],
                                     ["download", *S, "--no-lang=1", "patch=9.3"], ["skn-extract", "m.skn", "d.bin"], ["--nosuch", "wad-list", "a.wad"], ["files", "--patchline", "beta", "patch=9.3"]]))
        argv = list(argv)
    elif k == "guess":
        argv = ["hashes-guess", *S] + pick([], ["-m", "nosuch", "a.wad"], ["-m", "ext"], ["-n"], ["-m", "ext,nosuch,grep", "sub/b.wad.client"], ["-n", "-m", "nosuch", "patch=9.3"])
        tell = "nosuch" if any("nosuch" in a for a in argv) else None
    elif k == "patchline":
        argv = [pick("files", "download"), *S, "--patchline", pick("pbe", "live"), "patch=9.3"]
    elif k == "hashes":
        argv = ["fetch-hashes"]
    elif k == "none":
        argv = pick([], ["-h"], ["wad-extract", "-h"], ["export", "--help"])
    else:
        argv = list(draw(st.sampled_from([["wad-list", "a.wad"], ["wad-list", "-H", "text.txt", "noext"], ["wad-extract", "a.wad"], ["wad-extract", "-o", "new", "-H", "text.txt", "noext"], ["wad-extract", "-o", "out", "a.wad"], ["skn-extract", "m.skn"],
                                          ["bin-dump", "d.bin"], ["bin-dump", "-j", "d.bin"], ["files", *S, "patch=9.3"], ["files", *S, "game="], ["download", *S, "patch=9.3", "patch=9.4", "client=9.2"], ["versions", *S, "game"],
                                          ["export", *S, "-o", "new", "--full", "9.3"], ["export", *S, "-o", "new", "--previous", "9.2", "9.3"], ["export", *S, "-o", "new", "9.3"]])))
    return dict(kind=k, argv=head + argv, tell=tell)


def check(case, ctx):
    root = ctx.tmp()
    work = f"{root}/work"
    wad = patchgen.wad_bytes([("assets/a.txt", b"content", 3), ("data/b.json", b"{}", 0)])
    skn = skngen.build_skn(dict(major=1, minor=0, submeshes=[dict(name="Body", vertices=[((0, 0, 0), (0, 0), (0, 0, 0))], faces=[(0, 0, 0)])]))
    binfile = bingen.build_bin(dict(version=3, patch=False, linked=["x"], entries=[]), 1502)
    content = dict(wad=wad, skn=skn, bin=binfile, text=b"0123456789abcdef some/path.txt\n")
    ref.write_tree(work, {p: content[t] for p, t in FILES.items()})
    for d in DIRS:
        os.makedirs(f"{work}/{d}", exist_ok=True)
    patchgen.set_hashes(game=["assets/a.txt"], lcu=["data/b.json"])
    for hf, n in ((H.hashfile_game, "game"), (H.hashfile_lcu, "lcu")):
        hf.filename = f"{root}/{n}.txt"
    elements = []
    for v in LISTED:
        for name in ("game", "client"):
            with open(f"{root}/{name}{v}.txt", "w") as f:
                f.write(v)
            elements.append((patchgen.FakeElement(name, PatchVersion(v), [(f"{root}/{name}{v}.txt", f"{name}.txt", None)]), v in STORED))
    ListStorage.current = elements
    before = ref.read_tree(root)
    cdn = CDN()
    cwd = os.getcwd()
    patches = [mock.patch.object(cdtb_main, "default_hash_dir", Path(cdtb_main.__file__).parent)] if case["kind"] == "hashes" else []
    with cdn.installed():
        os.chdir(work)
        try:
            for p in patches:
                p.start()
            try:
                rc, out, err = run_cli(case["argv"])
            except Exception as e:
                expect(False, f"{case['argv']} failed instead of being refused: {type(e).__name__}: {e}")
        finally:
            for p in patches:
                p.stop()
            os.chdir(cwd)
    after = ref.read_tree(root)
    downloaded = [repr(e) for e, _ in elements if e.downloaded]
    what = f"{case['argv']}"
    if case["kind"] == "ok":
        eq(rc, 0, f"status of {what} ({err[-300:]})")
    elif case["kind"] == "none":
        eq((rc, after), (0, before), f"status and files after {what}")
        expect("usage" in out, "help is not displayed")
    else:
        eq(rc, 2, f"status of {what} ({err[-300:]})")
        eq(out, "", f"output of {what}")
        expect("usage" in err and "error:" in err, f"{what} does not tell a usage error: {err[-300:]}")
        eq(after, before, f"files after {what}")
        eq(downloaded, [], f"downloads of {what}")
        eq(cdn.log, [], f"requests of {what}")
        if case["tell"] is not None:
            expect(case["tell"] in err.split("error:", 1)[1], f"{what}: the error does not tell what is wrong: {err.split('error:', 1)[1]!r}")
    ctx.label(case["kind"])
    ctx.nontrivial(rc == 2)


SUBS = [
    Sub("refused", cases, check, 4800, 20000, "the command is refused", shards=6),
]
