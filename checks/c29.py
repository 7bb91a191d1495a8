"""C29 Storage settings select the described storage"""
import importlib.util
import json
import os
import sys
from hypothesis import strategies as st
from vp.cdn import CDN
from vp.cli import run_cli
from vp.core import Sub, eq, expect, short
import cdtb.hashes
from cdtb.storage import Storage, storage_conf_from_path, load_storage_conf
from cdtb.patcher import PatcherStorage
from cdtb.rads import RadsStorage

ASSUMPTIONS = ["paths have no symbolic links", "texts of settings are not empty"]

RADS_URLS = {"default": "http://l3cdn.riotgames.com/releases/live/", "kr": "http://l3cdn.riotgames.com/KR_CBT/", "pbe": "http://l3cdn.riotgames.com/releases/pbe/"}
PATCHER_URL = "https://lol.dyn.riotcdn.net/"
ABSENT = "absent"


class OtherStorage(Storage):
    """Storage type of a user"""
    storage_type = "vpother"

    @classmethod
    def from_conf_data(cls, conf):
        self = cls(conf["path"], "http://127.0.0.1:9/")
        self.conf = dict(conf)
        return self

    def patch_elements(self, stored=False):
        yield from ()


# --- generation

def confs(bad=True):
    kinds = ["patcher"] * 4 + ["rads"] * 3 + ["vpother"] + (["unknown", None, "nojson"] if bad else [])

    @st.composite
    def build(draw):
        t = draw(st.sampled_from(kinds))
        if t == "nojson":
            return "nojson"
        c = {} if t is None else {"type": {"unknown": draw(st.sampled_from(["nosuch", "Patcher", "patch", "PatcherStorage"]))}.get(t, t)}
        c["path"] = draw(st.sampled_from([ABSENT, "cdn", ".", "../x", "a/b/../c", "./d/", "{root}/abs", "{root}/abs/../other/", "..", "a b", "{root}/file.conf/..", "é", "~/x", "~", "$HOME/x", "%HOME%"]))
        if t == "patcher":
            c.update(patchline=draw(st.sampled_from([ABSENT, "live", "pbe"])), use_extract_symlinks=draw(st.sampled_from([ABSENT, True, False])), clientconfig_data=draw(st.sampled_from([ABSENT, "data.json", "https://127.0.0.1:9/x"])))
        elif t == "rads":
            c.update(url=draw(st.sampled_from([ABSENT, ABSENT, "http://127.0.0.1:9/a/"])), cdn=draw(st.sampled_from([ABSENT, ABSENT, "default", "kr", "pbe"] + ["nosuch"] * bad)))
        else:
            c["extra"] = draw(st.sampled_from([ABSENT, [1, {"a": None}]]))
        return {k: v for k, v in c.items() if v != ABSENT}
    return build()


# what exists on disk, and how it is given
@st.composite
def places(draw):
    kind = draw(st.sampled_from(["file", "file", "dirconf", "dirconf", "channels", "channels+conf", "plaindir", "typed", "typed", "plain", "channelsfile"]))
    p = dict(kind=kind)
    if kind in ("file", "dirconf", "channels+conf"):
        p["conf"] = draw(confs())
    if kind == "typed":
        p["type"] = draw(st.sampled_from(["patcher", "rads", "vpother", "nosuch", "Rads"]))
    p["name"] = draw(st.sampled_from(["store", "a b", "x/y", "rads:st", "patcher:z", "é", "s.conf", "x:y", "~", "$HOME", "."] if kind != "typed" else ["store", "x/y", "C:/z", "a:b", "../up", "{root}/w", "~/x", "$HOME"]))
    if kind in ("file", "typed", "plain") and p["name"] == ".":
        p["name"] = "store"
    if kind == "plain" and ":" in p["name"]:
        p["name"] = "other"
    p["absolute"] = draw(st.booleans())
    p["slash"] = draw(st.booleans())
    return p


@st.composite
def cases(draw):
    return dict(place=draw(places()), api=draw(st.sampled_from(["from_path", "conf", "cli", "cli", "cli"])),
                env=draw(st.sampled_from([None, None, "same", "other"])), patchline=draw(st.sampled_from([None, None, None, None, "live", "pbe", "pbe", "nosuch"])), other=draw(places()), cwd=draw(st.sampled_from([".", "w"])))


# --- model

class Refused(Exception):
    pass


def write_place(root, cwd, p):
    """Create the place, return the text that designates it"""
    name = p["name"].replace("{root}", root)
    if p["kind"] == "typed":
        return f"{p['type']}:{name}"
    full = os.path.normpath(os.path.join(cwd, name))
    given = full if p["absolute"] else name
    if p["kind"] == "plain":
        return given
    if p["kind"] == "file":
        os.makedirs(os.path.dirname(full), exist_ok=True)
        write_conf(root, full, p["conf"])
        return given
    os.makedirs(full, exist_ok=True)
    if p["kind"] in ("channels", "channels+conf"):
        os.makedirs(full + "/channels/public", exist_ok=True)
    if p["kind"] == "channelsfile":
        with open(full + "/channels", "w"):
            pass
    if p["kind"] in ("dirconf", "channels+conf"):
        write_conf(root, full + "/cdtb.storage.conf", p["conf"])
    return given + ("/" if p["slash"] else "")


def conf_value(root, conf):
    return {k: v.replace("{root}", root) if isinstance(v, str) else v for k, v in conf.items()}


def write_conf(root, path, conf):
    with open(path, "w", encoding="utf-8") as f:
        f.write('{"type": "patcher",' if conf == "nojson" else json.dumps(conf_value(root, conf)))


def described(root, cwd, p):
    """Settings described by a place: type, absolute path, options"""
    name = p["name"].replace("{root}", root)
    full = os.path.normpath(os.path.join(cwd, name))
    kind = p["kind"]
    if kind == "typed":
        if p["type"] not in ("patcher", "rads", "vpother"):
            raise Refused(f"unknown type {p['type']}")
        return dict(type=p["type"], path=full)
    if kind in ("plain", "channels"):
        return dict(type="patcher", path=full)
    if kind in ("plaindir", "channelsfile"):
        raise Refused("unrecognisable directory")
    conf = p["conf"]
    if conf == "nojson":
        raise Refused("not a configuration")
    conf = conf_value(root, conf)
    if conf.get("type") not in ("patcher", "rads", "vpother"):
        raise Refused("no type, or unknown")
    if "url" in conf and "cdn" in conf:
        raise Refused("url and cdn")
    if conf.get("cdn") == "nosuch":
        raise Refused("unknown cdn")
    base = os.path.dirname(full) if kind == "file" else full
    return dict(conf, path=os.path.normpath(os.path.join(base, conf.get("path", "."))))


def verify(storage, want, cwd, what):
    cls = {"patcher": PatcherStorage, "rads": RadsStorage, "vpother": OtherStorage}[want["type"]]
    eq(type(storage), cls, f"storage of {what}")
    eq(os.path.normpath(os.path.join(cwd, storage.path)), want["path"], f"path of the storage of {what}")
    eq(os.path.normpath(os.path.join(cwd, storage.fspath("x/y"))), want["path"] + "/x/y", f"path of a file in the storage of {what}")
    if want["type"] == "patcher":
        eq(dict(patchline=storage.patchline, links=bool(storage.use_extract_symlinks), data=storage.clientconfig_data, url=storage.url),
           dict(patchline=want.get("patchline", "live"), links=want.get("use_extract_symlinks", True), data=want.get("clientconfig_data"), url=PATCHER_URL), f"options of {what}")
    elif want["type"] == "rads":
        eq(storage.url, want["url"] if "url" in want else RADS_URLS[want.get("cdn", "default")], f"url of {what}")
    else:
        eq(storage.conf.get("extra"), want.get("extra"), f"options of {what}")


def check(case, ctx):
    root = ctx.tmp()
    cwd = os.path.normpath(f"{root}/{case['cwd']}")
    os.makedirs(cwd, exist_ok=True)
    p = case["place"]
    other = case["other"] if case["env"] == "other" and case["api"] == "cli" else None
    if other is not None and (other["name"] == p["name"] or other["name"] == "." or p["name"] == "." or {"x/y", "x:y"} & {p["name"]}):
        other = dict(kind="typed", type="rads", name="envstore", absolute=False, slash=False)
    old_cwd, old_env = os.getcwd(), os.environ.pop("CDTB_STORAGE", None)
    os.chdir(cwd)
    try:
        text = write_place(root, cwd, p)
        try:
            want = described(root, cwd, p)
        except Refused as e:
            want = None
            why = str(e)
        what = f"{text!r} ({p})"
        if case["api"] in ("from_path", "conf"):
            def make():
                if case["api"] == "from_path":
                    return Storage.from_path(text)
                if p["kind"] == "file":
                    conf = load_storage_conf(text)
                else:
                    conf = storage_conf_from_path(text)
                if conf is None:
                    raise ValueError(text)
                if want is not None:
                    eq({k: v for k, v in conf.items() if k != "path"}, {k: v for k, v in want.items() if k != "path"}, f"configuration of {what}")
                    eq(os.path.normpath(os.path.join(cwd, conf["path"])), want["path"], f"path of the configuration of {what}")
                return Storage.from_conf(conf)
            if want is None:
                refused(make, what, why)
                ctx.label("refused")
                return
            verify(make(), want, cwd, what)
            ctx.label(want["type"])
            ctx.nontrivial(len(want) > 2)
            return
        # command line
        argv = ["versions", "patch"]
        if case["env"] is not None:
            os.environ["CDTB_STORAGE"] = text if other is None else write_place(root, cwd, other)
        if case["env"] != "same":
            argv += ["-s" if case["cwd"] == "." else "--storage", text]
        if case["patchline"] is not None:
            argv += ["--patchline", case["patchline"]]
        run_and_verify(argv, want, case["patchline"], cwd, f"{what}, {argv[2:]}, CDTB_STORAGE={os.environ.get('CDTB_STORAGE')!r}", ctx)
    finally:
        os.chdir(old_cwd)
        os.environ.pop("CDTB_STORAGE", None)
        if old_env is not None:
            os.environ["CDTB_STORAGE"] = old_env


def refused(make, what, why):
    try:
        s = make()
    except Exception:
        return
    expect(False, f"{what} is accepted ({short(s)}), although: {why}")


def run_and_verify(argv, want, patchline, cwd, what, ctx):
    used = []

    def record(self, stored=False):
        used.append(self)
        yield from ()
    olds = [(c, c.__dict__["patch_elements"]) for c in (PatcherStorage, RadsStorage, OtherStorage)]
    for c, _ in olds:
        c.patch_elements = record
    try:
        with CDN().installed():
            try:
                rc = run_cli(argv)[0]
            except Exception:
                rc = "exception"
    finally:
        for c, f in olds:
            c.patch_elements = f
    if patchline == "nosuch" or (patchline is not None and want is not None and want["type"] != "patcher"):
        eq(rc, 2, f"exit status of {what}: patchline not supported")
        eq(len(used), 0, f"storages used by {what}")
        ctx.label("patchline-refused")
        return
    if want is None:
        expect(rc not in (0, None), f"{what} is accepted")
        eq(len(used), 0, f"storages used by {what}")
        ctx.label("refused")
        return
    eq(rc, 0, f"exit status of {what}")
    eq(len(used), 1, f"number of storages used by {what}")
    if patchline is not None:
        want = dict(want, patchline=patchline)
        ctx.label("patchline")
    verify(used[0], want, cwd, what)
    ctx.label("cli-" + want["type"])
    ctx.nontrivial(len(want) > 2)


# --- no storage given

@st.composite
def default_cases(draw):
    return dict(patchline=draw(st.sampled_from([None, "live", "pbe", "nosuch"])), command=draw(st.sampled_from(["versions patch", "versions game", "files patch=", "download patch=", "export latest", "hashes-guess patch="])))


def check_default(case, ctx):
    cwd = ctx.tmp()
    old_cwd, old_env = os.getcwd(), os.environ.pop("CDTB_STORAGE", None)
    os.chdir(cwd)
    try:
        argv = case["command"].split()
        if case["patchline"] is not None:
            argv += ["--patchline", case["patchline"]]
        used = []

        def record(self, stored=False):
            used.append(self)
            yield from ()
        old = PatcherStorage.__dict__["patch_elements"]
        PatcherStorage.patch_elements = record
        try:
            with CDN().installed():
                try:
                    rc = run_cli(argv)[0]
                except FileNotFoundError:
                    rc = "exception"   # no hash lists
        finally:
            PatcherStorage.patch_elements = old
        if case["patchline"] == "nosuch":
            eq(rc, 2, f"exit status of {argv}")
            return
        eq(len(used) >= 1, True, f"the default storage is used by {argv}")
        for s in used:
            verify(s, dict(type="patcher", path=cwd + "/cdn", patchline=case["patchline"] or "live"), cwd, f"{argv} without storage")
        ctx.nontrivial(case["patchline"] == "pbe")
    finally:
        os.chdir(old_cwd)
        if old_env is not None:
            os.environ["CDTB_STORAGE"] = old_env


# --- hash directory

VALUES = st.sampled_from([None, None, None, None, None, "", "", "{root}/a", "{root}/b b", "{root}/c/", "rel/d", ".", "{root}/é"])


@st.composite
def hash_cases(draw):
    return dict(env={k: draw(VALUES) for k in ("CDTB_HASHES_DIR", "CDRAGON_DATA", "XDG_DATA_HOME", "LOCALAPPDATA")}, exists=draw(st.lists(st.sampled_from(["CDTB_HASHES_DIR", "CDRAGON_DATA", "XDG_DATA_HOME", "LOCALAPPDATA", "HOME"]), max_size=5)))


def check_hash_dir(case, ctx):
    root = ctx.tmp()
    home = f"{root}/home"
    os.makedirs(home)
    env = {k: v.replace("{root}", root) for k, v in case["env"].items() if v is not None}
    names = ["CDTB_HASHES_DIR", "CDRAGON_DATA", "XDG_DATA_HOME", "LOCALAPPDATA", "HOME"]
    sub = {"CDTB_HASHES_DIR": "", "CDRAGON_DATA": "hashes/lol", "XDG_DATA_HOME": "cdragon/data/hashes/lol", "LOCALAPPDATA": "cdragon/data/hashes/lol", "HOME": ".local/share/cdragon/data/hashes/lol"}
    old, old_cwd = {k: os.environ.get(k) for k in names}, os.getcwd()
    for k in names:
        os.environ.pop(k, None)
    os.environ.update(env, HOME=home)
    os.chdir(home)
    try:
        for k in case["exists"]:
            if os.environ.get(k):
                os.makedirs(os.path.join(home, os.environ[k], sub[k]), exist_ok=True)
        if env.get("XDG_DATA_HOME") and not os.path.isabs(env["XDG_DATA_HOME"]):
            usable = [k for k in names if os.environ.get(k) and k != "XDG_DATA_HOME"]
        else:
            usable = [k for k in names if os.environ.get(k)]
        want = os.path.normpath(os.path.join(home, os.environ[usable[0]], sub[usable[0]]))
        module = fresh_module()
        got = os.path.normpath(os.path.join(home, module.default_hash_dir))
        eq(got, want, f"hash directory for {env}, HOME={home}")
        eq({os.path.normpath(os.path.join(home, module.default_hashfile(n).filename)) for n in ("a/b.wad", "a/b.wad.client")}, {want + "/hashes.lcu.txt", want + "/hashes.game.txt"}, f"default lists for {env}")
        eq(os.path.basename(module.default_hashfile("x/assets.wad").filename), "hashes.lcu.txt", "list of LCU archives")
        eq(os.path.basename(module.default_hashfile("Ahri.wad.client").filename), "hashes.game.txt", "list of game archives")
        ctx.label(usable[0])
        ctx.nontrivial(len(usable) > 2)
    finally:
        os.chdir(old_cwd)
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def fresh_module():
    """The hashes module, as loaded by a new process"""
    spec = importlib.util.spec_from_file_location("cdtb.vp_hashes", cdtb.hashes.__file__)
    module = importlib.util.module_from_spec(spec)
    try:
        sys.modules["cdtb.vp_hashes"] = module
        spec.loader.exec_module(module)
    finally:
        del sys.modules["cdtb.vp_hashes"]
    return module


SUBS = [Sub("settings", cases, check, quick=5000, thorough=60000, rule="the storage has options beyond type and path"),
        Sub("default", default_cases, check_default, quick=100, thorough=1000, rule="a patchline other than the default is requested"),
        Sub("hash-dir", hash_cases, check_hash_dir, quick=1500, thorough=20000, rule="at least three directories are configured")]
