"""C25 Release tracking records every new release once, latest first"""
import json
import os
from hypothesis import strategies as st
from vp import ref, rmangen
from vp import patcherkit as K
from vp.cli import run_cli
from vp.core import Sub, eq, expect, raises
from cdtb.patcher import PatcherStorage, PatcherPatchElement, PatcherRelease

ASSUMPTIONS = ["the clock advances between two updates that record a release", "foreign files do not have the form of a release (a directory named by a number with a release.json)", "version files follow the formats quoted in the code"]

CLIENT_TEXTS = ["branch: 'Releases/{v}'\n", "x: 1\n    game-branch: \"{v}\"\n    branch: '1.1'\n", "keystone:\n  # branch: '1.2'\n  abranch: '1.3'\n  branch: master\n  branch: Release/{v}\n", "branch: 'Releases/{v}.0'\n"]
GAME_TEXTS = ['{{"version": "{v}.512.3387+branch.releases-9-9.code.public.content.release.anticheat.vanguard"}}', '{{"other": "1.1.1", "version": "{v}.1"}}']


@st.composite
def cases(draw):
    versions = sorted(draw(st.lists(st.tuples(st.integers(8, 14), st.sampled_from([1, 2, 9, 10, 11, 24])), min_size=1, max_size=4)))
    n = len(versions)
    ops = []
    pos = 0
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.integers(0, 13))
        if k <= 3:
            back = draw(st.integers(0, 5)) == 0
            ops.append(("publish", draw(st.integers(0, n - 1)) if back else min(pos, n - 1), draw(st.integers(0, n - 1)) if back else min(pos, n - 1), draw(st.sampled_from(["both", "both", "client", "game"])), draw(st.integers(0, 1))))
            pos += draw(st.integers(0, 1))
        elif k <= 7:
            ops.append(("check", draw(st.sampled_from(["fetch", "fetch", "elements", "patches", "command"])), draw(st.integers(1, 1000))))
        elif k == 8:
            ops.append(("foreign", draw(st.sampled_from(["notes.txt", "backup", "latest", "12.5", "files", "abc123", "123", "456", "-x", "1600000000.old", "9999999999"])), draw(st.booleans())))
        elif k == 9:
            ops.append(("partial", draw(st.sampled_from(["client", "game", "null", "none"])), draw(st.integers(0, n - 1)), draw(st.integers(1, 500))))
        elif k == 10:
            ops.append(("failure", draw(st.sampled_from(["client", "game", "region"]))))
        elif k == 11:
            ops.append(("reopen",))
        else:
            ops.append(("full", draw(st.integers(0, 2)), draw(st.sampled_from(["open", "write"])), draw(st.integers(1, 500))))
    return dict(versions=versions, ops=ops, start=draw(st.sampled_from([1600000000, 999999990, 999999600, 99999])), patchline=draw(st.sampled_from(["live", "live", "pbe"])), source=draw(st.sampled_from(["default", "default", "file", "url", "missing-file"])),
                forms=[(draw(st.integers(0, len(CLIENT_TEXTS) - 1)), draw(st.integers(0, len(GAME_TEXTS) - 1))) for _ in versions], layout=draw(rmangen.layouts()), symlinks=draw(st.booleans()))


def check(case, ctx):
    live = case["patchline"] == "live"
    srv = K.Servers(case["patchline"])
    cdn = srv.cdn
    urls = {}
    canonical = {}
    for i, v in enumerate(case["versions"]):
        text = f"{v[0]}.{v[1]}"
        for elem, name, data in (("client", "system.yaml", CLIENT_TEXTS[case["forms"][i][0]].format(v=text).encode()), ("game", "content-metadata.json", GAME_TEXTS[case["forms"][i][1]].format(v=text).encode())):
            files = [dict(path=name, chunks=[data], langs=[], link=None), dict(path=f"{elem}{i}.bin", chunks=[b"%d" % i], langs=["en_us"], link=None)]
            manifest, bundles = K.build_element(files, ["en_us"], [[data], [b"%d" % i]], case["layout"])
            urls[elem, i, 0] = srv.add(manifest, bundles, 0)
            urls[elem, i, 1] = K.manifest_url(manifest, 1)
            canonical[urls[elem, i, 0]] = canonical[urls[elem, i, 1]] = (elem, text if live else "main", K.manifest_id(manifest))
    srv.client, srv.game = urls["client", 0, 0], urls["game", 0, 0]
    clock = K.Clock()
    clock.now = case["start"]
    d = ctx.tmp()
    root = os.path.join(d, "cdn")
    base = os.path.join(root, "cdtb/releases", case["patchline"])

    conf_path = os.path.join(d, "config.json")

    def publish_config():
        if case["source"] == "file":
            with open(conf_path, "wb") as f:
                f.write(srv._config(None))

    def config_url():
        return "http://mirror.test/conf.json" if case["source"] == "url" else K.CLIENTCONFIG

    cdn.routes["http://mirror.test/conf.json"] = srv._config

    def conf_data():
        conf = dict(type="patcher", path=root, patchline=case["patchline"], use_extract_symlinks=case["symlinks"])
        if case["source"] == "file":
            conf["clientconfig_data"] = conf_path
        elif case["source"] == "url":
            conf["clientconfig_data"] = "http://mirror.test/conf.json"
        return conf

    def open_storage():
        return PatcherStorage.from_conf_data(conf_data())

    model = []     # [(timestamp, {elem: url})], oldest first
    foreign = {}
    checked = retrieved = failures = 0
    with cdn.installed(), clock.installed():
        publish_config()
        storage = open_storage()
        eq(list(storage.iter_releases()), [], "releases of an empty storage")
        for op in case["ops"]:
            where = f"after {op}"
            if op[0] == "publish":
                if op[3] in ("both", "client"):
                    srv.client = urls["client", op[1], op[4]]
                if op[3] in ("both", "game"):
                    srv.game = urls["game", op[2], op[4]]
                publish_config()
            elif op[0] == "check":
                clock.now += op[2]
                new = dict(client=srv.client, game=srv.game)
                if not model or model[-1][1] != new:
                    model.append((clock.now, new))
                    checked += 1
                mark = len(cdn.log)
                if op[1] == "fetch":
                    storage.fetch_latest_update()
                elif op[1] == "elements":
                    compare_elements(list(storage.patch_elements()), model, canonical, where)
                    retrieved += 1
                elif op[1] == "patches":
                    got = [str(p.version) for p in storage.patches()]
                    compare_patches(got, model, canonical, f"patches {where}")
                else:
                    conf = os.path.join(d, "cdtb.storage.conf")
                    with open(conf, "w") as f:
                        json.dump(conf_data(), f)
                    rc, out, _ = run_cli(["versions", "-a", "-s", conf, "patch"])
                    eq(rc, 0, f"exit status of versions {where}")
                    compare_patches(out.split(), model, canonical, f"command output {where}")
                wanted = 0 if case["source"] == "file" else 1
                eq(sum(u.split("?")[0] == config_url() for u in cdn.urls()[mark:]), wanted, f"requests of the client configuration {where}")
            elif op[0] == "full":
                # a file cannot be written: the release is recorded or not
                clock.now += op[3]
                new = dict(client=srv.client, game=srv.game)
                recorded = not model or model[-1][1] != new
                with K.failing_writes(root, op[1], op[2]) as faults:
                    try:
                        storage.fetch_latest_update()
                    except OSError:
                        expect(faults.failed, f"error {where}")
                        failures += 1
                        recorded = recorded and clock.now in [int(r.version) for r in storage.iter_releases()]
                if recorded:
                    model.append((clock.now, new))
            elif op[0] == "foreign":
                name = op[1]
                if name in foreign or any(str(t) == name for t, _ in model):
                    continue
                foreign[name] = True
                if op[2]:
                    ref.write_tree(base, {name: b"foreign"})
                else:
                    ref.write_tree(base, {f"{name}/data.txt": b"foreign"})
            elif op[0] == "partial":
                # release recorded with a single element
                clock.now += op[3]
                data = {}
                info = {}
                for elem in ("client", "game"):
                    if op[1] == elem or op[1] == "null":
                        info[elem] = data[f"{elem}_patch_url"] = urls[elem, op[2], 0]
                if op[1] == "null":
                    data["game_patch_url"] = None
                    del info["game"]
                ref.write_tree(base, {f"{clock.now}/release.json": json.dumps(data).encode(), "latest.timestamp": b"%d\n" % clock.now})
                model.append((clock.now, info))
            elif op[0] == "failure":
                clock.now += 1
                before = ref.read_tree(root) if os.path.isdir(root) else {}
                if op[1] == "region":
                    good = srv._config
                    bad = json.dumps(K.client_config([("NA", "https://x.test/")], case["patchline"])).encode()
                    if case["source"] == "file":
                        with open(conf_path, "wb") as f:
                            f.write(bad)
                    else:
                        saved = cdn.routes[config_url()]
                        cdn.routes[config_url()] = bad
                    raises(Exception, storage.fetch_latest_update, f"update without configuration {where}")
                    if case["source"] == "file":
                        publish_config()
                    else:
                        cdn.routes[config_url()] = saved
                elif op[1] == "client" and case["source"] != "file":
                    saved = cdn.routes[config_url()]
                    cdn.routes[config_url()] = 503
                    raises(Exception, storage.fetch_latest_update, f"update with failed request {where}")
                    cdn.routes[config_url()] = saved
                else:
                    url = K.SIEVE + ("EUW1" if live else "PBE1")
                    saved = cdn.routes[url]
                    cdn.routes[url] = 403
                    raises(Exception, storage.fetch_latest_update, f"update with failed request {where}")
                    cdn.routes[url] = saved
                eq(ref.read_tree(root) if os.path.isdir(root) else {}, before, f"storage {where}")
            else:
                storage = open_storage()
            # recorded releases
            mark = len(cdn.log)
            rels = list(storage.iter_releases())
            eq([int(r.version) for r in rels], [t for t, _ in model[::-1]], f"recorded releases {where}")
            for r, (t, info) in zip(rels, model[::-1]):
                eq({e.name: e.manif_url for e in r.elements()}, info, f"elements of release {t} {where}")
                eq(sorted(r.available_elements()), sorted(info), f"available elements of release {t} {where}")
                for name in ("game", "client"):
                    e = r.element(name)
                    eq(e and e.manif_url, info.get(name), f"element {name} of release {t} {where}")
            expect(len(cdn.log) == mark, f"requests when listing releases {where}")
            for name in foreign:
                expect(os.path.lexists(os.path.join(base, name)), f"foreign file {name} removed {where}")

        # versions, without and with cache
        stored = list(storage.patch_elements(stored=True))
        compare_elements(stored, model, canonical, "stored")
        mark = len(cdn.log)
        if live and stored:
            # versions are remembered, even without the files
            for e in stored:
                for f in ("system.yaml", "content-metadata.json"):
                    p = os.path.join(e.elem.release.storage_dir, "files", f)
                    if os.path.lexists(p):
                        os.remove(p)
        cdn.routes.clear()
        compare_elements(list(open_storage().patch_elements(stored=True)), model, canonical, "with remembered versions")
        expect(len(cdn.log) == mark, f"requests when versions are known: {cdn.urls()[mark:]}")
        if not live:
            expect(not any("/bundles/" in u for u in cdn.urls()), "PBE version read from files")
    ctx.label(case["patchline"], case["source"], f"releases{min(len(model), 4)}")
    if failures:
        ctx.label("failed write")
    ctx.nontrivial(checked > 1)


def compare_patches(got, model, canonical, where):
    """Each version once, latest first, unless the version of a component went back"""
    number = lambda v: (10 ** 9,) if v == "main" else tuple(map(int, v.split(".")))
    seqs = [[canonical[info[name]][1] for _, info in model[::-1] if name in info] for name in ("game", "client")]
    versions = set(seqs[0] + seqs[1])
    if all(number(a) >= number(b) for seq in seqs for a, b in zip(seq, seq[1:])):
        eq(got, sorted(versions, key=number, reverse=True), where)
    else:
        eq(set(got), versions, where)


def compare_elements(elems, model, canonical, where):
    want = [canonical[info[name]] + (t,) for t, info in model[::-1] for name in ("game", "client") if name in info]
    got = [(e.name, str(e.version), e.elem.release.version) for e in elems]
    # order of elements in a release is not specified
    eq(sorted(got, key=lambda x: (-x[2], x[0])), sorted([(n, v, t) for n, v, _, t in want], key=lambda x: (-x[2], x[0])), f"elements {where}")
    for name in ("game", "client"):
        mine = [g[2] for g in got if g[0] == name]
        eq(mine, sorted(mine, reverse=True), f"order of {name} elements {where}")


# --- URLs of manifests

def url_cases():
    hexid = st.integers(0, 2 ** 64 - 1)
    form = st.sampled_from(["plain", "plain", "secure", "secure", "id", "lower", "short", "long", "bundle", "host", "http", "query", "path", "nested", "empty", "prefix", "noext", "suffix"])
    return st.tuples(hexid, form, st.booleans())


def check_url(case, ctx):
    n, form, again = case
    name = f"{n:016X}"
    path = f"channels/public/releases/{name}.manifest"
    b = K.BASE
    text = dict(plain=b + path, secure=b.replace("lol.", "lol.secure.") + path, id=n, lower=b + path.replace(name, "abcdef" + name[6:].lower()), short=b + path.replace(name, name[1:]), long=b + path.replace(name, name + "0"),
                bundle=b + path.replace(".manifest", ".bundle"), host="https://evil.test/" + path, http=b.replace("https", "http") + path, query=b + path + "?x=1", path=b + path.replace("public", "private"),
                nested=b + "x/" + path, empty="", prefix="x" + b + path, noext=b + path[:-9], suffix=b + path + ".bak")[form]
    ok = form in ("plain", "secure", "id")
    srv = K.Servers()
    srv.cdn.routes[b + path] = b"data of " + name.encode()
    root = os.path.join(ctx.tmp(), "s")
    with srv.cdn.installed():
        storage = PatcherStorage(root)
        if ok:
            eq(storage.download_manifest(text), path, f"local path of {text}")
            eq(storage.download_manifest(n if again else b + path), path, "local path, asked again")
            eq(ref.read_tree(root), {path: b"data of " + name.encode()}, "storage")
            eq(srv.cdn.urls(), [b + path], "requests")
        else:
            raises(ValueError, lambda: storage.download_manifest(text), f"manifest URL {text}")
            expect(not srv.cdn.log and not os.path.exists(root), "unexpected URL requested or stored")
            ctx.nontrivial()
    ctx.label(form)


SUBS = [
    Sub("history", cases, check, 3000, 30000, "at least two releases are recorded by update checks"),
    Sub("urls", url_cases, check_url, 1800, 10000, "the URL is refused"),
]
