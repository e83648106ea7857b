"""C23: the same enumeration on this machine (little-endian, 64 bits), on wasm32 (little-endian, 32 bits, compiled
and run by node) and, interpreted by Miri, on s390x (big-endian, 64 bits); thorough also on i686 and powerpc
(big-endian, 32 bits)."""
import os, shutil, subprocess
from . import common, probes
from .probes import FEATURES

PLAT = os.path.join(common.BUILD, "plat")
FLAGS = ",".join(probes.FLAG[f] for f in FEATURES)
MIRIFLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-disable-isolation -Zmiri-disable-data-race-detector -Zmir-opt-level=3 -Zinline-mir=yes"
TARGETS = {"quick": ["s390x-unknown-linux-gnu"], "thorough": ["s390x-unknown-linux-gnu", "i686-unknown-linux-gnu", "powerpc-unknown-linux-gnu"]}
SAY = {"s390x-unknown-linux-gnu": "s390x (big-endian, 64 bits)", "i686-unknown-linux-gnu": "i686 (little-endian, 32 bits)", "powerpc-unknown-linux-gnu": "powerpc (big-endian, 32 bits)"}
WASM = "wasm32-unknown-unknown"


def sh(cmd, cwd, extra, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=common.env(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    return p


def must(p, what):
    if p.returncode != 0:
        raise common.CheckError("%s failed: %s" % (what, (p.stdout + p.stderr)[-2500:]))
    return p


# ---- a standard library for each platform

def miri_env(target):
    return {"XDG_CACHE_HOME": os.path.join(PLAT, "cache-" + target), "CARGO_TARGET_DIR": os.path.join(PLAT, "miri-" + target), "MIRIFLAGS": MIRIFLAGS}


def miri_sysroot(target):
    must(sh(["cargo", "+nightly", "miri", "setup", "--target", target], probes.CRATE, miri_env(target)), "miri setup for " + target)


def wasm_sysroot():
    root = os.path.join(PLAT, "wasm-sysroot")
    lib = os.path.join(root, "lib", "rustlib", WASM, "lib")
    ver = must(sh(["rustc", "+nightly", "-vV"], PLAT, {}), "rustc +nightly").stdout
    stamp = os.path.join(root, "version")
    if os.path.exists(stamp) and open(stamp).read() == ver:
        return root
    shutil.rmtree(root, ignore_errors=True)
    src = must(sh(["rustc", "+nightly", "--print", "sysroot"], PLAT, {}), "rustc +nightly").stdout.strip()
    vendor = os.path.join(src, "lib", "rustlib", "src", "rust", "library", "vendor")
    crate = os.path.join(PLAT, "stdonly")
    os.makedirs(os.path.join(crate, "src"), exist_ok=True)
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "stdonly"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[profile.release]\ndebug = 0\npanic = "unwind"\n')
    with open(os.path.join(crate, "src", "lib.rs"), "w") as f:
        f.write("\n")
    target = os.path.join(PLAT, "wasm-std")
    must(sh(["cargo", "+nightly", "build", "--offline", "-q", "-Zbuild-std=std,panic_unwind", "--target", WASM, "--release",
             "--config", 'source.crates-io.replace-with="v"', "--config", 'source.v.directory="%s"' % vendor], crate,
            {"CARGO_TARGET_DIR": target, "CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS": "-Cpanic=unwind"}), "building std for wasm32")
    os.makedirs(lib)
    for d, _, fs in os.walk(os.path.join(target, WASM)):
        for f in fs:
            if f.endswith((".rlib", ".rmeta")) and not f.startswith("libstdonly"):
                shutil.copy(os.path.join(d, f), lib)
    shutil.rmtree(target, ignore_errors=True)
    with open(stamp, "w") as f:
        f.write(ver)
    return root


# ---- the probes

def build_native(opt=1):
    t = os.path.join(PLAT, "native")
    p = probes.native(FEATURES, t, opt)
    if p.returncode != 0:
        raise common.CheckError("build failed: %s" % p.stderr[-3000:])
    return probes.Build("x86-64 (little-endian, 64 bits)", [os.path.join(t, "debug", "probe")], timeout=2000)


def build_wasm():
    root = wasm_sysroot()
    t = os.path.join(PLAT, "wasm")
    p = common.cargo(probes.CRATE, ["--bin", "probe", "--target", WASM, "--no-default-features", "--features", FLAGS], t,
                     {"CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS": "--sysroot %s -Cpanic=unwind -Clink-arg=-zstack-size=16777216" % root}, toolchain="nightly", ok_to_fail=True)
    w = os.path.join(t, WASM, "debug", "probe.wasm")
    b = probes.Build("wasm32 (little-endian, 32 bits)", ["node", os.path.join(common.VERIF, "engines", "probe.cjs"), w], timeout=2000, gb=64)
    return b, p


def build_miri(target):
    e = miri_env(target)
    miri_sysroot(target)
    common.fresh(e["CARGO_TARGET_DIR"])
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", target, "--no-default-features", "--features", FLAGS, "--bin", "probe", "--"]
    b = probes.Build(SAY[target], cmd, {**e, "RUSTFLAGS": "-Zmir-opt-level=3 -Zinline-mir=yes", "CARGO_TERM_COLOR": "never"}, timeout=780, gb=24, cwd=probes.CRATE)
    rc, o, err = b.run(["list", "--size", "0"])   # builds it
    return b, rc, err


def prepare():
    """what setup.py does ahead: the standard libraries and a first build"""
    os.makedirs(PLAT, exist_ok=True)
    common.parallel([build_native, build_wasm] + [lambda t=t: build_miri(t) for t in TARGETS["quick"]], 8)


def err(s):
    return " ".join(s[max(s.find("error"), 0):].split())[:900]


def compare(native, other, names, what, size, of, spaces, violations, base):
    parts = common.parallel([lambda k=k: probes.explore(other, names, size, "%d/%d" % (k, of)) for k in range(of)], 8)
    for n in names:
        s = probes.merge([p[n] for p in parts])
        spaces.append(probes.describe(n, what[n], other.name, s, []))
        if probes.outcome(s) != probes.outcome(base[n]):
            x = probes.explain(native, base[n], other, s, n, size)
            if x is None:
                raise common.CheckError("%s and %s differ in %s, but not when run again" % (native.name, other.name, n))
            violations.append({"space": n, "case": x[0], "label": "", "msg": x[1], "command": x[2], "build": other.name})
            return


def run(prop, tier):
    os.makedirs(PLAT, exist_ok=True)
    targets = TARGETS[tier]
    big = 1 if tier == "quick" else 2
    built = common.parallel([build_native, build_wasm] + [lambda t=t: build_miri(t) for t in targets], 8)
    native, (wasm, wp) = built[0], built[1]
    spaces, violations = [], []
    if wp.returncode != 0:
        violations.append({"space": "compilation", "case": [], "label": "", "command": "", "msg": "builds for x86-64 but not for wasm32: " + err(wp.stderr)})
    for t, (b, rc, e) in zip(targets, built[2:]):
        if rc != 0:
            if "unsupported operation" in e:
                raise common.CheckError("Miri: " + e[-1500:])
            violations.append({"space": "compilation", "case": [], "label": "", "command": "", "msg": "builds for x86-64 but not for %s: %s" % (t, err(e))})
    if violations:
        return {"spaces": [], "assumptions": [], "violations": violations}
    for size, others in ((big, [(wasm, 8)]), (0, [(b, 16) for b, _, _ in built[2:]])):
        l = native.list(size)
        names, what = [n for n, _ in l], dict(l)
        base = {}
        for n, r in zip(names, common.parallel([lambda n=n: probes.explore(native, [n], size) for n in names], 8)):
            base.update(r)
            spaces.append(probes.describe(n + " (size %d)" % size, what[n], native.name, r[n], [probes.sample(native, n, size)]))
        for other, of in others:
            compare(native, other, names, what, size, of, spaces, violations, base)
            if violations:
                break
        if violations:
            break
    return {"spaces": spaces, "violations": violations,
            "assumptions": ["rustc's wasm32 backend and node run what the source says", "Miri's models of the other targets are right", "outcomes are compared by 64-bit fingerprints of all bytes, values and positions"],
            "builds": [native.name, wasm.name] + [SAY[t] for t in targets], "bounds": "enumeration of size %d on wasm32, of size 0 where interpreted" % big}


def known(key):
    raise common.CheckError("no known finding has the key " + key)
