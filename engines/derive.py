"""C12: every definition of an enumeration is generated as Rust, compiled with the real derive, and run."""
import os, shutil
from . import common, derive_gen, mc as mcengine

SHARDS = 16


def write_crate(name, shards, serde=True):
    crate = os.path.join(common.BUILD, name)
    src = os.path.join(crate, "src", "bin")
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(os.path.join(src, "common"))
    prefix = "s" if serde else "t"
    for k, ds in enumerate(shards):
        with open(os.path.join(src, "%s%d.rs" % (prefix, k)), "w") as f:
            f.write(derive_gen.shard_source(ds, k, serde))
    with open(os.path.join(src, "common", "mod.rs"), "w") as f:
        f.write(derive_gen.COMMON)
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "derivegen"
version = "0.1.0"
edition = "2021"
autobins = false

[workspace]

[dependencies]
mc = { path = "%(v)s/mc" }
dlhn = { path = "%(r)s/dlhn" }
serde = { version = "1.0.130", features = ["derive", "rc"] }
serde_bytes = "0.11.5"
time = { version = "0.3.2" }
num-bigint = { version = "0.4.2" }
bigdecimal = { version = "0.3.0" }

[profile.dev]
opt-level = 1
debug = 0
incremental = false

[profile.dev.package.derivegen]
opt-level = 0

""" % {"v": common.VERIF, "r": common.REPO})
        for k in range(len(shards)):
            f.write('[[bin]]\nname = "%s%d"\npath = "src/bin/%s%d.rs"\n\n' % (prefix, k, prefix, k))
    with open(os.path.join(common.VERIF, "checker", "Cargo.lock")) as f:
        lock = f.read()
    with open(os.path.join(crate, "Cargo.lock"), "w") as f:
        f.write(lock.replace('name = "checker"', 'name = "derivegen"'))
    return crate, len(shards)


def generate(tier):
    defs = derive_gen.definitions(tier)
    shards = [[] for _ in range(SHARDS)]
    weight = [0] * SHARDS
    for d in sorted(defs, key=lambda d: -len(d.src)):
        k = weight.index(min(weight))
        shards[k].append(d)
        weight[k] += len(d.src) + 400 + sum(len(v[0]) for v in d.values)
    wide = derive_gen.wide(tier)
    crate, n = write_crate("derivegen-" + tier, shards + [[d] for d in wide])
    return crate, defs + wide, n


def run(prop, tier):
    crate, defs, shards = generate(tier)
    target = os.path.join(common.BUILD, "derive")
    p = common.cargo(crate, ["--bins"], target, timeout=700 if tier == "quick" else 5000, ok_to_fail=True)
    if p.returncode != 0:
        # is it the derive that does not compile, or something else?
        control = os.path.join(common.BUILD, "derive-control")
        q = common.cargo(crate, ["--bins"], control, {"RUSTFLAGS": "--cfg without_header"}, timeout=700 if tier == "quick" else 5000, ok_to_fail=True, sub="check")
        if q.returncode != 0:
            raise common.CheckError("build failed: %s" % q.stderr[-4000:])
        err = p.stderr[p.stderr.find("error"):]
        return {"spaces": [], "assumptions": [], "violations": [{"space": "compilation", "case": [], "label": "", "command": "cd %s && CARGO_TARGET_DIR=%s cargo build --offline --bins" % (crate, target),
                "msg": "a definition that compiles without the header derive does not compile with it: " + " ".join(err.split())[:1200]}]}

    def one(k):
        x = common.Explorer(os.path.join(target, "debug", "s%d" % k), prop, tier, "shard %d" % k, 300, threads=1)
        return x.explore()
    spaces, violations = [], []
    for s, v in common.parallel([lambda k=k: one(k) for k in range(shards)]):
        spaces += s
        violations += v
    violations.sort(key=lambda v: len(v["msg"]))
    return {"spaces": spaces, "violations": violations,
            "assumptions": ["rustc and serde_derive behave as documented", "the enumerator (engines/derive_gen.py) says what serde writes for a definition, which every value confirms"],
            "bounds": "%d definitions" % len(defs)}


def known(key):
    return common.known_case(mcengine.build()["overflow checks on"], key)
