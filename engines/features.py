"""C22: all 32 sets of dlhn's optional features, built and run over one enumeration."""
import itertools, os, shutil
from . import common, probes
from .probes import FEATURES

SETS = [tuple(f for f, x in zip(FEATURES, bits) if x) for bits in itertools.product([0, 1], repeat=len(FEATURES))]
FULL = tuple(FEATURES)


def say(fs):
    return "features " + (" ".join(fs) or "none")


def alone():
    """a crate that depends on nothing but dlhn, so that nobody else's choice of features helps it to build"""
    crate = os.path.join(common.BUILD, "alone")
    os.makedirs(os.path.join(crate, "src"), exist_ok=True)
    with open(os.path.join(crate, "src", "lib.rs"), "w") as f:
        f.write("pub use dlhn;\n")
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "alone"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[features]\n')
        for x in FEATURES:
            f.write('"%s" = ["dlhn/%s"]\n' % (x, x))
        f.write('\n[dependencies]\ndlhn = { path = "%s/dlhn", default-features = false }\n' % common.REPO)
    if not os.path.exists(os.path.join(crate, "Cargo.lock")):
        with open(os.path.join(common.VERIF, "mc", "Cargo.lock")) as f:
            lock = f.read()
        with open(os.path.join(crate, "Cargo.lock"), "w") as f:
            f.write(lock.replace('name = "mc"', 'name = "alone"'))
    return crate


def run(prop, tier):
    size = 1 if tier == "quick" else 2
    out = os.path.join(common.BUILD, "features")
    bins = os.path.join(out, "bin")
    shutil.rmtree(bins, ignore_errors=True)
    os.makedirs(bins)
    crate = alone()
    lanes = [SETS[i::8] for i in range(8)]

    def lane(k):
        res = {}
        for fs in lanes[k]:
            a = common.cargo(crate, ["--no-default-features", "--features", ",".join(fs)], os.path.join(out, "alone%d" % k), ok_to_fail=True, sub="check")
            p = probes.native(fs, os.path.join(out, "lane%d" % k), 0 if tier == "quick" else 1)
            if p.returncode == 0:
                shutil.copy(os.path.join(out, "lane%d" % k, "debug", "probe"), os.path.join(bins, "p%d" % SETS.index(fs)))
            res[fs] = (a, p)
        return res
    built = {}
    # cargo holds a lock on the scratch crate's lock file, not on its target directory; the first build makes the file
    for r in common.parallel([lambda k=k: lane(k) for k in range(8)], 8):
        built.update(r)
    err = lambda p: " ".join(p.stderr[max(p.stderr.find("error"), 0):].split())[:900]
    bad = [fs for fs in SETS if built[fs][0].returncode != 0 or built[fs][1].returncode != 0]
    if bad:
        if len(bad) == len(SETS):
            raise common.CheckError("build failed: %s" % err(built[FULL][1]))
        fs = min(bad, key=len)
        a, p = built[fs]
        how = "the crate does not build by itself" if a.returncode != 0 else "something that the crate has with other features is missing or different"
        feats = ",".join(fs)
        return {"spaces": [], "assumptions": [], "violations": [{"space": "compilation", "case": [], "label": "", "msg": "with %s %s: %s" % (say(fs), how, err(a if a.returncode != 0 else p)),
                "command": "cargo check --offline --manifest-path %s/Cargo.toml --no-default-features --features '%s'" % (crate, feats)}]}
    builds = {fs: probes.Build(say(fs), [os.path.join(bins, "p%d" % SETS.index(fs))], timeout=240 if tier == "quick" else 3000) for fs in SETS}
    lists = {fs: builds[fs].list(size) for fs in SETS}
    what = {n: w for l in lists.values() for n, w in l}
    # the big ones apart, so that the work divides evenly
    jobs = []
    for fs in SETS:
        names = [n for n, _ in lists[fs]]
        big = [n for n in names if n in ("bytes", "lengths")]
        rest = [n for n in names if n not in big]
        for n in big:
            jobs.append((fs, [n]))
        jobs.append((fs, rest))
    jobs.sort(key=lambda j: len(j[1]))
    res = {fs: {} for fs in SETS}
    for (fs, names), r in zip(jobs, common.parallel([lambda j=j: probes.explore(builds[j[0]], j[1], size) for j in jobs], 8)):
        res[fs].update(r)
    spaces, violations, seen = [], [], 0
    for n in sorted(what):
        have = [fs for fs in SETS if n in res[fs]]
        base = max(have, key=len)
        first = True
        for fs in sorted(have, key=len):
            spaces.append(probes.describe(n, what[n], say(fs), res[fs][n], [probes.sample(builds[fs], n, size)] if fs == base else []))
            if probes.outcome(res[fs][n]) != probes.outcome(res[base][n]) and first:
                x = probes.explain(builds[base], res[base][n], builds[fs], res[fs][n], n, size)
                if x is None:
                    raise common.CheckError("%s and %s differ in %s, but not when run again" % (say(base), say(fs), n))
                first = False
                violations.append({"space": n, "case": x[0], "label": "", "msg": x[1], "command": x[2], "build": say(fs)})
    return {"spaces": spaces, "violations": violations, "builds": [say(fs) for fs in SETS],
            "assumptions": ["rustc and cargo do as documented", "outcomes are compared by 64-bit fingerprints of all bytes, values and positions"],
            "bounds": "32 feature sets; enumeration of size %d" % size}


def known(key):
    raise common.CheckError("no known finding has the key " + key)
