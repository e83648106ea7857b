"""C21: the controlled scheduler of /verif/sched; one single-threaded explorer process per space."""
import os, subprocess
from . import common

CRATE = os.path.join(common.VERIF, "sched")
TARGET = "x86_64-unknown-linux-gnu"
FLAGS = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"


def build():
    d = os.path.join(common.BUILD, "sched")
    common.cargo(CRATE, ["--target", TARGET], d, {"RUSTFLAGS": FLAGS})
    return os.path.join(d, TARGET, "debug", "sched")


def run(prop, tier):
    b = build()
    rc, o, e = common.run([b, "list", prop, "--tier", tier], 120)
    if rc != 0:
        raise common.CheckError("cannot list the spaces: %s" % e[-2000:])
    names = [l.split(": ", 1)[0] for l in o.splitlines() if ": " in l]

    def one(name):
        x = common.Explorer(b, prop, tier, name, 300 if tier == "quick" else 2400, threads=1, hang=20)
        return x.explore("=" + name)
    # the longest first
    order = sorted(names, key=lambda n: 0 if n.startswith("triples") else 1)
    spaces, violations = [], []
    for s, v in common.parallel([(lambda n=n: one(n)) for n in order]):
        spaces += s
        violations += v
    violations.sort(key=lambda v: (len(v["case"]), v["case"]))
    return {"spaces": spaces, "violations": violations,
            "assumptions": ["only the code of the crate and its dependencies is preempted (at every edge of its control flow); the scheduler itself and std are not",
                            "a schedule is replayed deterministically, which every violation is"],
            "bounds": "two or three programs at once; preemption bounds as named per space"}


def known(key):
    raise common.CheckError("no known findings here")
