"""C01-C11, C13-C20, C25, C26: the explorer of /verif/mc, linked with the real crate, in two builds."""
import os
from . import common

CRATE = os.path.join(common.VERIF, "checker")
ASSUME = {
    None: ["rustc, std and serde behave as documented", "the model (mc/src/model.rs) and the independent oracles are what the property means"],
}
BOTH = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C25", "C26"}


def build():
    def one(prof):
        d = os.path.join(common.BUILD, prof)
        common.cargo(CRATE, ["--bin", "mc"] + (["--release"] if prof == "rel" else []), d)
        return os.path.join(d, "release" if prof == "rel" else "debug", "mc")
    a, b = common.parallel([lambda: one("chk"), lambda: one("rel")], 2)
    return {"overflow checks on": a, "optimized, overflow checks off": b}


BIN = {}


def run(prop, tier):
    global BIN
    BIN = build()
    spaces, violations = [], []
    for tag, b in BIN.items():
        x = common.Explorer(b, prop, tier, "chk" if tag.startswith("over") else "rel", 240 if tier == "quick" else 2400)
        x.tag = tag
        s, v = x.explore()
        spaces += s
        violations += v
        if violations:
            break
    return {"spaces": spaces, "violations": violations, "assumptions": ASSUME[None], "builds": list(BIN)}


def known(key):
    return common.known_case(BIN["overflow checks on"], key)
