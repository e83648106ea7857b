"""C22, C23: one deterministic enumeration (mc/src/probe.rs), run in several builds, every outcome compared between them."""
import os
from . import common

CRATE = os.path.join(common.VERIF, "mc")
FEATURES = ["time", "num-traits", "num-bigint", "bigdecimal", "dlhn_derive"]
FLAG = {f: "f_" + f.replace("-", "_") for f in FEATURES}


class Build:
    """a probe that can be run: name, the command before its arguments, its environment"""

    def __init__(self, name, cmd, env=None, timeout=300, gb=16, cwd=common.VERIF):
        self.name, self.cmd, self.env, self.timeout, self.gb, self.cwd = name, cmd, env or {}, timeout, gb, cwd

    def run(self, args, timeout=None):
        cmd = (["env"] + ["%s=%s" % kv for kv in sorted(self.env.items())] if self.env else []) + self.cmd + args
        return common.run(cmd, timeout or self.timeout, gb=self.gb, cwd=self.cwd)

    def shown(self, args):
        return " ".join("'%s'" % a if " " in a or ";" in a else a for a in self.cmd + args)

    def list(self, size):
        rc, o, e = self.run(["list", "--size", str(size)])
        if rc != 0:
            raise common.CheckError("%s: %s %s" % (self.name, common.how(rc), e[-600:]))
        return [tuple(l.split("\t", 1)) for l in o.splitlines() if "\t" in l]


def parse(o):
    """{space: {first choice: (executions, digest, transitions, ok)}}, the spaces that came to their end"""
    sums, ended = {}, set()
    for l in o.splitlines():
        p = l.split("\t")
        if p[0] == "sum":
            sums.setdefault(p[1], {})[int(p[2])] = (int(p[3]), int(p[4], 16), int(p[5]), int(p[6]))
        elif p[0] == "end":
            ended.add(p[1])
    return sums, ended


def explore(b, names, size, share=None):
    """the sums of the spaces; where the process ends early, that is what the space does in this build"""
    a = ["--size", str(size)] + (["--share", share] if share else [])
    rc, o, e = b.run(["--spaces", ";".join(names)] + a)
    sums, ended = parse(o)
    if rc == 0 and ended == set(names):
        return {n: sums.get(n, {}) for n in names}
    if len(names) == 1:
        if "unsupported operation" in e or "error: could not compile" in e or "not supported" in e:
            raise common.CheckError("%s: %s" % (b.name, e[-1500:]))
        return {names[0]: {"died": common.how(rc) + ": " + " ".join(e.split())[-300:]}}
    res = {n: sums.get(n, {}) for n in names if n in ended}
    for n in names:
        if n not in ended:
            res.update(explore(b, [n], size, share))
    return res


def merge(parts):
    """of the shares of one space"""
    out = {}
    for p in parts:
        for k, v in p.items():
            if k == "died":
                return {"died": v}
            n, d, t, ok = out.get(k, (0, 0, 0, 0))
            out[k] = (n + v[0], (d + v[1]) & (2 ** 64 - 1), t + v[2], ok + v[3])
    return out


def outcome(s):
    return "died" if "died" in s else tuple((k, s[k][0], s[k][1]) for k in sorted(s))


def cases(b, space, size, first):
    rc, o, e = b.run(["--spaces", space, "--size", str(size), "--first", str(first)])
    return {l.split("\t")[1]: l.split("\t")[2] for l in o.splitlines() if l.startswith("case\t")}, (None if rc == 0 else common.how(rc))


def explain(a, sa, b, sb, space, size):
    """the first case the builds treat differently: (case, message, command), or None where it does not show again"""
    def show(x, c):
        rc, o, e = x.run(["--spaces", space, "--size", str(size), "--case", c])
        h = [l[len("fingerprint: "):] for l in o.splitlines() if l.startswith("fingerprint: ")]
        body = o.split("what happened:", 1)[1].split("against the model:")[0].strip() if "what happened:" in o else ""
        return (h[0] if h else common.how(rc) + " " + " ".join(e.split())[-200:]), body
    if "died" in sa or "died" in sb:
        bad, why = (a, sa["died"]) if "died" in sa else (b, sb["died"])
        return [], "%s: %s, while %s comes to its end" % (bad.name, why, (b if bad is a else a).name), bad.shown(["--spaces", space, "--size", str(size)])
    for k in sorted(set(sa) | set(sb)):
        if sa.get(k, (0, 0))[:2] == sb.get(k, (0, 0))[:2]:
            continue
        ca, da = cases(a, space, size, k)
        cb, db = cases(b, space, size, k)
        diff = [c for c in sorted(set(ca) | set(cb), key=lambda c: (len(c), [int(x) for x in c.split(",") if x])) if ca.get(c) != cb.get(c)]
        for c in diff[:3]:
            (ha, ta), (hb, tb) = show(a, c), show(b, c)
            if (ha, ha) != (hb, hb):
                la, lb = ta.splitlines(), tb.splitlines()
                n = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
                x = [l.strip()[:300] for l in (la[n:n + 1] or [ha])][0]
                y = [l.strip()[:300] for l in (lb[n:n + 1] or [hb])][0]
                return [int(v) for v in c.split(",") if v], "%s: %s; %s: %s" % (a.name, x, b.name, y), b.shown(["--spaces", space, "--size", str(size), "--case", c])
        if diff:
            return [int(v) for v in diff[0].split(",") if v], "%s and %s differ in case %s" % (a.name, b.name, diff[0]), b.shown(["--spaces", space, "--size", str(size), "--first", str(k)])
    return None


def sample(b, space, size):
    rc, o, e = b.run(["--spaces", space, "--size", str(size), "--case", ""])
    return " ".join(o.split("what happened:", 1)[1].split())[:200] if "what happened:" in o else ""


def describe(name, what, build, s, samples):
    n = sum(v[0] for k, v in s.items() if k != "died")
    return {"name": name, "what": what, "build": build, "executions": n, "states": n, "transitions": sum(v[2] for k, v in s.items() if k != "died"),
            "validated": n, "repeated": 0, "samples": samples, "capped": False, "died": s.get("died", "")}


def native(features, target, opt=1, extra=()):
    return common.cargo(CRATE, ["--bin", "probe", "--no-default-features", "--features", ",".join(FLAG[f] for f in features)] + list(extra), target,
                        {"CARGO_PROFILE_DEV_OPT_LEVEL": str(opt)}, ok_to_fail=True)
