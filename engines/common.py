"""Builds from /repo's working tree, and the exploration and confirmation of the checkers' spaces."""
import hashlib, json, os, resource, shutil, signal, struct, subprocess, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = "/repo"
SLOT = 4096


class CheckError(Exception):
    pass


def repo_hash():
    """of everything a build of the repository can depend on"""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target") and not os.path.islink(os.path.join(root, d)))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def fresh(target_dir):
    """cargo goes by time stamps; where the sources differ from the last build's, make it build the crates again"""
    os.makedirs(target_dir, exist_ok=True)
    stamp = os.path.join(target_dir, "repo.sha256")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for root, dirs, _ in os.walk(target_dir):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if d.startswith("dlhn"):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
        with open(stamp, "w") as f:
            f.write(now)


def cargo(crate, args, target_dir, extra_env=None, toolchain=None, timeout=840, ok_to_fail=False, sub="build"):
    fresh(target_dir)
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + [sub, "--offline", "-q"] + args
    p = subprocess.run(cmd, cwd=crate, env=env({"CARGO_TARGET_DIR": target_dir, **(extra_env or {})}),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode != 0 and not ok_to_fail:
        raise CheckError("build failed: %s in %s\n%s" % (" ".join(cmd), crate, p.stderr[-4000:]))
    return p


def limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, gb=24, cwd=VERIF):
    """(return code, or None when the time was up; stdout; stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limit(gb), start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def journal(path):
    """the cases that were running"""
    out = []
    b = open(path, "rb").read()
    for i in range(0, len(b), SLOT):
        busy, space, n = struct.unpack_from("<III", b, i)
        if busy:
            out.append((space, list(struct.unpack_from("<%dI" % n, b, i + 12))))
    return out


def how(rc):
    if rc is None:
        return "it does not end"
    if rc < 0:
        return "the process dies with %s" % signal.Signals(-rc).name
    return "the process ends with status %d" % rc


class Explorer:
    """one checker binary, driven over a property's spaces"""

    def __init__(self, binary, prop, tier, tag, seconds, threads=None, hang=60):
        self.binary, self.prop, self.tier, self.tag, self.seconds, self.threads, self.hang = binary, prop, tier, tag, seconds, threads, hang
        self.dir = os.path.join(BUILD, "run", prop + "-" + tag.replace(" ", "_").replace("/", "_"))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def once(self, n, only=None, threads=None, all_spaces=False):
        out, jn = os.path.join(self.dir, "%s.json" % n), os.path.join(self.dir, "%s.journal" % n)
        cmd = [self.binary, "run", self.prop, "--tier", self.tier, "--out", out, "--journal", jn, "--seconds", str(self.seconds), "--hang", str(self.hang)]
        t = threads or self.threads
        if t:
            cmd += ["--threads", str(t)]
        if only:
            cmd += ["--only", only]
        rc, o, e = run(cmd, self.seconds + self.hang + 120)
        res = json.load(open(out)) if os.path.exists(out) else {"done": False, "spaces": []}
        running = journal(jn) if os.path.exists(jn) else []
        return rc, res, running, e, cmd

    def replay(self, space, case):
        cmd = [self.binary, "replay", self.prop, str(space), ",".join(map(str, case)), "--tier", self.tier]
        rc, o, e = run(cmd, self.hang + 30, gb=8)
        return rc, o, e, cmd

    def confirm(self, v, spaces):
        """is the violation seen again, in a process of its own?"""
        rc, o, e, cmd = self.replay(v["index"], v["case"])
        if rc == 1 and "verdict: violated" in o:
            return cmd
        if rc != 0:
            if rc is None or rc < 0 or rc in (134, 139):
                v["msg"] += " (alone, %s)" % how(rc)
                return cmd
        return None

    def explore(self, only=None):
        """(spaces, violations)"""
        attempts = []
        for n, threads in (("first", None), ("second", 1), ("third", None)):
            rc, res, running, err, cmd = self.once(n, only, threads)
            spaces = res["spaces"]
            for s in spaces:
                s["build"] = self.tag
            found = []
            for s in spaces:
                for v in s.pop("violations"):
                    v.update(index=s["index"], space=s["name"], build=self.tag)
                    found.append(v)
            engine = [e for s in spaces for e in s.pop("engine_errors")]
            if rc == 0 and res["done"]:
                confirmed = []
                for v in found[:6]:
                    c = self.confirm(v, spaces)
                    if c:
                        v["command"] = " ".join(c)
                        confirmed.append(v)
                        if len(confirmed) == 2:
                            break
                if confirmed:
                    return spaces, confirmed
                attempts.append((bool(found), engine, spaces, found, cmd))
                if not found and not engine:
                    # an exploration without a finding; if the one before saw something, it depends on what runs side by side
                    earlier = [a for a in attempts if a[0]]
                    if not earlier:
                        return spaces, []
                if found and sum(1 for a in attempts if a[0]) >= 2:
                    v = found[0]
                    v["msg"] += " (seen in several runs of the whole space, though not alone)"
                    v["command"] = " ".join(cmd)
                    return spaces, [v]
                continue
            # it ended early: which of the running cases does that, alone?
            why = "running longer than %d s" % self.hang if rc == 78 else how(rc)
            bad = []
            for sp, case in running[:16]:
                r2, o2, e2, c2 = self.replay(sp, case)
                if r2 == 1 and "verdict: violated" in o2:
                    msg = o2.split("verdict: violated: ", 1)[1].strip()
                elif r2 is None or (r2 is not None and (r2 < 0 or r2 in (134, 139))):
                    msg = how(r2) + ": " + e2.strip()[-300:]
                else:
                    continue
                label = o2.split("case: ", 1)[1].split("\nverdict", 1)[0] if "case: " in o2 else ""
                bad.append({"index": sp, "space": "#%d" % sp, "case": case, "msg": msg, "label": label, "command": " ".join(c2), "build": self.tag})
                break   # each may take a minute and a half
            if bad:
                return spaces, bad
            attempts.append((True, ["%s: %s %s" % (n, why, err.strip()[-500:])], spaces, [], cmd))
            ended = [a for a in attempts if a[1] and not a[3]]
            if len(ended) >= 2 and rc != 2 and running and (rc is None or rc < 0 or rc in (78, 134, 139)):
                sp, case = running[0]
                return spaces, [{"index": sp, "space": "#%d" % sp, "case": case, "msg": "while exploring: " + why, "label": "", "command": " ".join(cmd), "build": self.tag}]
        # nothing that can be told apart from a failure of the engine
        if any(a[0] is False and not a[1] for a in attempts) and not any(a[3] for a in attempts) and len(attempts) > 1:
            good = [a for a in attempts if not a[0] and not a[1]][-1]
            return good[2], []
        raise CheckError("the exploration failed: %s" % "; ".join(str(a[1] or a[3][:1])[:600] for a in attempts))


def known_case(binary, key):
    rc, o, e = run([binary, "known", key], 60, gb=8)
    if rc == 0 and o.startswith("fails: "):
        return True, o.strip()[7:]
    if rc == 0 and o.startswith("holds"):
        return False, "holds"
    if rc is None or rc < 0 or rc in (134, 139):
        return True, how(rc) + ": " + e.strip()[-200:]
    raise CheckError("known finding %s: %s %s %s" % (key, rc, o, e[-300:]))


def parallel(jobs, n=8):
    """run the callables, n at a time; results in order; the first exception is raised"""
    res, err, it, lock = [None] * len(jobs), [], iter(range(len(jobs))), threading.Lock()

    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None:
                return
            try:
                res[i] = jobs[i]()
            except BaseException as e:  # noqa
                err.append(e)
    ts = [threading.Thread(target=work) for _ in range(min(n, len(jobs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return res
