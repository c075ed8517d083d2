#!/usr/bin/env python3
"""Deterministic-simulation check of one property: build from /repo, search, minimise, report.

usage: check.py ID            run the check (VERIF_SEED, VERIF_TIER=quick|thorough)
       check.py replay FILE   rebuild and replay a violation
       check.py build         build both profiles
       check.py determinism [ID...]  run many seeds twice, compare event digests
exit 0: held on everything explored; 1: violation; 2: the check itself failed
"""
import hashlib, json, os, re, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
PROFILES = {"chk": "debug", "rel": "release"}
sys.path.insert(0, HERE)
from plan import PLAN, COMPONENTS

STALL = 45  # wall seconds without finishing one simulated run: taken for a hang


class Broken(Exception):
    pass


def tree_digest():
    h = hashlib.sha256()
    for top in ("src", "Cargo.toml", "build.rs"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode() + b"\0" + open(q, "rb").read())
    return h.hexdigest()


def binary(profile):
    return os.path.join(BUILD, profile, PROFILES[profile], "sim")


def build():
    """Both profiles, from the current /repo working tree."""
    os.makedirs(BUILD, exist_ok=True)
    digest = tree_digest()
    jobs = []
    for profile in PROFILES:
        tdir = os.path.join(BUILD, profile)
        env = dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        # cargo looks at time stamps; a checkout may bring older ones
        stamp = os.path.join(tdir, "repo-digest")
        seen = open(stamp).read() if os.path.exists(stamp) else None
        if seen is not None and seen != digest:
            subprocess.run(["cargo", "clean", "--offline", "-p", "succinct"] + (["--release"] if profile == "rel" else []),
                           cwd=os.path.join(HERE, "sim"), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if profile == "chk":
            env["RUSTC_WRAPPER"] = os.path.join(HERE, "sim", "cov-rustc.sh")
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet"] + (["--release"] if profile == "rel" else [])
        log = tempfile.TemporaryFile()
        jobs.append((profile, stamp, log, subprocess.Popen(cmd, cwd=os.path.join(HERE, "sim"), env=env, stdout=log, stderr=subprocess.STDOUT)))
    for profile, stamp, log, p in jobs:
        rc = p.wait()
        if rc != 0:
            log.seek(0)
            text = log.read().decode(errors="replace")
            sys.stderr.write(text[-6000:])
            raise Broken("build of profile %s failed" % profile)
        with open(stamp, "w") as f:
            f.write(digest)


def pin(cpu):
    def f():
        try:
            os.sched_setaffinity(0, {cpu})
        except OSError:
            pass
    return f


class Worker:
    def __init__(self, prop, profile, seed, start, stride, end, deadline, tmp, cpu):
        self.profile, self.start, self.cpu = profile, start, cpu
        name = os.path.join(tmp, "%s-%d" % (profile, start))
        self.progress_file, self.hash_file = name + ".progress", name + ".hashes"
        self.out = open(name + ".out", "wb+")
        cmd = [binary(profile), "worker", "--prop", prop, "--seed", str(seed), "--start", str(start), "--stride", str(stride),
               "--end", str(end), "--progress", self.progress_file, "--hashes", self.hash_file, "--deadline", str(deadline)]
        if profile == "chk":
            cmd += ["--cover", "1"]
        self.p = subprocess.Popen(cmd, stdout=self.out, stderr=subprocess.DEVNULL, preexec_fn=pin(cpu))
        self.last, self.since = None, time.time()
        self.result, self.bad = None, None

    def progress(self):
        try:
            b = open(self.progress_file, "rb").read(8)
            return int.from_bytes(b, "little") if len(b) == 8 else None
        except OSError:
            return None

    def poll(self):
        """True once finished."""
        rc = self.p.poll()
        if rc is None:
            cur = self.progress()
            if cur != self.last:
                self.last, self.since = cur, time.time()
            elif time.time() - self.since > STALL:
                self.p.kill()
                self.p.wait()
                self.bad = ("hang", self.progress())
                return True
            return False
        if rc in (0, 1):
            self.out.seek(0)
            try:
                self.result = json.loads(self.out.read().decode())
                return True
            except ValueError:
                pass
        self.bad = ("hang" if rc == 86 else "crash", self.progress())
        return True


def exec_run(prop, profile, args, timeout):
    """Outcome class of one run in a process of its own: ok, violation, crash or hang."""
    try:
        r = subprocess.run([binary(profile), "exec", "--prop", prop] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", ""
    if r.returncode == 0:
        return "ok", ""
    if r.returncode == 1:
        return "violation", r.stdout.decode(errors="replace").strip()
    return ("hang" if r.returncode == 86 else "crash"), "exit status %d" % r.returncode


def minimise_crash(prop, profile, seed, index, out, tmp):
    """The run kills the process: stream its choices to a file and shrink from outside."""
    stream = os.path.join(tmp, "stream")
    cls, detail = exec_run(prop, profile, ["--seed", str(seed), "--index", str(index), "--stream", stream], 60)
    if cls not in ("crash", "hang"):
        return None
    tape = [int(x) for x in open(stream).read().split()]
    tfile = os.path.join(tmp, "tape")
    limit = 5 if cls == "hang" else 20

    def fails(t):
        with open(tfile, "w") as f:
            f.write(" ".join(map(str, t)))
        return exec_run(prop, profile, ["--tape", tfile], limit)[0] == cls

    t0, execs = time.time(), 0
    best = tape
    if fails(best):
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < 60:
            i = 0
            while i < len(best) and time.time() - t0 < 60:
                execs += 1
                t = best[:i] + best[i + size:]
                if fails(t):
                    best = t
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            for c in (0, best[i] // 2):
                if c < best[i] and time.time() - t0 < 60:
                    execs += 1
                    t = best[:i] + [c] + best[i + 1:]
                    if fails(t):
                        best = t
                        break
    with open(out, "w") as f:
        f.write("# replay of a simulated run; run: ./replay.sh <this file>\nproperty %s\nprofile %s\nmaster_seed %d\nindex %d\nclass %s\n"
                "detail the run ends its process: %s %s\nminimised %d choices from %d in %d executions\ntape %s\n"
                % (prop, profile, seed, index, cls, cls, detail, len(best), len(tape), execs, " ".join(map(str, best))))
    return cls


def known_findings(prop):
    """Entries of known_findings.txt: 'known: property=ID class=... where=...' and 'fixed: ...' (which suppress nothing)."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    build()
    build_s = time.time() - t0
    plan = PLAN[prop]
    counts = dict(zip(("chk", "rel"), plan["thorough"] if tier == "thorough" else plan["quick"]))
    if os.environ.get("SIM_SCALE"):
        counts = {k: max(8, int(v * float(os.environ["SIM_SCALE"]))) for k, v in counts.items()}
    deadline = 3000 if tier == "thorough" else 150
    cpus = sorted(os.sched_getaffinity(0))
    per = max(1, len(cpus) // 2)
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
        t1 = time.time()
        workers = []
        for k, profile in enumerate(("chk", "rel")):
            for w in range(per):
                workers.append(Worker(prop, profile, seed, w, per, counts[profile], deadline, tmp, cpus[(k * per + w) % len(cpus)]))
        live = list(workers)
        found = {}  # profile -> (index, worker)
        recovered, tick = 0, time.time()
        try:
            while live:
                time.sleep(0.05)
                if time.time() - tick > 5:  # this process was stopped meanwhile, so the workers may have been as well
                    for w in live:
                        w.since = time.time()
                tick = time.time()
                for w in list(live):
                    if w.poll():
                        live.remove(w)
                        if w.bad and w.bad[1] is not None and recovered < 3 and exec_run(
                                prop, w.profile, ["--seed", str(seed), "--index", str(w.bad[1])], 60)[0] in ("ok", "violation"):
                            # the machine stalled, or ended the worker: the run itself is all right, or reports by itself
                            recovered += 1
                            print("%s: worker lost at run %d (profile %s), going on from there" % (prop, w.bad[1], w.profile), file=sys.stderr)
                            workers.remove(w)
                            w = Worker(prop, w.profile, seed, w.bad[1], per, counts[w.profile], deadline, tmp, w.cpu)
                            workers.append(w)
                            live.append(w)
                            continue
                        idx = w.result["violation"]["index"] if w.result and w.result["violation"] else w.bad[1] if w.bad else None
                        if w.bad and idx is None:
                            raise Broken("worker ended before its first run")
                        if idx is not None and (w.profile not in found or idx < found[w.profile][0]):
                            found[w.profile] = (idx, w)
                # others go on until they are past the earliest violation of their profile
                for w in list(live):
                    if w.profile in found and (w.progress() or 0) > found[w.profile][0]:
                        w.p.kill(); w.p.wait(); live.remove(w)
        finally:
            for w in workers:
                if w.p.poll() is None:
                    w.p.kill(); w.p.wait()
        search_s = time.time() - t1

        report = None
        for profile in ("chk", "rel"):
            if profile not in found or report:
                continue
            idx, w = found[profile]
            out = os.path.join(replays, "%s-%s-%d-%d.replay" % (prop, profile, seed, idx))
            if w.bad:
                cls = minimise_crash(prop, profile, seed, idx, out, tmp)
                if cls is None:
                    raise Broken("%s of run %d (profile %s) did not happen again" % (w.bad[0], idx, profile))
            else:
                r = subprocess.run([binary(profile), "minimise", "--prop", prop, "--seed", str(seed), "--index", str(idx), "--out", out],
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                if r.returncode != 1 and not os.path.exists(out):
                    # shrinking itself met something that kills the process: keep the run as found
                    v = w.result["violation"]
                    cls = minimise_crash(prop, profile, seed, idx, out, tmp)
                    if cls is None:
                        stream = os.path.join(tmp, "stream")
                        exec_run(prop, profile, ["--seed", str(seed), "--index", str(idx), "--stream", stream], 60)
                        with open(out, "w") as f:
                            f.write("property %s\nprofile %s\nmaster_seed %d\nindex %d\nclass %s\ndetail %s\ntape %s\n" % (
                                prop, profile, seed, idx, v["class"], v["detail"].replace("\n", " "), open(stream).read().strip()))
            report = out

        done = [w for w in workers if w.result]
        tot = lambda k: sum(w.result[k] for w in done)

        def merged(k):
            m = {}
            for w in done:
                for a, b in w.result[k].items():
                    m[a] = m.get(a, 0) + b
            return dict(sorted(m.items()))

        r = subprocess.run([binary("rel"), "distinct"] + [w.hash_file for w in workers if os.path.exists(w.hash_file)], stdout=subprocess.PIPE)
        distinct = int(r.stdout or 0)
        cover = set()
        for w in done:
            cover.update(w.result["cover"])
        blocks_total = max([w.result["blocks_total"] for w in done] or [0])
        samples = []
        for profile in ("chk", "rel"):
            for i in (0, 1, 2):
                try:
                    s = subprocess.run([binary(profile), "log", "--prop", prop, "--seed", str(seed), "--index", str(i)],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode(errors="replace").split("\n")
                    samples.append({"profile": profile, "run": i, "trace": s[:40]})
                except subprocess.TimeoutExpired:
                    pass
        known = known_findings(prop)
        runs = tot("runs") if done else 0
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": distinct,
                "rule": plan["rule"] + " One run = one seed = one whole simulated execution; its choices all come from one PRNG seeded by "
                        "(VERIF_SEED, property, profile, run index). Non-trivial: at least one event of the system and at least one injected "
                        "fault or task switch; distinct: by digest of the run's whole event history (operations, arguments, results, schedule).",
                "samples": samples,
                "runs_planned": counts,
                "runs_by_profile": {p: sum(w.result["runs"] for w in done if w.profile == p) for p in ("chk", "rel")},
                "runs_with_faults": tot("faulted") if done else 0,
                "runs_per_hour": int(runs * 3600 / max(search_s, 0.001)),
                "seeds_per_hour": int(runs * 3600 / max(search_s, 0.001)),
                "simulated_ticks": tot("clock") if done else 0,
                "simulated_seam_steps": tot("steps") if done else 0,
                "events": tot("events") if done else 0,
                "task_switches": tot("switches") if done else 0,
                "faults_injected": merged("faults"),
                "rare_conditions_reached": merged("probes"),
                "state_measure": {"what": "basic blocks of library code (and code instantiated from it) executed inside library calls, profile chk",
                                  "reached": len(cover), "in_build": blocks_total},
                "components": COMPONENTS[plan["components"]],
                "stopped_early_by_deadline": any(w.result["cut"] for w in done),
            },
            "assumptions": plan.get("assumptions", []) + [
                "seeded search samples executions; it does not enumerate them",
                "profile chk: unoptimised, overflow checks and debug assertions on; profile rel: optimised, both off"],
            "wall_s": round(time.time() - t0, 3),
            "violations": 1 if report else 0,
        }
        ev["coverage"]["build_seconds"] = round(build_s, 2)
        with open(evidence, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if any(w.result and w.result["cut"] for w in workers) and not report:
        print("note: stopped at the wall-clock limit after %d runs" % runs)
    for cls, what in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, cls))
    if report:
        text = open(report).read()
        get = lambda k: next((l[len(k) + 1:] for l in text.split("\n") if l.startswith(k + " ")), "")
        cls, detail = get("class"), get("detail")
        for kc, what in known:
            if kc == cls and what in detail:
                print("(matches the known finding)")
                return 0
        print("%s: %s" % (cls, detail))
        print("seed %d, run %s, profile %s; %s" % (seed, get("index"), get("profile"), get("minimised")))
        print("VIOLATION property=%s replay=%s" % (prop, report))
        return 1
    print("%s: held on %d simulated runs (%d distinct non-trivial), %.1f s" % (prop, runs, distinct, time.time() - t0))
    return 0


def replay(path):
    build()
    text = open(path).read()
    get = lambda k: next((l[len(k) + 1:] for l in text.split("\n") if l.startswith(k + " ")), "")
    prop, profile, cls = get("property"), get("profile"), get("class")
    if cls in ("crash", "hang"):
        with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
            t = os.path.join(tmp, "tape")
            open(t, "w").write(get("tape"))
            got, detail = exec_run(prop, profile, ["--tape", t], 60)
        print("replay: %s %s" % (got, detail))
        if got != "ok":
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    return subprocess.run([binary(profile), "replay", path]).returncode


def determinism(ids):
    """Every run twice, in processes of different strides and with and without pinning; digests must agree."""
    build()
    bad = 0
    n = int(os.environ.get("SIM_RUNS", "400"))
    for prop in ids or sorted(PLAN):
        for profile in PROFILES:
            for seed in (1, 2, 77):
                def batch(stride, pinned):
                    ps = [subprocess.Popen([binary(profile), "worker", "--prop", prop, "--seed", str(seed), "--start", str(s), "--stride", str(stride),
                                            "--end", str(n), "--dump", "1"], stdout=subprocess.PIPE, preexec_fn=pin(s % 8) if pinned else None) for s in range(stride)]
                    rows = {}
                    for p in ps:
                        for l in p.communicate()[0].decode().split("\n"):
                            if l:
                                rows[int(l.split()[0])] = l
                    return rows
                a, b, c = batch(1, False), batch(8, True), batch(13, False)
                d = [i for i in a if a[i] != b.get(i) or a[i] != c.get(i)]
                print("%s %s seed %d: %d runs x 3, %d differ" % (prop, profile, seed, len(a), len(d)))
                bad += len(d)
    return 1 if bad else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "build":
            build()
            return 0
        if sys.argv[1] == "replay":
            return replay(os.path.abspath(sys.argv[2]))
        if sys.argv[1] == "determinism":
            return determinism(sys.argv[2:])
        tier = os.environ.get("VERIF_TIER") or "quick"
        return check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED") or "1"))
    except Broken as e:
        print("check failed: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
