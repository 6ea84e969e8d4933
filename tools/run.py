#!/usr/bin/env python3
"""run.py <property>: build from /repo, run the property's monitored programs, judge.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: check error.
"""
import json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
STALL_S = 45          # no progress for this long: look whether everything is blocked
BLOCKED_S = 12        # nothing ran at all for this long: deadlock
SPIN_S = 150          # no progress although something runs: re-run once before judging


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return VERIF + "/build"


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def session_pids(sid):
    pids = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                st = open("/proc/%s/stat" % d).read()
                f = st[st.rindex(")") + 2:].split()
                if int(f[3]) == sid and f[0] != "Z":
                    pids.append(int(d))
            except (OSError, ValueError, IndexError):
                pass
    return pids


def run_signature(sid):
    """What every thread of the session has run so far; equal twice = nobody ran."""
    sig = []
    for p in session_pids(sid):
        try:
            for t in os.listdir("/proc/%d/task" % p):
                base = "/proc/%d/task/%s/" % (p, t)
                st = open(base + "stat").read()
                f = st[st.rindex(")") + 2:].split()
                status = open(base + "status").read()
                sw = re.findall(r"ctxt_switches:\s+(\d+)", status)
                sig.append((p, t, f[0], f[11], f[12], tuple(sw)))
        except OSError:
            pass
    return sorted(sig)


def where(sid):
    out = []
    for p in session_pids(sid)[:12]:
        try:
            for t in sorted(os.listdir("/proc/%d/task" % p))[:20]:
                w = open("/proc/%d/task/%s/wchan" % (p, t)).read()
                out.append("%d/%s:%s" % (p, t, w))
        except OSError:
            pass
    return " ".join(out)


def kill_session(sid):
    for _ in range(3):
        ps = session_pids(sid)
        if not ps:
            return
        for p in ps:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.02)


class Worker:
    def __init__(self, exe, run, idx, nworkers, cases, seed, tier, base, only=None, repeat=None):
        self.run, self.idx = run, idx
        self.dir = tempfile.mkdtemp(prefix="w%d-" % idx, dir=base)
        self.out = self.dir + "/out"
        self.prog = self.dir + "/progress"
        self.err = self.dir + "/stderr"
        os.mkdir(self.dir + "/s")
        os.chmod(self.dir, 0o755)
        self.args = [exe, "--seed", str(seed), "--tier", tier, "--worker", str(idx), "--nworkers", str(nworkers),
                     "--cases", str(cases), "--mode", run.get("mode", "")] + run.get("args", [])
        if only is not None:
            self.args += ["--only", str(only)]
        if repeat:
            self.args += ["--repeat", str(repeat)]
        cmd = self.args + ["--out", self.out, "--progress", self.prog, "--scratch", self.dir + "/s"]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0" % (1 if run.get("leaks") else 0)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66"
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_signal_unsafe=0:detect_deadlocks=0:history_size=4:suppressions=%s/tools/tsan.supp" % VERIF
        env["LSAN_OPTIONS"] = "exitcode=66"
        env.update(run.get("env", {}))
        for k in list(env):
            if k.startswith("A0_"):
                del env[k]
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=open(self.err, "wb"), start_new_session=True, env=env, cwd=self.dir)
        self.last = None
        self.last_t = time.time()
        self.sig = None
        self.sig_t = 0
        self.verdict = None

    def progress(self):
        try:
            b = open(self.prog, "rb").read()
            case = int.from_bytes(b[0:8], "little", signed=True)
            ticks = int.from_bytes(b[8:16], "little")
            done = int.from_bytes(b[16:24], "little")
            desc = b[24:].split(b"\0")[0].decode(errors="replace")
            return case, ticks, done, desc
        except OSError:
            return -1, 0, 0, ""

    def poll(self):
        """None while running; otherwise sets self.verdict."""
        rc = self.p.poll()
        now = time.time()
        if rc is not None:
            self.verdict = ("exit", rc)
            return self.verdict
        pr = self.progress()
        if pr != self.last:
            self.last, self.last_t, self.sig = pr, now, None
            return None
        if now - self.last_t > STALL_S:
            s = run_signature(self.p.pid)
            if s != self.sig:
                self.sig, self.sig_t = s, now
            elif now - self.sig_t > BLOCKED_S:
                self.where = where(self.p.pid)
                self.verdict = ("deadlock", pr)
            if not self.verdict and now - self.last_t > SPIN_S:
                self.where = where(self.p.pid)
                self.verdict = ("spin", pr)
        return self.verdict

    def finish(self):
        kill_session(self.p.pid)
        try:
            self.p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            pass


def classify_report(err):
    """A key for a sanitizer report: kind plus the innermost library/harness functions."""
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(2)
    m2 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?)(?: \(|\n)", err)
    if m2:
        kind = "tsan-" + m2.group(1).strip().replace(" ", "-")
    m3 = re.search(r"runtime error: ([^\n]*)", err)
    if m3 and not kind:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", m3.group(1).lower())[:40].strip("-")
    if not kind:
        return None
    fns = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)|#\d+ (\S+) [/<]", err)
    names = [a or b for a, b in fns]
    a0 = [n for n in names if n.startswith("a0")][:2]
    return kind + ":" + "+".join(a0 or names[:1])


def excerpt(err):
    """The first sanitizer report, or the end."""
    m = re.search(r"ERROR: (Address|Leak)Sanitizer|WARNING: ThreadSanitizer|runtime error:", err)
    return err[max(0, m.start() - 200):][:9000] if m else err[-8000:]


def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    t0 = time.time()
    try:
        exes = vbuild.build(sorted({(r["harness"], r["variant"]) for r in cfg["runs"]}))
    except vbuild.BuildError as e:
        print("CHECK-ERROR: %s" % e)
        return 2
    t_build = time.time() - t0
    base = tempfile.mkdtemp(prefix="a0v-%s-" % pid, dir=scratch_base())
    os.chmod(base, 0o755)
    replays = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    known = load_known()

    def known_as(key):
        for kp, kkey, kdesc in known:
            if kp == pid and re.fullmatch(kkey, key):
                return kkey, kdesc
        return None

    evals, hashes, samples, counters, viols, errors, notes = 0, set(), [], {}, [], [], []
    try:
        for ri, run in enumerate(cfg["runs"]):
            exe = exes[(run["harness"], run["variant"])]
            nw = run.get("workers", 8)
            cases = run["thorough"] if tier == "thorough" else run["quick"]
            cases = max(1, int(cases * scale))
            nw = max(1, min(nw, cases))
            ws = [Worker(exe, run, i, nw, cases, seed, tier, base) for i in range(nw)]
            pending = list(ws)
            reruns = []
            while pending:
                time.sleep(0.03)
                for w in list(pending):
                    v = w.poll()
                    if v is None:
                        continue
                    pending.remove(w)
                    case = w.progress()
                    w.finish()
                    got = parse_out(w)
                    err = open(w.err, errors="replace").read()
                    evals += got["E"] or case[2]
                    hashes |= got["H"]
                    samples += got["S"][:2] if len(samples) < 8 else []
                    for k, n in got["C"].items():
                        counters[k] = counters.get(k, 0) + n
                    cmdline = " ".join(shlex.quote(a) for a in w.args)
                    for key, c, detail, trace in got["V"]:
                        viols.append((key, c, detail, trace, run, cmdline, err[-4000:]))
                    for x in got["X"]:
                        errors.append(x)
                    rep = classify_report(err)
                    fresh = [x for x in got["V"] if not known_as(x[0])]
                    if v[0] == "exit":
                        if v[1] == 3 or (v[1] == 0 and not got["done"]):
                            if not got["X"]:
                                errors.append("worker %d of %s exited %d without a result: %s" % (w.idx, run["harness"], v[1], err[-600:]))
                        elif rep and not fresh:
                            key = rep
                            viols.append((key, case[0], "%s during: %s" % (rep, case[3]), "", run, cmdline, excerpt(err)))
                        elif v[1] != 0 and not fresh:
                            key = ("signal-%d" % -v[1]) if v[1] < 0 else ("exit-%d" % v[1])
                            if v[1] == -9 :
                                errors.append("worker %d of %s was killed (out of memory?)" % (w.idx, run["harness"]))
                            else:
                                viols.append((key + ":" + run["harness"], case[0], "program died with %s during: %s" % (key, case[3]), "", run, cmdline, excerpt(err)))
                    elif v[0] == "deadlock":
                        viols.append(("deadlock:" + (case[3].split("|")[0].strip().replace(" ", "_") or run["harness"]), case[0], "every thread blocked for %ds during: %s [%s]" % (BLOCKED_S, case[3], w.where), "", run, cmdline, err[-4000:]))
                    else:
                        # Something runs but nothing progresses: judge only if a fresh process repeats it.
                        if w.__dict__.get("is_rerun"):
                            viols.append(("hang:" + (case[3].split("|")[0].strip().replace(" ", "_") or run["harness"]), case[0], "no progress for %ds, twice, during: %s [%s]" % (SPIN_S, case[3], w.where), "", run, cmdline, err[-4000:]))
                        elif len(reruns) < 2:
                            w2 = Worker(exe, run, w.idx, nw, cases, seed, tier, base, only=case[0])
                            w2.is_rerun = True
                            reruns.append(w2)
                            pending.append(w2)
                            notes.append("stalled once in case %d, re-run" % case[0])
            for w in ws:
                if w.p.poll() is None:
                    w.finish()
            if any(not known_as(v[0]) for v in viols):
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)

    new, knownhit = [], {}
    for v in viols:
        k = known_as(v[0])
        if k:
            knownhit[k[0]] = k[1]
        else:
            new.append(v)
    # A run that was cut short must still have observed enough.
    if not new and not errors and len(hashes) < cfg.get("min_distinct", 2):
        errors.append("observed only %d distinct non-trivial cases" % len(hashes))
    for need, n in cfg.get("min_counters", {}).items():
        if not new and not errors and counters.get(need, 0) < n * min(1, scale):
            errors.append("observed %s only %d times" % (need, counters.get(need, 0)))

    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": cfg["rule"], "samples": samples[:8] or ["none"],
           "observed": counters, "build_s": round(t_build, 1)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if notes:
        cov["notes"] = notes
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, d in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if new:
        key, c, detail, trace, run, cmdline, err = new[0]
        rp = os.path.join(replays, "%s-%s.txt" % (pid, seed))
        with open(rp, "w") as f:
            f.write("property: %s\nkey: %s\ncase: %s\nseed: %d\ntier: %s\nharness: %s (%s)\n" % (pid, key, c, seed, tier, run["harness"], run["variant"]))
            f.write("replay: %s --only %s --verbose\n\ndetail: %s\n\ntrace: %s\n\nstderr:\n%s\n" % (cmdline, c, detail, trace, err))
            for o in new[1:20]:
                f.write("\nalso: %s case %s: %s" % (o[0], o[1], o[2]))
        print("%s: %s" % (key, detail[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors[:5]:
            print("CHECK-ERROR: %s" % e)
        return 2
    print("held: property=%s evaluations=%d distinct=%d wall=%.1fs" % (pid, evals, len(hashes), time.time() - t0))
    return 0


def parse_out(w):
    g = {"E": 0, "H": set(), "S": [], "C": {}, "V": [], "X": [], "done": False}
    try:
        for line in open(w.out, errors="replace"):
            line = line.rstrip("\n")
            t = line[:2]
            if t == "E ":
                g["E"] = int(line[2:])
            elif t == "H ":
                g["H"].add(line[2:])
            elif t == "S ":
                g["S"].append(line[2:])
            elif t == "C ":
                k, n = line[2:].rsplit(" ", 1)
                g["C"][k] = g["C"].get(k, 0) + int(n)
            elif t == "V ":
                f = (line[2:].split("\t") + ["", "", "", ""])[:4]
                g["V"].append(f)
            elif t == "X ":
                g["X"].append(line[2:])
            elif line == "DONE":
                g["done"] = True
    except OSError:
        pass
    return g


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR: %r" % (e,))
        sys.exit(2)
