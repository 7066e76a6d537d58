#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree
   check.py --replay FILE  run the execution of a reported violation again
   check.py --build        build the harness once (setup)

Exit 0: held on everything explored.  1: VIOLATION line.  Anything else: the check
itself failed.  Environment: VERIF_SEED, VERIF_TIER (quick, thorough), VERIF_REPO."""
import collections, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CORES = 8
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


# depth first and in memory (the queue on disk loses lazily evaluated functions)
QUEUE = "-Dtlc2.tool.queue.IStateQueue=StateDeque"


class ToolError(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
        self.bin = None
        self.states = self.trans = self.traces = self.events = 0
        self.models = []      # model checking runs
        self.drives = []      # conformance runs
        self.kinds = collections.Counter()
        self.samples = []
        self.violations = []  # (fingerprint text, replay dict)
        self.known = []
        self.distinct = set()
        self.notes = {}       # what TLC said about a trace that it could not evaluate

    # -- building and running ------------------------------------------------
    def build(self):
        r = subprocess.run([os.path.join(V, "harness/build.sh"), os.path.join(self.dir, "b"), REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
            raise ToolError("build failed:\n" + r.stdout[-3000:])
        self.bin = os.path.join(self.dir, "b", "vh")

    def scratch(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def vh(self, kind="store", profile="map", seed=1, n=10, length=0, scripts="", timeout=600, tag=None):
        """run the harness; the trace files"""
        d = self.scratch(tag or "%s-%s-%d" % (kind, profile, seed))
        out = os.path.join(d, "t")
        args = [self.bin, "-kind", kind, "-profile", profile, "-seed", str(seed), "-n", str(n), "-len", str(length),
                "-workers", str(CORES), "-out", out]
        if scripts:
            args += ["-scripts", scripts]
        try:
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-f", out])
            raise ToolError("harness timed out: " + " ".join(args))
        if r.returncode:
            raise ToolError("harness: " + r.stdout[-3000:])
        return sorted(glob.glob(out + ".[0-9]*"))

    def tlc(self, module, cfg, env=None, workers=1, timeout=300, heap="3g", args=(), jvm=()):
        md = tempfile.mkdtemp(prefix="md-", dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)), "-Xmx" + heap, "-Xss16m",
               *jvm, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *args, module]
        e = dict(os.environ, **(env or {}))
        try:
            r = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            out = x.stdout or b""
            return -9, out.decode(errors="replace") if isinstance(out, bytes) else out
        finally:
            shutil.rmtree(md, ignore_errors=True)

    STAT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")

    def _stats(self, out):
        m = self.STAT.findall(out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    # -- model checking --------------------------------------------------------
    def model(self, module, cfg, timeout=600, workers=CORES, what="", expect=None, args=(), heap="12g", simulate=0, depth=200, seed=None):
        """check a model; expect = name of an invariant that has to fail (a design known to be wrong).
        simulate: that many random behaviours for each worker instead of all states"""
        t = time.time()
        if simulate:
            args = (*args, "-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(SEED if seed is None else seed))
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
        g, d = self._stats(out)
        if simulate:
            g = d = int((re.findall(r"number of states generated: ([\d,]+)", out) or ["0"])[-1].replace(",", ""))
        if expect is None:
            if rc != 0:
                raise ToolError("model %s/%s: exit %d\n%s" % (module, cfg, rc, out[-2500:]))
        elif not re.search(r"(Invariant|property|Action property) %s (is|was) violated" % expect, out):
            if workers != 1:   # another order of the search
                return self.model(module, cfg, timeout, 1, what, expect, args, heap, 0, depth, seed)
            raise ToolError("model %s/%s should break %s: exit %d\n%s" % (module, cfg, expect, rc, out[-2500:]))
        self.states += d
        self.trans += g
        self.models.append(dict(module=module, config=cfg, distinct_states=d, states_generated=g,
                                wall_s=round(time.time() - t, 1), result="holds" if expect is None else "breaks %s, as it should" % expect, what=what))
        return out

    def generate(self, module, cfg, num, depth, wrap, timeout=300, seed=None, keep=None):
        """operation scripts from the specification: a file with wrap(k, ops) per line.
        depth: random behaviours of this length; 0: one per transition of the whole state graph, num of them (0: all)"""
        t = time.time()
        seed = SEED if seed is None else seed
        args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)] if depth else []
        rc, out = self.tlc(module, cfg, timeout=timeout, args=args, workers=1)
        lines = [json.loads(json.loads(x)[7:]) for x in re.findall(r'^("SCRIPT .*")$', out, re.M)]
        if not lines or (not depth and rc):
            raise ToolError("no scripts from %s/%s: exit %d\n%s" % (module, cfg, rc, out[-1500:]))
        seen = set()   # the last state may have been visited several times, a script may stand for several transitions
        lines = [x for x in lines if not (json.dumps(x) in seen or seen.add(json.dumps(x)))]
        if keep:
            lines = [x for x in lines if keep(x)]
        if not depth:
            lines.sort(key=json.dumps)
            random.Random(seed).shuffle(lines)
        total = len(lines)
        lines = lines[:num or total]
        p = os.path.join(self.dir, "scripts-%s-%d-%d" % (cfg, seed or 0, len(self.models)))
        with open(p, "w") as f:
            for k, ops in enumerate(lines):
                f.write(json.dumps(wrap(k, ops)) + "\n")
        self.models.append(dict(module=module, config=cfg, wall_s=round(time.time() - t, 1), result="%d behaviours%s generated" % (len(lines), "" if depth else " of %d" % total),
                                what="operation sequences for the real code"))
        return p

    # -- trace validation ------------------------------------------------------
    def _validate(self, spec, f, timeout, jvm, again=False):
        """-> (rejected [(id, pos)], generated, distinct)"""
        n = sum(1 for _ in open(f))
        if n == 0:
            return [], 0, 0
        rc, out = self.tlc(spec + ".tla", spec + ".cfg", env={"TRACE": f}, timeout=timeout, jvm=(QUEUE, *jvm))
        g, d = self._stats(out)
        rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)]
        if rc == 0 or (rej and "Model checking completed. No error" in out):
            return rej, g, d
        if rc in (-9, 137) or "OutOfMemory" in out or "StackOverflow" in out or "Could not reserve" in out:
            raise ToolError("TLC on %s: exit %d\n%s" % (f, rc, out[-1500:]))
        # an event that the specification cannot evaluate: find its trace
        if n == 1:
            m = re.findall(r"l = (\d+)", out)
            t = json.loads(open(f).read())
            if not m and not again:   # perhaps TLC did not even start
                return self._validate(spec, f, timeout, jvm, True)
            if not m and "unsupported JSON value" not in out:
                raise ToolError("TLC on %s: exit %d\n%s" % (f, rc, out[-1500:]))
            self.notes[t["id"]] = out[-1500:]
            return [(t["id"], int(m[-1]) if m else 1)], g, d
        rej, tg, td = [], 0, 0
        for k, line in enumerate(open(f)):
            p = "%s.one%d" % (f, k)
            open(p, "w").write(line)
            r, g, d = self._validate(spec, p, timeout, jvm)
            os.unlink(p)
            rej += r; tg += g; td += d
        return rej, tg, td

    def validate(self, spec, files, source, timeout=400, jvm=(), parallel=CORES):
        t = time.time()
        jobs = []
        for f in files:   # small batches keep a single TLC run short
            lines = open(f).read().splitlines()
            for k in range(0, len(lines), 60):
                p = "%s.b%d" % (f, k)
                open(p, "w").write("\n".join(lines[k:k + 60]) + "\n")
                jobs.append(p)
        with cf.ThreadPoolExecutor(parallel) as ex:
            res = list(ex.map(lambda f: self._validate(spec, f, timeout, jvm), jobs))
        ntr = nev = 0
        counts = collections.Counter()
        for f, (rej, g, d) in zip(jobs, res):
            self.trans += g
            self.states += d
            bad = dict(rej)
            for line in open(f):
                tr = json.loads(line)
                ntr += 1
                nev += len(tr["ev"])
                for e in tr["ev"]:
                    key = str(e.get("e")) + (":" + str(e["k"]) if "k" in e and isinstance(e["k"], str) else "")
                    counts[key + "=" + str(e.get("r", ""))] += 1
                if len(tr["ev"]) > 3:
                    self.distinct.add(hash(json.dumps(tr["ev"], sort_keys=True)))
                if tr["id"] in bad:
                    self._rejected(spec, tr, bad[tr["id"]], source)
                elif len(self.samples) < 2 and len(tr["ev"]) > 4:
                    self.samples.append(dict(source=source, trace=tr["id"], cfg=tr["cfg"], events=len(tr["ev"]), first_events=tr["ev"][:12]))
            os.unlink(f)
        self.traces += ntr
        self.events += nev
        self.kinds.update(counts)
        self.drives.append(dict(spec=spec, traces=ntr, events=nev, wall_s=round(time.time() - t, 1), **source))

    def _rejected(self, spec, tr, pos, source):
        ev = tr["ev"]
        e = ev[pos - 1] if 0 < pos <= len(ev) else {}
        show = {k: v for k, v in e.items() if k not in ("d", "sg", "l", "w", "p")}
        text = "%s trace %d event %d: %s" % (source.get("profile") or source.get("kind"), tr["id"], pos, json.dumps(show)[:300])
        for k in known_findings(self.pid):
            if re.search(k["match"], text):
                self.known.append(k["text"])
                return
        if tr["id"] in self.notes:
            text += " TLC: " + " ".join(re.findall(r"^Error.*|^.*Exception.*", self.notes[tr["id"]], re.M))[:300]
        script = None
        if source.get("scripts"):
            script = json.loads(open(self.scripts).read().splitlines()[tr["id"]])
        self.violations.append((text, dict(property=self.pid, spec=spec, source=source, trace_id=tr["id"], rejected_at=pos, script=script,
                                           event=e, before=ev[max(0, pos - 12):pos - 1], trace=tr)))

    def drive(self, profile, n, kind="store", seed=None, length=0, spec="StoreTrace", timeout=600, jvm=(), scripts="", vtimeout=400, each=None):
        seed = SEED if seed is None else seed
        t = time.time()
        files = self.vh(kind, profile, seed, n, length, scripts, timeout)
        w = time.time() - t
        src = dict(kind=kind, profile=profile, seed=seed, n=n, len=length)
        if scripts:
            src["scripts"] = "generated from the specification"
            self.scripts = scripts
        if each:
            for f in files:
                for line in open(f):
                    each(json.loads(line))
        self.validate(spec, files, src, jvm=jvm, timeout=vtimeout)
        self.drives[-1]["run_s"] = round(w, 1)
        for f in files:
            os.unlink(f)

    # -- the end ---------------------------------------------------------------
    def finish(self, meta):
        ev = os.path.join(V, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   evaluations=self.traces, distinct_nontrivial=len(self.distinct),
                   rule=meta.get("rule", "a case is one recorded execution of the real code; it is non-trivial if it has more than 3 events, distinct if its events are"),
                   events_validated=self.events, models=self.models, conformance=self.drives,
                   events_by_kind=dict(self.kinds.most_common(60)), samples=self.samples or [m for m in self.models][:2])
        rec = dict(property=self.pid, tier=TIER, seed=SEED, level=meta["level"], coverage=cov,
                   assumptions=meta.get("assumptions", []), wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        json.dump(rec, open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            p = os.path.join(ev, "replay-%s.json" % self.pid)
            json.dump(self.violations[0][1], open(p, "w"), indent=1)
            for text, _ in self.violations[:5]:
                print("  " + text)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("%s: held; %d states, %d transitions, %d traces (%d events) in %.0f s" %
              (self.pid, self.states, self.trans, self.traces, self.events, time.time() - self.t0))
        return 0


def known_findings(pid):
    out = []
    f = os.path.join(V, "known_findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line.strip())
        if m and m.group(1) == pid:
            out.append(dict(match=m.group(2), text=m.group(3)))
    return out


def replay(path):
    r = json.load(open(path))
    s = r["source"]
    c = Check("replay")
    try:
        c.build()
        out = os.path.join(c.dir, "t.0")
        args = [c.bin, "-worker", "-kind", s["kind"], "-profile", s["profile"], "-seed", str(s["seed"]), "-len", str(s["len"]),
                "-out", out, "-from", str(r["trace_id"]), "-n", str(r["trace_id"] + 1)]
        if r.get("script"):
            sc = os.path.join(c.dir, "s")
            open(sc, "w").write((json.dumps(r["script"]) + "\n") * (r["trace_id"] + 1))
            args += ["-scripts", sc]
        subprocess.run(args, stderr=subprocess.DEVNULL)
        for f in (out, out + ".part"):
            if os.path.exists(f):
                print(f, os.path.getsize(f))
        rej, _, _ = c._validate(r["spec"], out, 300, ())
        tr = json.loads(open(out).read())
        for _, pos in rej:
            for e in tr["ev"][max(0, pos - 12):pos]:
                print(json.dumps(e))
        print("rejected again at event %s" % [p for _, p in rej] if rej else "accepted this time")
        return 1 if rej else 0
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        c = Check("build")
        try:
            c.build()
            return 0
        finally:
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.modules["check"] = sys.modules["__main__"]
    import plans
    pid = sys.argv[1]
    c = Check(pid)
    try:
        c.build()
        meta = plans.run(c, pid, TIER)
        return c.finish(meta)
    except ToolError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        return 3
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
