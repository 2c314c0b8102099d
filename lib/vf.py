"""Check framework: build, drive the real code, validate recorded histories with TLC,
model-check the specification, write evidence."""
import json, os, re, subprocess, sys, time, random, shutil, signal, tempfile
from concurrent.futures import ThreadPoolExecutor
import vbuild

VERIF = vbuild.VERIF
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = vbuild.NPROC


class MachineryError(Exception):
    pass


class Violation(Exception):
    def __init__(self, replay, what):
        self.replay, self.what = replay, what


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.work = os.path.join(VERIF, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.exe = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], histories_run=0,
                        model_states=0, model_transitions=0, trace_states=0, events=0, parts=[])
        self.assumptions = []
        self.violations = []
        self.level = "model_checking"
        self.clauses = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, *drivers, **kw):
        e = vbuild.build(drivers, **kw)
        self.exe.update(e)
        self.log("built %s in %.1fs" % (",".join(drivers), e["_secs"]))

    # ---------------------------------------------------------------- drive
    def drive(self, driver, scripts, args=(), timeout=60, jobs=None, env=None, extract=None):
        """scripts: list of lists of text lines, one per history.  Returns the list of
        histories: {"id":k,"script":[...],"ev":[...]} in order.  A crash or hang of the
        code under test ends the history with {"op":"crash"}."""
        jobs = jobs or NPROC
        exe = self.exe[driver]
        out = [None] * len(scripts)

        def worker(w):
            todo = list(range(w, len(scripts), jobs))
            while todo:
                todo = self._run_batch(exe, args, scripts, todo, out, timeout, w, env)
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(worker, range(jobs)))
        hs = []
        for k, ev in enumerate(out):
            if ev is None:
                raise MachineryError("no output for history %d" % k)
            hs.append({"id": k, "script": scripts[k], "ev": ev})
        self.cov["histories_run"] += len(hs)
        for h in hs[:1] + hs[len(hs) // 2:len(hs) // 2 + 1]:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(dict(driver=driver, script=h["script"][:40],
                                                events=h["ev"][:12]))
        return hs

    def _run_batch(self, exe, args, scripts, todo, out, timeout, w, env):
        text = []
        for k in todo:
            text.append("H %d" % k)
            text += scripts[k]
            text.append("END")
        wd = os.path.join(self.work, "d%d" % w)
        os.makedirs(wd, exist_ok=True)
        e = dict(os.environ)
        e.pop("PYTHONPATH", None)
        e.update(env or {})
        errf = open(os.path.join(wd, "stderr"), "w")
        p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=errf, cwd=wd, env=e)
        # per batch timeout grows with its size
        tmo = timeout + 0.5 * len(todo)
        try:
            so, _ = p.communicate(("\n".join(text) + "\nQUIT\n").encode(), timeout=tmo)
            hang = False
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
            hang = True
        errf.close()
        cur, evs, done, finished = None, [], set(), False
        for line in so.decode(errors="replace").split("\n"):
            if not line:
                continue
            if line.startswith("@H "):
                cur, evs = int(line[3:]), []
            elif line.startswith("@END"):
                out[cur] = evs
                done.add(cur)
                cur = None
            elif line.startswith("@QUIT"):
                finished = True
            elif line.startswith("@ERR"):
                raise MachineryError("driver script error: " + line)
            elif line.startswith("{") and cur is not None:
                try:
                    evs.append(json.loads(line))
                except ValueError:
                    if not hang and p.returncode >= 0:
                        raise MachineryError("bad driver line: " + line[:300])
        if finished and len(done) == len(todo):
            return []
        if p.returncode == 0 and not hang:
            raise MachineryError("driver ended early: " + open(os.path.join(wd, "stderr")).read()[-2000:])
        if p.returncode == 99:
            raise MachineryError("driver usage error: " + open(os.path.join(wd, "stderr")).read()[-2000:])
        if cur is None:  # crash outside any history (e.g. at exit)
            rest = [k for k in todo if k not in done]
            if not rest:
                # tear-down crash: blame the last history
                k = todo[-1]
                out[k] = out[k] + [{"op": "crash", "rc": p.returncode, "at": "exit"}]
                return []
            cur, evs = rest[0], []
        evs.append({"op": "crash", "rc": p.returncode, "at": "hang" if hang else "run"})
        out[cur] = evs
        done.add(cur)
        return [k for k in todo if k not in done]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=600, args=(), heap="6g"):
        meta = tempfile.mkdtemp(dir=self.work)
        cfgp = cfg if cfg and os.path.isabs(cfg) else os.path.join(SPEC, cfg or module + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS,
               "tlc2.TLC", "-config", cfgp, "-workers", str(workers or NPROC), "-metadir", meta,
               "-noGenerateSpecTE", "-nowarning"] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               cwd=SPEC, env=e, timeout=timeout)
            o, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            o = x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            rc = -9
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o)
        gen, dist = (0, 0)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", o)
            if m:
                gen = int(m[-1].replace(",", ""))
                dist = gen
        return dict(out=o, rc=rc, generated=gen, distinct=dist,
                    ok=("No error has been found" in o) or (rc == 0))

    def model_check(self, module, cfg=None, timeout=600, expect_ok=True, **kw):
        """Exhaustively check the specification's own invariants (design level)."""
        t = time.time()
        r = self.tlc(module, cfg, timeout=timeout, **kw)
        if not r["ok"]:
            # a design-level violation does not depend on the code: it is a machinery defect
            raise MachineryError("model check of %s/%s failed:\n%s" % (module, cfg, r["out"][-4000:]))
        self.cov["model_states"] += r["distinct"]
        self.cov["model_transitions"] += r["generated"]
        self.cov["parts"].append(dict(kind="model_check", module=module, cfg=cfg or module + ".cfg",
                                      states=r["distinct"], transitions=r["generated"],
                                      wall_s=round(time.time() - t, 1)))
        self.log("model %s/%s: %d states, %d transitions" % (module, cfg, r["distinct"], r["generated"]))
        return r

    def behaviours(self, module, cfg, simulate=None, depth=200, timeout=600, env=None):
        """Behaviours of the specification, printed by TLC as 'BEHAVIOUR <json>' lines:
        all of them (breadth first), or `simulate` random ones."""
        t = time.time()
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed)]
        r = self.tlc(module, cfg, env=env, workers=1 if simulate else None, timeout=timeout, args=args)
        if not simulate and not r["ok"]:
            raise MachineryError("TLC failed on %s/%s:\n%s" % (module, cfg, r["out"][-3000:]))
        lines = {}
        for m in re.finditer(r'^"?BEHAVIOUR (.*?)"?$', r["out"], re.M):
            lines[m.group(1)] = 1
        res = []
        for x in sorted(lines):
            if '\\"' in x:
                x = x.replace('\\"', '"').replace("\\\\", "\\")
            try:
                res.append(json.loads(x))
            except ValueError:
                raise MachineryError("bad behaviour line: " + x[:300])
        if not res:
            raise MachineryError("no behaviours from %s:\n%s" % (module, r["out"][-3000:]))
        self.cov["model_states"] += r["distinct"]
        self.cov["model_transitions"] += r["generated"]
        self.cov["parts"].append(dict(kind="simulate" if simulate else "enumerate", module=module, cfg=cfg,
                                      behaviours=len(res), states=r["distinct"],
                                      wall_s=round(time.time() - t, 1)))
        self.log("%d behaviours from %s/%s" % (len(res), module, cfg))
        return res

    def validate(self, module, histories, cfg=None, timeout=800, name=None, env=None, keep=None,
                 known=None, workers=None):
        """Check every recorded history against the specification's trace module.
        known(history, err) -> text if it is a listed finding."""
        name = name or module
        path = os.path.join(self.work, name + ".ndjson")
        pending = list(histories)
        total_events = sum(len(h["ev"]) for h in histories)
        t = time.time()
        rounds = 0
        while True:
            rounds += 1
            with open(path, "w") as f:
                for h in pending:
                    f.write(json.dumps({"id": h["id"], "ev": h["ev"]}) + "\n")
            e = dict(env or {})
            e["TRACE"] = path
            r = self.tlc(module, cfg, env=e, timeout=timeout, workers=workers)
            if r["ok"]:
                break
            o = r["out"]
            st = re.findall(r"^/\\ (\w+) = (.*?)(?=^/\\ |^State \d|^\s*$|\Z)", o, re.M | re.S)
            last = {}
            for k, v in st:
                last[k] = v.strip()
            inv = re.search(r"Invariant (\w+) is violated", o)
            if not inv and re.search(r"The behavior up to this point is:", o) and "h" in last:
                # an observation outside everything the specification can describe
                inv = re.search(r"(TLC threw|Evaluating|Attempted|The error|Error)", o)
                m = re.search(r"(Attempted to[^\n]*|exception was a[^\n]*\n[^\n]*\n?[^\n]*|Overflow[^\n]*)", o)
                last["err"] = "not describable: " + (m.group(1) if m else "evaluation failed")
                last["l"] = str(int(last.get("l", "0")) + 1)
            if not inv or "h" not in last:
                raise MachineryError("TLC failed on %s:\n%s" % (module, o[:1500] + "\n...\n" + o[-3500:]))
            hid = int(last["h"])
            hist = pending[hid - 1]
            err = re.sub(r"\s+", " ", last.get("err", ""))
            if err in ("", "<<>>", '""'):
                err = "invariant " + inv.group(1)
            k = known(hist, err) if known else None
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k), flush=True)
                pending.remove(hist)
                continue
            lpos = int(last.get("l", "0"))
            rp = os.path.join(VERIF, "replays", "%s-%s-%s-%s.json" % (self.pid, name, self.tier, hist["id"]))
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, module=module, clause=err, invariant=inv.group(1),
                               position=lpos, script=hist.get("script"), ev=hist["ev"]), f, indent=1)
            evs = hist["ev"]
            for i in range(max(0, lpos - 8), min(len(evs), lpos + 1)):
                print("   ev[%d] %s" % (i + 1, json.dumps(evs[i])[:400]))
            self.log("REJECTED history %s at event %d: %s" % (hist["id"], lpos, err))
            raise Violation(rp, "%s: %s" % (module, err))
        self.cov["traces_validated_against_impl"] += len(pending)
        self.cov["events"] += total_events
        self.cov["trace_states"] += r["distinct"]
        self.cov["parts"].append(dict(kind="trace_validation", module=module, name=name,
                                      histories=len(pending), events=total_events,
                                      states=r["distinct"], wall_s=round(time.time() - t, 1)))
        self.log("validated %d histories (%d events) against %s in %.1fs" %
                 (len(pending), total_events, module, time.time() - t))

    def count_ops(self, histories, key="op"):
        c = self.cov.setdefault("ops", {})
        for h in histories:
            for e in h["ev"]:
                k = str(e.get(key))
                c[k] = c.get(k, 0) + 1

    # ---------------------------------------------------------------- evidence
    def evidence(self):
        c = self.cov
        c["states"] = c["model_states"] + c["trace_states"]
        c["transitions"] = c["model_transitions"] + c["events"]
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                           coverage=c, assumptions=self.assumptions,
                           wall_s=round(time.time() - self.t0, 1),
                           violations=len(self.violations),
                           violation_detail=self.violations), f, indent=1)


def main(pid, tier, mod):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(pid, tier, seed)
    rc = 0
    try:
        mod.run(ck)
    except Violation as v:
        ck.violations.append(dict(replay=v.replay, what=v.what[:1000]))
        rc = 1
    except vbuild.BuildError as e:
        print("BUILD ERROR:", e)
        rc = 2
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(ck.work, ignore_errors=True)
    ck.evidence()
    # inputs of listed findings are left out of the histories: say so
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        if line.startswith("KNOWN-FINDING: property=%s " % pid):
            print(line.strip(), flush=True)
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (pid, ck.violations[-1]["replay"]), flush=True)
    ck.log("exit %d" % rc)
    return rc
