"""Runner library: builds the driver, runs TLC, replays specification cases into the real code, validates recorded
behaviour of the real code with TLC, writes the evidence file and prints the verdict. It judges nothing itself except
JSON equality between an outcome predicted by the specification and the one observed."""
import json, os, random, re, resource, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(ROOT, "specs")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(ROOT, "known_findings.jsonl")


class ToolError(Exception):
    pass


def brief(out):
    """TLC's output without its progress chatter"""
    return "\n".join(l for l in out.split("\n") if not re.match(r"(Parsing|Semantic|Linting|Computed|Progress|Starting|Finished|<<.WHY|<<.REJ)", l))[:3000]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(few=False):
    """Builds the driver against /repo's current working tree; returns the binary's path.
    few: with few codecs, one of them from another library."""
    target = os.path.join(REPO, "target")
    if not (os.path.isdir(target) and os.access(target, os.W_OK)):
        target = os.path.join(ROOT, "target")
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=target)
    env["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", "")
    for t in (target, os.path.join(ROOT, "target")):
        env["CARGO_TARGET_DIR"] = t
        if few:
            env["CARGO_TARGET_DIR"] = t = os.path.join(t, "few")
        r = sh(["cargo", "build", "--offline", "-q"] + (["--no-default-features", "--features", "few"] if few else []), cwd=os.path.join(ROOT, "harness"), env=env)
        if r.returncode == 0:
            return os.path.join(t, "debug", "harness")
    raise ToolError("driver does not build:\n" + r.stdout[-4000:])


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.detail = {}
        self.violations = []
        self.assumptions = []
        self.n = 0
        self.bins = {}
        self.known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l:
                    k = json.loads(l)
                    if k["property"] == pid and k.get("status") == "known":
                        self.known.append(k)
        self.known_hit = set()

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env, workers, timeout, extra=(), mem="3g"):
        self.n += 1
        meta = os.path.join(self.work, "tlc%d" % self.n)
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-XX:ParallelGCThreads=2", "-cp", TLA_CP, "tlc2.TLC", "-metadir", meta,
               "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *extra, module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        try:
            r = sh(cmd, cwd=SPECS, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        shutil.rmtree(meta, ignore_errors=True)
        return r

    @staticmethod
    def _stats(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(d.replace(",", "")), int(g.replace(",", ""))

    def mc(self, module, cfg=None, env=None, workers=8, timeout=850, extra=()):
        """Exhaustive model checking of the specification. A failure here is an error of the specification."""
        cfg = cfg or module + ".cfg"
        t = time.time()
        r = self._tlc(module, cfg, env or {}, workers, timeout, extra, mem="8g")
        if r.returncode != 0 or "No error has been found" not in r.stdout:
            raise ToolError("TLC rejects the specification %s/%s:\n%s" % (module, cfg, brief(r.stdout)))
        d, g = self._stats(r.stdout)
        self.states += d
        self.transitions += g
        self.detail.setdefault("model_runs", []).append(
            dict(module=module, cfg=cfg, distinct_states=d, states_generated=g, wall_s=round(time.time() - t, 1)))
        return r.stdout

    def gen(self, module, cfg=None, env=None, workers=8, timeout=600):
        """Runs a generator specification, which writes the cases it enumerates (with expected outcome) to $OUT."""
        out = os.path.join(self.work, module + ".cases.ndjson")
        if os.path.exists(out):
            os.remove(out)
        self.mc(module, cfg, dict(env or {}, OUT=out, SEED=self.seed, TIER=self.tier), workers, timeout)
        cases = [json.loads(l) for l in open(out)]
        if not cases:
            raise ToolError("generator %s produced no cases" % module)
        return cases

    # ---------------------------------------------------------------- driver
    def run(self, kind, cases, timeout=600, mem=6 << 30, few=False):
        """Executes cases in the real code; one outcome per case. A crash or hang of the code under test is an
        outcome too."""
        if few not in self.bins:
            self.bins[few] = build(few)
        bin = self.bins[few]
        todo = list(range(len(cases)))
        outs = [None] * len(cases)
        shards = min(8, max(1, len(cases) // 50))
        parts = [todo[i::shards] for i in range(shards)]

        def one(part):
            rest = part
            while rest:
                p = subprocess.Popen([bin, kind], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, text=True,
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem)))
                try:
                    so, _ = p.communicate("".join(json.dumps(cases[i]) + "\n" for i in rest), timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    so, _ = p.communicate()
                lines = so.split("\n")
                done = 0
                for l in lines[:-1]:
                    if l:
                        outs[rest[done]] = json.loads(l)
                        done += 1
                if done < len(rest):
                    if p.returncode == 3:
                        raise ToolError("driver refused kind %s" % kind)
                    if p.returncode != 4:  # 4: hang, already reported by the watchdog
                        outs[rest[done]] = {"crash": "exit status %s" % p.returncode}
                        done += 1
                rest = rest[done:]

        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, parts))
        return outs

    def replay(self, kind, cases, expect="expect", project=None):
        """Specification -> code: each case carries the outcome the specification predicts."""
        outs = self.run(kind, [{k: v for k, v in c.items() if k != expect} for c in cases])
        bad = 0
        for c, o in zip(cases, outs):
            oo = project(o) if project else o
            if oo != c[expect]:
                bad += 1
                self.violation(kind, c, o, "observed outcome differs from the specification's")
        self.traces += len(cases)
        self.detail.setdefault("replayed", {})
        self.detail["replayed"][kind] = self.detail["replayed"].get(kind, 0) + len(cases)
        if cases:
            self.sample({"replayed": kind, "case": cases[self.rng.randrange(len(cases))]})
        return outs

    def judge(self, module, kind, cases, cfg=None, timeout=800, shards=8, outs=None, env=None):
        """Code -> specification: run the cases in the real code, let TLC accept or reject each record."""
        t = time.time()
        if outs is None:
            outs = self.run(kind, cases)
        recs = [{"in": c, "out": o} for c, o in zip(cases, outs)]
        cfg = cfg or "Judge.cfg"
        live = []
        for j, r in enumerate(recs):
            o = r["out"]
            if isinstance(o, dict) and ("panic" in o or "crash" in o or "hang" in o):
                self.violation(kind, r["in"], o, "the code under test panicked, crashed or hung")
            else:
                live.append(j)
        shards = max(1, min(shards, (len(live) + 19) // 20))
        parts = [live[i::shards] for i in range(shards)]

        def one(k):
            part = parts[k]
            if not part:
                return []
            path = os.path.join(self.work, "%s.%s.%d.ndjson" % (module, kind, k))
            with open(path, "w") as f:
                for j in part:
                    f.write(json.dumps(recs[j]) + "\n")
            r = self._tlc(module, cfg, dict(env or {}, TRACE=path), 1, timeout)
            if "No error has been found" not in r.stdout or r.returncode != 0:
                # a record the specification has no meaning for (a field it needs is missing, or of another kind)
                at = [int(x) for x in re.findall(r"^i = (\d+)$", r.stdout, re.M)]
                if not at or at[-1] > len(part) or not re.search(r"Attempted to|occurred when TLC was evaluating|is not in the domain|not a field", r.stdout):
                    raise ToolError("TLC failed on records for %s:\n%s" % (module, brief(r.stdout)))
                return r.stdout, part, at[-1], at[-1], at[-1]
            d, g = self._stats(r.stdout)
            return r.stdout, part, d, g, 0

        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(parts))))
        for x in res:
            if not x:
                continue
            so, part, d, g, odd = x
            if odd:
                j = part[odd - 1]
                self.violation(kind, recs[j]["in"], recs[j]["out"], "the record has no meaning in the specification (module %s)" % module)
            self.states += d
            self.transitions += g
            why = []
            for m in re.finditer(r'"(REJECT|WHY)", ("[^"]*"|\d+)', so):
                if m.group(1) == "WHY":
                    why.append(m.group(2).strip('"'))
                    continue
                j = part[int(m.group(2)) - 1]
                self.violation(kind, recs[j]["in"], recs[j]["out"],
                               "TLC rejects the record (module %s): %s" % (module, ", ".join(why[-6:])))
                why = []
        self.traces += len(live)
        self.detail.setdefault("judged", {})
        self.detail["judged"][module + "/" + kind] = self.detail["judged"].get(module + "/" + kind, 0) + len(live)
        self.detail.setdefault("judge_wall_s", {})[module + "/" + kind] = round(time.time() - t, 1)
        if recs:
            self.sample({"validated": module, "record": recs[self.rng.randrange(len(recs))]})
        return outs

    # ---------------------------------------------------------------- verdict
    def sample(self, s):
        t = json.dumps(s)
        if len(t) > 3000:
            s = {"truncated": t[:3000]}
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, kind, case, out, why):
        for k in self.known:
            if k["kind"] == kind and all(case.get(a) == b for a, b in k["match"].items()):
                if k["id"] not in self.known_hit:
                    self.known_hit.add(k["id"])
                return
        self.violations.append(dict(property=self.pid, kind=kind, why=why, case=case, observed=out))

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                                **self.detail),
                  assumptions=self.assumptions, wall_s=round(wall, 1), violations=len(self.violations))
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            # a listed finding is reported whether or not this run met it
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            rd = os.path.join(ROOT, "work", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                path = os.path.join(rd, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump(v, f)
                print("%s: %s\n  case %s\n  observed %s" % (v["kind"], v["why"], json.dumps(v["case"])[:600],
                                                            json.dumps(v["observed"])[:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("%d violations" % len(self.violations))
            return 1
        print("OK %s tier=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.tier, self.states, self.traces, wall))
        return 0


def main(argv):
    if argv[1] == "--replay":
        v = json.load(open(argv[2]))
        b = build()
        p = subprocess.run([b, v["kind"]], input=json.dumps(v["case"]) + "\n", text=True, stdout=subprocess.PIPE)
        print("case:", json.dumps(v["case"]))
        print("observed now:", p.stdout)
        return 0
    pid = argv[1]
    import importlib
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    try:
        mod = importlib.import_module(pid.lower())
        c = Check(pid)
        mod.check(c)
        return c.finish()
    except ToolError as e:
        print("TOOL ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
