"""Driver: builds the harnesses, runs scripts, lets TLC decide."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import build as B

ROOT = B.ROOT
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:" \
       "/opt/veriftools/tla/CommunityModules-deps.jar"


def event(ln):
    if not ln.startswith('{"e":"') or "\ufffd" in ln:
        return False
    try:
        return isinstance(json.loads(ln), dict)
    except ValueError:
        return False


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.replay = replay


class Group:
    """Commands for one harness process, run with one or several builds."""

    def __init__(self, name, lines, variants, cost=1):
        self.name = name
        self.lines = lines
        self.variants = variants if isinstance(variants, list) else [variants]
        self.cost = cost


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.bins = {}
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": [],
                    "events": {}, "models": {}, "builds": []}
        self.assumptions = []
        self.violations = []
        self.lock = threading.Lock()
        self.jobs = 8
        self.known = []

    # ---- tiers
    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # ---- building
    def build(self, targets):
        self.bins.update(B.build(targets, self.jobs))
        for h, v in targets:
            n = h + ":" + v
            if n not in self.cov["builds"]:
                self.cov["builds"].append(n)

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=600,
            mem="2g"):
        with self.lock:
            self._n = getattr(self, "_n", 0) + 1
            n = self._n
        d = os.path.join(self.tmp, "tlc%d" % n)
        os.makedirs(d)
        cf = os.path.join(d, "c.cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1
               else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem,
               "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + d, "-Dtlc2.TLC.stopAfter=%d" % timeout,
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
               "-workers", str(workers), "-metadir", d, "-config", cf]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e,
                               cwd=d, timeout=timeout + 60)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        out = p.stdout + p.stderr
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, out

    @staticmethod
    def stats(out):
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:                       # simulation
            return int(m.group(1)), 0, 0
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        d = re.search(r"depth of the complete state graph search is (\d+)",
                      out)
        return (int(m.group(1)) if m else 0, int(m.group(2)) if m else 0,
                int(d.group(1)) if d else 0)

    def model(self, module, cfg, workers=2, timeout=600, name=None,
              mem="3g"):
        """Exhaustive check of a model; a failure is an error of ours."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout,
                           mem=mem)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("model %s fails:\n%s" % (module, out[-3000:]))
        g, dist, depth = self.stats(out)
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += g
            self.cov["models"][name or module] = {
                "states": dist, "transitions": g, "depth": depth}
        return out

    def refuted(self, module, cfg, name, workers=2, timeout=300):
        """The assumption left out in cfg is needed: TLC must find a
        counterexample."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout)
        if not re.search(r"Invariant \w+ is violated", out):
            raise ToolError("no counterexample in %s:\n%s" % (name,
                                                              out[-3000:]))
        with self.lock:
            self.cov["models"][name] = {"counterexample": True}

    def works(self, harness, variant):
        """can this build run here?"""
        sf = os.path.join(self.tmp, "empty.script")
        open(sf, "w").close()
        p = subprocess.run([self.bins[(harness, variant)], sf,
                            sf + ".out"], capture_output=True)
        return p.returncode == 0

    def generate(self, module, cfg, extra=(), workers=1, timeout=300):
        """Behaviours printed by a generator specification: lines @@json"""
        rc, out = self.tlc(module, cfg, workers=workers, extra=extra,
                           timeout=timeout)
        res = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
        if rc != 0 or not res:
            raise ToolError("generator %s:\n%s" % (module, out[-3000:]))
        g, dist, depth = self.stats(out)
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += g
            o = self.cov["models"].setdefault(module, {
                "states": 0, "transitions": 0, "behaviours": 0})
            o["states"] += dist
            o["transitions"] += g
            o["behaviours"] += len(res)
        return res

    # ---- running the code
    def run_harness(self, harness, variant, groups, tag, timeout=120):
        sf = os.path.join(self.tmp, tag + ".script")
        of = os.path.join(self.tmp, tag + ".out")
        with open(sf, "w") as f:
            for g in groups:
                f.write("group %s\n" % g.name)
                for ln in g.lines:
                    f.write(ln + "\n")
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
        wd = os.path.join(self.tmp, tag + ".wd")
        os.makedirs(wd, exist_ok=True)
        try:
            p = subprocess.run(
                [self.bins[(harness, variant)], sf, of, str(timeout)],
                capture_output=True, text=True, errors="replace", env=env,
                cwd=wd, timeout=850)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        if p.returncode:
            raise ToolError("harness %s failed: %s" % (harness,
                                                       p.stderr[-2000:]))
        shutil.rmtree(wd, ignore_errors=True)
        with open(of, errors="replace", newline="\n") as f:
            lines = f.read().rstrip("\n").split("\n")
        os.unlink(of)
        if not lines or lines[-1] != '{"e":"end"}':
            raise ToolError("harness %s: truncated output" % harness)
        res = []
        cur = None
        for ln in lines[:-1]:
            if ln.startswith('{"e":"group"'):
                cur = []
                res.append(cur)
            elif cur is None:
                raise ToolError("harness %s: %s" % (harness, ln[:200]))
            elif ln.startswith('{"e":"') and not ln.endswith("}"):
                continue                    # cut by a crash
            elif not event(ln):     # the code wrote over what is recorded
                cur.append('{"e":"crash","garbage":%s}'
                           % json.dumps(ln[:200]))
            else:
                cur.append(ln)
        if len(res) != len(groups):
            raise ToolError("harness %s: groups" % harness)
        for r in res:
            for ln in r[-2:]:
                if ln.startswith('{"e":"exception"') and "script:" in ln:
                    raise ToolError("harness: " + ln)
                if ln.startswith('{"e":"crash"') and '"sig":9' in ln:
                    raise ToolError("harness was killed")
        return res, p.stderr

    def trace_of(self, harness, groups, tag):
        """Runs the groups; returns the trace and the line of each group"""
        per = {}
        err = ""
        for v in sorted({v for g in groups for v in g.variants}):
            gs = [g for g in groups if v in g.variants]
            r, e = self.run_harness(harness, v, gs, tag + "-" + v)
            err += e
            for g, ev in zip(gs, r):
                per[(id(g), v)] = ev
        lines, starts = [], []
        for g in groups:
            starts.append(len(lines))
            lines.append('{"e":"group","name":%s}' % json.dumps(g.name))
            for i, v in enumerate(g.variants):
                if i:
                    lines.append('{"e":"same","v":"%s"}' % v)
                lines += per[(id(g), v)]
        lines.append('{"e":"end"}')
        return lines, starts, err

    def accept(self, module, cfg, lines, tag, timeout=800):
        tf = os.path.join(self.tmp, tag + ".ndjson")
        with open(tf, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, out = self.tlc(module, cfg, env={"TRACE": tf}, timeout=timeout)
        ok = "No error has been found" in out
        rej = "Postcondition" in out and "is false" in out
        g, dist, depth = self.stats(out)
        if ok and rc == 0:
            if depth - 1 != len(lines):
                raise ToolError("TLC accepted a partial trace")
            os.unlink(tf)
            return True, depth, out
        if rej and not ok:
            return False, depth, out
        i = max(out.find("Error:"), 0)
        raise ToolError("TLC failed on a trace (%s):\n%s\n...\n%s" % (
            tag, out[i:i + 1500], out[-1000:]))

    def shard(self, groups, n):
        bins = [[0, []] for _ in range(n)]
        for i, g in sorted(enumerate(groups), key=lambda t: -t[1].cost):
            b = min(bins, key=lambda x: x[0])
            b[0] += g.cost * len(g.variants)
            b[1].append((i, g))
        return [[g for _, g in sorted(b[1], key=lambda t: t[0])]
                for b in bins if b[1]]

    def validate(self, harness, groups, module, cfg, shards=8):
        """Runs the groups with the code, then TLC on the traces.  cfg is
        the text of the configuration."""
        if not groups:
            raise ToolError("nothing to validate")
        parts = self.shard(groups, shards)

        def one(x):
            i, gs = x
            with self.lock:
                self._s = getattr(self, "_s", 0) + 1
                tag = "%s-s%d" % (harness, self._s)
            lines, starts, err = self.trace_of(harness, gs, tag)
            ok, depth, out = self.accept(module, cfg, lines, tag)
            with self.lock:
                ev = self.cov["events"]
                for ln in lines:
                    k = ln[6:ln.index('"', 6)]
                    ev[k] = ev.get(k, 0) + 1
                if len(self.cov["samples"]) < 4:
                    g = gs[0]
                    self.cov["samples"].append(
                        {"group": g.name, "builds": g.variants,
                         "script": [x[:200] for x in g.lines[:12]],
                         "last_event": lines[-2][:300]})
            if ok:
                with self.lock:
                    self.cov["traces_validated_against_impl"] += sum(
                        len(g.variants) for g in gs)
                    self.cov["states"] += depth
                    self.cov["transitions"] += depth - 1
                return None
            at = depth - 1              # index of the rejected event
            gi = max(k for k in range(len(starts)) if starts[k] <= at)
            end = starts[gi + 1] if gi + 1 < len(gs) else len(lines) - 1
            return gs[gi], lines[at], err, lines[starts[gi]:end] + [
                '{"e":"end"}']

        with ThreadPoolExecutor(len(parts)) as ex:
            res = [r for r in ex.map(one, list(enumerate(parts))) if r]
        for g, ln, err, tr in res[:3]:
            self.confirm(harness, g, module, cfg, ln, err, tr)

    def confirm(self, harness, g, module, cfg, ln, err, first):
        """the rejected group alone; what the code does only now and then
        (races, uninitialized memory) is decided by the first recording"""
        for attempt in range(4):
            lines, starts, e2 = self.trace_of(harness, [g], "confirm")
            ok, depth, out = self.accept(module, cfg, lines, "confirm")
            if not ok:
                break
        if ok:
            lines = first
            ok, depth, out = self.accept(module, cfg, lines, "confirm")
            if ok or '"sig":14' in ln or "bad_alloc" in ln:
                raise ToolError("a rejection was not repeated: %s %s"
                                % (g.name, ln[:300]))
        bad = lines[depth - 1]
        n = len(self.violations) + 1
        d = os.path.join(ROOT, "replay", "%s-%d-%d" % (self.pid, self.seed,
                                                       n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "script.txt"), "w") as f:
            f.write("group %s\n" % g.name + "\n".join(g.lines) + "\n")
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            f.write("\n".join(lines) + "\n")
        with open(os.path.join(d, "spec.cfg"), "w") as f:
            f.write(cfg)
        with open(os.path.join(d, "README"), "w") as f:
            f.write("harness %s, builds %s\nevent %d is not permitted by "
                    "%s:\n%s\n\nTLC's last state:\n%s\nstderr:\n%s\n"
                    % (harness, g.variants, depth, module, bad[:4000],
                       out[-3000:], (e2 or err)[-3000:]))
        self.violations.append({"group": g.name, "event": bad[:1000],
                                "replay": d})

    # ---- in parallel
    def parallel(self, *fs):
        with ThreadPoolExecutor(len(fs)) as ex:
            return [f.result() for f in [ex.submit(f) for f in fs]]

    # ---- end
    def finish(self):
        known = load_known(self.pid)
        real = []
        for v in self.violations:
            k = next((k for k in known if k in v["event"]
                      or k in v["group"]), None)
            if k is not None:
                self.known.append(k)
            else:
                real.append(v)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions,
              "violations": len(real),
              "wall_s": round(time.time() - self.t0, 1)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for v in real:
            print("VIOLATION property=%s replay=%s" % (self.pid,
                                                       v["replay"]))
            print("  " + v["event"][:600])
        return 1 if real else 0


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) (.+)", ln.strip())
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except Exception as e:      # our failure, not the code's
        if c.violations:        # found before
            rc = c.finish()
        else:
            traceback.print_exc()
            print("ERROR: %s: %s" % (pid, str(e)[:2000]), file=sys.stderr)
            rc = 2
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc
