"""Running a check: tasks in worker processes, accounting, evidence, verdict."""
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import sys
import time
import traceback
from . import bv, smt, eqv, sx, build

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")

PROGS = {}          # configuration name -> Program, inherited by the workers
NOW = [None]        # running task's Out
DEADLINE = [None]


class Candidate:
    """a solver's counterexample, to be replayed against the real build"""

    def __init__(self, kind, cfg, fn, text, replay=None, confirmed=False, key=None):
        self.kind, self.cfg, self.fn, self.text = kind, cfg, fn, text
        self.replay = replay
        self.confirmed = confirmed
        self.key = key or (kind, cfg, fn)


class Out:
    def __init__(self):
        self.count = {}
        self.functions = set()
        self.paths = 0
        self.steps = 0
        self.candidates = []
        self.samples = []
        self.notes = []
        self.traces = []         # (cfg, scenario lines, expected lines)
        self.stats = {}
        self.eqv = {}
        self.audit = {}

    def add(self, what, n=1):
        self.count[what] = self.count.get(what, 0) + n

    def take(self, ctx, states=()):
        self.functions |= {"%s:%s" % f for f in ctx.functions}
        self.steps += ctx.total_steps
        self.paths += len(states)

    def note(self, s):
        if len(self.notes) < 50:
            self.notes.append(s)


def timeleft():
    return DEADLINE[0] - time.time()


# obligations that a solver verdict (or term identity) settled
DECIDED = {"proved", "cex", "refuted", "known"}


class Skip(Exception):
    pass


def _audit(budget_s=0.15, seed=0):
    """re-prove a sample of the term rewrites made by this task"""
    rec = bv.AUDIT
    bv.AUDIT = None
    out = {"rewrites": len(rec), "sampled": 0, "proved": 0, "undecided": 0, "wrong": 0}
    t0 = time.time()
    rng = random.Random(seed)
    # different shapes first
    shapes = {}
    for r in rec:
        shapes.setdefault((r[0], r[1], r[4].op, r[2][0].op, r[2][1].op), []).append(r)
    order = [rng.choice(v) for _, v in sorted(shapes.items(), key=lambda t: repr(t[0]))]
    rng.shuffle(order)
    for kind, w, args, k, res in order:
        if time.time() - t0 > budget_s:
            break
        raw = bv._mk(kind if kind not in ("add", "sub") else "sum", w, args, k) \
            if kind not in ("add", "sub", "xor", "and", "or") else None
        if kind in ("add", "sub"):
            raw = bv._mk("sum", w, args, ((1, 1 if kind == "add" else bv.mask(w)), 0))
        elif raw is None:
            raw = bv._mk(kind, w, args, None)
        if raw is res:
            continue
        env = eqv.Env(seed=seed + 5)
        a, b = bv.evaluate([raw, res], env)
        out["sampled"] += 1
        if a != b:
            out["wrong"] += 1
            continue
        if len(bv.topo([raw, res])) > 400:
            out["undecided"] += 1
            continue
        r, m = smt.check([bv._mk("xor", 1, (bv._mk("eq", 1, (raw, res)),), 1)], 250,
                         kind="audit", mode="uf", want_model=False)
        if r == "unsat":
            out["proved"] += 1
        else:
            out["undecided"] += 1
    return out


def _run_task(name, fn, kw, seed):
    out = Out()
    NOW[0] = out
    bv.reset()
    smt.stats_reset()
    smt.STATS["audit"] = 0
    before = dict(eqv.COUNT)
    bv.AUDIT = []
    t0 = time.time()
    try:
        if timeleft() < 1:
            raise Skip()
        fn(out, **kw)
    except Skip:
        out.add("skipped")
        out.note("skipped (time): " + name)
    except (sx.Unsupported, sx.Limit, sx.NeedSplit) as e:
        out.add("not encoded")
        out.note("not encoded: %s: %s %s" % (name, type(e).__name__, e))
    except MemoryError:
        out.add("not encoded")
        out.note("out of memory: " + name)
    except Exception:
        out.add("engine error")
        out.note("engine error: %s: %s" % (name, traceback.format_exc()[-1500:]))
    try:
        rec = bv.AUDIT or []
        bv.AUDIT = rec
        if timeleft() > 5 and rec and "audit" not in kw:
            out.audit = _audit(seed=seed)
    except Exception:
        out.note("audit error: " + traceback.format_exc()[-800:])
    bv.AUDIT = None
    out.stats = dict(smt.STATS)
    out.eqv = {k: v - before.get(k, 0) for k, v in eqv.COUNT.items()}
    out.count["task_s"] = time.time() - t0
    return out


def _worker(conn, tasks, seed):
    import faulthandler
    faulthandler.enable(sys.stderr)
    try:
        while True:
            i = conn.recv()
            if i is None:
                break
            name, fn, kw = tasks[i]
            conn.send((i, _run_task(name, fn, kw, seed + i)))
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass
    os._exit(0)


class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.budget = 420 if tier == "quick" else 780
        self.deadline = self.t0 + self.budget
        DEADLINE[0] = self.deadline
        self.level = level
        self.tasks = []
        self.outs = []
        self.bounds = []
        self.assumptions = []
        self.rule = ""
        self.build_s = 0
        self.compile_errors = {}
        self.confirmed = []
        self.unconfirmed = []
        self.known = []
        self.known_hits = []
        self.traces_ok = 0
        self.trace_fail = []
        self.notes = []
        self.extra = {}
        eqv.LEMMA_DIR = os.path.join(build.tmpdir(), "lemmas")
        os.makedirs(eqv.LEMMA_DIR, exist_ok=True)

    def thorough(self):
        return self.tier != "quick"

    # ------------------------------------------------------------ building
    def build(self, cfgs, only=None, extra_srcs=()):
        t = time.time()
        res = build.build(cfgs, only, extra_srcs)
        for n, p in res.items():
            if isinstance(p, build.CompileError):
                self.compile_errors[n] = p
            else:
                PROGS[n] = p
        self.build_s += time.time() - t
        return res

    def task(self, _name, _fn, **kw):
        self.tasks.append((_name, _fn, kw))

    def go(self, workers=8, stop_after=6, task_limit=None):
        """run all queued tasks; returns their outs"""
        tasks = self.tasks
        self.tasks = []
        if not tasks:
            return []
        ctx = multiprocessing.get_context("fork")
        outs = {}
        todo = list(range(len(tasks)))
        todo.reverse()
        limit = task_limit or max(60, (self.deadline - time.time()) * 0.8)
        live = {}
        cands = 0

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(b, tasks, self.seed * 1000003), daemon=True)
            p.start()
            b.close()
            return [p, a, None, 0.0]
        n = min(workers, len(tasks))
        for _ in range(n):
            w = spawn()
            live[w[1]] = w

        def feed(w):
            if todo and cands < stop_after and time.time() < self.deadline:
                i = todo.pop()
                w[2], w[3] = i, time.time()
                w[1].send(i)
                return True
            return False
        for w in list(live.values()):
            if not feed(w):
                w[1].send(None)
                del live[w[1]]
        while live:
            ready = multiprocessing.connection.wait(list(live), timeout=1.0)
            for c in ready:
                w = live[c]
                try:
                    i, o = c.recv()
                    outs[i] = o
                    cands += len(o.candidates)
                    if not feed(w):
                        c.send(None)
                        del live[c]
                except (EOFError, OSError):
                    o = Out()
                    o.add("engine error")
                    o.note("worker died in " + tasks[w[2]][0])
                    outs[w[2]] = o
                    del live[c]
                    if todo:
                        w = spawn()
                        if feed(w):
                            live[w[1]] = w
            now = time.time()
            for c, w in list(live.items()):
                if now > self.deadline + 5 or now - w[3] > limit:
                    w[0].kill()
                    o = Out()
                    o.add("skipped")
                    o.note("time limit: " + tasks[w[2]][0])
                    outs[w[2]] = o
                    del live[c]
                    if todo and now < self.deadline:
                        w = spawn()
                        if feed(w):
                            live[w[1]] = w
        for i in todo:
            o = Out()
            o.add("skipped")
            o.note("not started: " + tasks[i][0])
            outs[i] = o
        res = [outs[i] for i in sorted(outs)]
        self.outs += res
        return res

    # ------------------------------------------------------------ totals
    def total(self, what):
        return sum(o.count.get(what, 0) for o in self.outs)

    def candidates(self):
        return [c for o in self.outs for c in o.candidates]

    # ------------------------------------------------------------ verdict
    def confirm(self, limit=4, tries=14):
        """replay candidates against the real build; keep those that reproduce"""
        from . import replay
        seen = {}
        done = 0
        for c in self.candidates():
            if len(self.confirmed) >= limit or done >= tries:
                break
            n = seen.get(c.key, 0)
            if n >= 3 or any(d.key == c.key for d in self.confirmed):
                continue
            seen[c.key] = n + 1
            done += 1
            try:
                ok, path, log = replay.run(self, c)
            except Exception:
                ok, path, log = False, None, traceback.format_exc()[-1500:]
            c.log = log
            c.path = path
            if ok:
                k = self.is_known(c)
                if k:
                    if k not in self.known_hits:
                        self.known_hits.append(k)
                else:
                    self.confirmed.append(c)
            else:
                self.unconfirmed.append(c)

    def is_known(self, c):
        for k in known_findings():
            if k["property"] == self.pid and k.get("status") == "open" and \
                    all(str(v) in "%s | %s | %s | %s" % (c.kind, c.cfg, c.fn, c.text)
                        for v in k["match"]):
                return k
        return None

    def validate(self, per_cfg=40):
        """run sampled concrete traces of the encoding on the native build"""
        from . import replay
        tr = [t for o in self.outs for t in o.traces]
        rng = random.Random(self.seed)
        rng.shuffle(tr)
        ok, bad = replay.validate(tr[:400], self.deadline + 60)
        self.traces_ok += ok
        self.trace_fail += bad

    def native(self, reps):
        """replays of runs that the encoding says are fine, on the native build;
        reps: (text, replay)"""
        from . import replay
        import concurrent.futures

        def one(t):
            if time.time() > self.deadline:
                return None
            return t[0], replay.outcome(t[1])
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for r in ex.map(one, reps):
                if r is None:
                    continue
                text, (rc, log) = r
                if rc == 0:
                    self.traces_ok += 1
                else:
                    self.trace_fail.append("%s: native says otherwise (%d): %s" %
                                           (text, rc, log[-200:]))

    def finish(self):
        stats = {}
        ev = {}
        audit = {}
        funcs = set()
        for o in self.outs:
            smt.stats_add(o.stats) if False else None
            for k, v in o.stats.items():
                stats[k] = stats.get(k, 0) + v
            for k, v in o.eqv.items():
                ev[k] = ev.get(k, 0) + v
            for k, v in o.audit.items():
                audit[k] = audit.get(k, 0) + v
            funcs |= o.functions
        counts = {}
        for o in self.outs:
            for k, v in o.count.items():
                if k != "task_s":
                    counts[k] = counts.get(k, 0) + v
        notes = self.notes + [n for o in self.outs for n in o.notes]
        samples = []
        for o in self.outs:
            for s in o.samples:
                if len(samples) < 12:
                    samples.append(s)
        cov = {
            "states": sum(o.paths for o in self.outs),
            "transitions": sum(o.steps for o in self.outs),
            "traces_validated_against_impl": self.traces_ok,
            "samples": samples or ["none"],
            "meaning": "states: end states of symbolic paths (each stands for every input meeting "
                       "its path condition); transitions: IR instructions executed symbolically; "
                       "traces: concrete inputs on which encoding and native build were compared",
            "configurations": sorted(PROGS),
            "functions_encoded": sorted(funcs),
            "bounds": self.bounds,
            "obligations": counts,
            "queries": stats.get("queries", 0),
            "queries_trivial": stats.get("trivial", 0),
            "feasibility_queries": stats.get("feasibility", 0),
            "solver_answers": {k: stats.get(k, 0) for k in ("unsat", "sat", "unknown")},
            "solver_s": round(stats.get("solver_s", 0.0), 2),
            "equality_decisions": ev,
            "rewrite_audit": audit,
            "build_s": round(self.build_s, 1),
            "task_s": round(sum(o.count.get("task_s", 0) for o in self.outs), 1),
            "not_covered_this_run": notes[:60],
            "unconfirmed_candidates": ["%s %s %s: %s" % (c.kind, c.cfg, c.fn, c.text)
                                       for c in self.unconfirmed[:10]],
            "trace_mismatches": self.trace_fail[:5],
        }
        cov.update(self.extra)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rc = 0
        for c in self.confirmed:
            print("%s in %s, %s: %s" % (c.kind, c.fn, c.cfg, c.text))
            print("VIOLATION property=%s replay=%s" % (self.pid, c.path))
            rc = 1
        doc = {"property": self.pid, "tier": "quick" if self.tier == "quick" else "thorough",
               "seed": self.seed, "level": self.level, "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
               "violations": len(self.confirmed)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1, default=str)
            f.write("\n")
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        print("%s %s: %s; %d paths, %d instructions, %d queries (%.1f s solver), %d traces, "
              "%d unconfirmed, %.0f s" %
              (self.pid, self.tier, ", ".join("%s %s" % (k, v) for k, v in sorted(counts.items())),
               cov["states"], cov["transitions"], cov["queries"], cov["solver_s"],
               self.traces_ok, len(self.unconfirmed), time.time() - self.t0))
        if not rc and not sum(v for k, v in counts.items() if k in DECIDED):
            print("  nothing was decided: no verdict")
            rc = 2
        if self.unconfirmed:
            for c in self.unconfirmed[:5]:
                print("  unconfirmed: %s %s %s: %s" % (c.kind, c.cfg, c.fn, c.text))
        if self.trace_fail:
            print("  encoding/native mismatch: %r" % self.trace_fail[:2])
        sys.stdout.flush()
        return rc


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def main(argv):
    import importlib
    pid = argv[1]
    tier = "thorough" if "--thorough" in argv else "quick"
    mod = importlib.import_module("engine.checks." + pid.lower())
    ck = Check(pid, tier)
    try:
        mod.run(ck)
    except Exception:
        # no verdict on what failed to run; recorded, never an alarm
        ck.notes.append("check aborted: " + traceback.format_exc()[-2000:])
        traceback.print_exc()
    return ck.finish()
