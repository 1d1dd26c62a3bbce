"""Shared explorer harness: exhaustive enumeration of task lists over forked
workers, violation / known-finding bookkeeping, evidence files, replay."""
import argparse, collections, hashlib, json, os, pickle, signal, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digest(obj):
    """8-byte digest of a canonical, repr-able object."""
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Violation(Exception):
    """raise inside a task to report a violation with an identity key"""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Rec:
    """Per-worker recorder."""

    MAXV = 40

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.evaluations = 0
        self.traces = 0
        self.nontrivial = set()
        self.counts = collections.Counter()
        self.violations = []   # (section, index, key, message)
        self.nviol = 0
        self.samples = []
        self.done = 0
        self._where = None

    def state(self, s):
        """record a reached (canonical) state; True when it is new in this worker"""
        d = digest(s)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def eval(self, case=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial and case is not None:
            self.nontrivial.add(digest(case))

    def outcome(self, o):
        self.outcomes.add(digest(o))

    def trace(self, n=1):
        self.traces += n

    def count(self, k, n=1):
        self.counts[k] += n

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, msg):
        self.nviol += 1
        if len(self.violations) < self.MAXV or all(v[2] != key for v in self.violations):
            self.violations.append((*self._where, str(key), str(msg)[:4000]))

    def expect(self, cond, key, msg):
        if not cond:
            self.violation(key, msg() if callable(msg) else msg)
        return cond


class Check:
    def __init__(self, pid, level="model_checking", assumptions=(), rule=None, bounds=None):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--replay")
        ap.add_argument("--section")
        ap.add_argument("--limit", type=int)
        ap.add_argument("-j", type=int, default=int(os.environ.get("VK_J", "8")))
        self.args = ap.parse_args()
        self.pid = pid
        self.level = level
        self.tier = "thorough" if self.args.tier == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.assumptions = list(assumptions)
        self.rule = rule
        self.bounds = dict(bounds or {})
        self.t0 = time.time()
        self.budget = 3 * 3600 if self.thorough else 700
        self.total = Rec()
        self.sections = {}
        self.replay = None
        self.capped = []
        if self.args.replay:
            self.replay = json.load(open(self.args.replay))
        kf = os.path.join(HERE, "findings", "known_findings.json")
        self.known = {}
        for e in json.load(open(kf))["findings"]:
            if e["property"] == pid:
                self.known[e["key"]] = e["what"]

    # ------------------------------------------------------------------
    def section(self, name, tasks, fn, nproc=None, describe=repr, group=None):
        """Run fn(task, rec) for every task.  Every task runs; an exception
        that escapes is a violation (the code under test raised where the
        property requires a result)."""
        if self.args.section and self.args.section != name:
            return
        tasks = list(tasks)
        idx = list(range(len(tasks)))
        if self.replay:
            if self.replay["section"] != name:
                return
            idx = [self.replay["index"]]
        if self.args.limit:
            idx = idx[:self.args.limit]
        if not idx:
            return
        t0 = time.time()
        n = min(nproc or self.args.j, len(idx))
        before = (self.total.done, len(self.total.states), self.total.transitions, self.total.evaluations)
        if n <= 1 and not os.environ.get("VK_FORK"):
            rec = Rec()
            self._run(rec, name, tasks, idx, fn, describe)
            self._merge(rec)
        else:
            if group is None:
                parts = [idx[w::n] for w in range(n)]
            else:
                # keep tasks of one group (e.g. sharing compiled expressions) on one worker
                gs = {}
                for i in idx:
                    gs.setdefault(group(tasks[i]), []).append(i)
                parts = [[] for _ in range(n)]
                for g in sorted(gs.values(), key=len, reverse=True):
                    min(parts, key=len).extend(g)
                parts = [sorted(q) for q in parts if q]
            self._fork(parts, name, tasks, fn, describe)
        self.sections[name] = dict(
            tasks=len(tasks), ran=self.total.done - before[0],
            states=len(self.total.states) - before[1],
            transitions=self.total.transitions - before[2],
            evaluations=self.total.evaluations - before[3],
            wall_s=round(time.time() - t0, 1))
        print(f"# {self.pid} {name}: {self.sections[name]}", flush=True)

    def _run(self, rec, name, tasks, idx, fn, describe, progress=None):
        for i in idx:
            if time.time() - self.t0 > self.budget:
                rec.count("capped_tasks")
                continue
            if progress is not None:
                os.pwrite(progress, b"%12d" % i, 0)
            rec._where = (name, i)
            try:
                fn(tasks[i], rec)
            except Violation as v:
                rec.violation(v.key, f"{v}\ntask: {describe(tasks[i])[:1500]}")
            except Exception as e:
                tb = traceback.format_exc()
                rec.violation(f"exception:{name}:{type(e).__name__}",
                              f"unexpected {type(e).__name__}: {e}\ntask: {describe(tasks[i])[:1500]}\n{tb[-1800:]}")
            rec.done += 1

    def _fork(self, parts, name, tasks, fn, describe):
        work = os.environ.get("VK_WORK", "/tmp")
        jobs = []
        sys.stdout.flush(); sys.stderr.flush()
        for w, mine in enumerate(parts):
            out = os.path.join(work, f"res-{os.getpid()}-{name}-{w}.pkl")
            pf = os.path.join(work, f"prog-{os.getpid()}-{name}-{w}")
            fd = os.open(pf, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.chdir(work)
                    rec = Rec()
                    self._run(rec, name, tasks, mine, fn, describe, progress=fd)
                    with open(out + ".tmp", "wb") as f:
                        pickle.dump(rec, f)
                    os.rename(out + ".tmp", out)
                except BaseException:
                    traceback.print_exc()
                    code = 41
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            jobs.append((pid, out, pf, fd, mine))
        for pid, out, pf, fd, mine in jobs:
            _, st = os.waitpid(pid, 0)
            if os.path.exists(out):
                with open(out, "rb") as f:
                    self._merge(pickle.load(f))
                os.remove(out)
            else:
                # the worker died (signal / hard abort) inside the code under test
                try:
                    i = int(os.pread(fd, 12, 0) or b"-1")
                except ValueError:
                    i = -1
                if st & 0x7f == signal.SIGKILL or (st >> 8) == 41:
                    print(f"ERROR: worker lost in section {name} task {i} status {st}")
                    os._exit(3)
                r = Rec()
                r._where = (name, i)
                r.violation(f"crash:{name}", f"worker process died with status {st} in task {i}: "
                                             f"{describe(tasks[i]) if i >= 0 else ''}")
                self._merge(r)
            os.close(fd)

    def _merge(self, r):
        t = self.total
        t.states |= r.states
        t.outcomes |= r.outcomes
        t.nontrivial |= r.nontrivial
        for k in ("transitions", "evaluations", "traces", "done", "nviol"):
            setattr(t, k, getattr(t, k) + getattr(r, k))
        t.counts.update(r.counts)
        t.violations.extend(r.violations)
        t.samples.extend(r.samples)

    # ------------------------------------------------------------------
    def finish(self):
        t = self.total
        if t.counts.get("capped_tasks"):
            self.capped.append(f"{t.counts['capped_tasks']} tasks not run: time budget {self.budget}s")
        new, known = [], {}
        for v in t.violations:
            if v[2] in self.known:
                known.setdefault(v[2], v)
            else:
                new.append(v)
        cov = dict(tasks=t.done, sections=self.sections, bounds=self.bounds,
                   distinct_outcomes=len(t.outcomes), counters=dict(t.counts),
                   samples=(t.samples[:8] or ["(none)"]),
                   exhaustive=not self.capped, caps=self.capped)
        if self.level == "model_checking":
            cov.update(states=len(t.states), transitions=t.transitions,
                       traces_validated_against_impl=t.traces)
            if t.evaluations:
                cov.update(evaluations=t.evaluations)
        else:
            cov.update(evaluations=t.evaluations, distinct_nontrivial=len(t.nontrivial),
                       rule=self.rule or "")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        if not self.replay and not self.args.section:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            p = os.path.join(HERE, "evidence", f"{self.pid}.json")
            with open(p + ".tmp", "w") as f:
                json.dump(ev, f, indent=1, default=str)
            os.replace(p + ".tmp", p)
        for k, v in known.items():
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}")
        if new and os.environ.get("VK_KEYS"):
            import collections
            for k, c in sorted(collections.Counter(v[2] for v in new).items()):
                print(f"# key {c:5d} {k}")
        if new:
            new.sort(key=lambda v: (list(self.sections).index(v[0]) if v[0] in self.sections else 99, v[1]))
            rd = os.path.join(HERE, ".work", "replay")
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for sec, i, key, msg in new:
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > int(os.environ.get("VK_MAXV", 12)):
                    break
                rp = os.path.join(rd, f"{self.pid}-{sec}-{i}-{len(seen)}.json")
                with open(rp, "w") as f:
                    json.dump(dict(property=self.pid, tier=self.tier, section=sec, index=i, key=key,
                                   message=msg,
                                   how=f"/verif/run.sh {self.pid} --tier {self.tier} --replay {rp}"), f, indent=1)
                print(f"--- [{key}] section={sec} index={i}\n{msg[:1500]}")
                print(f"VIOLATION property={self.pid} replay={rp}")
        print(f"# {self.pid} tier={self.tier} tasks={t.done} states={len(t.states)} transitions={t.transitions} "
              f"evals={t.evaluations} traces={t.traces} outcomes={len(t.outcomes)} violations={len(new)} "
              f"known={len(known)} wall={ev['wall_s']}s {self.capped or ''}")
        sys.stdout.flush()
        os._exit(1 if new else 0)
