"""Shared machinery of the checks: TLC runner, evidence, violations, watchdog."""
import concurrent.futures
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself failed; nothing was decided."""


class EvaluationError(MachineryError):
    """TLC could not evaluate the specification on what it was given."""


class CaseTimeout(BaseException):
    """Code under test did not finish in time."""


class TlcResult:
    def __init__(self, out, generated, distinct, wall):
        self.out, self.generated, self.distinct, self.wall = out, generated, distinct, wall

    def lines(self, tag):
        """Decoded JSON payloads of the PrintT lines with this tag."""
        pre = '"' + tag + ' '
        for line in self.out.splitlines():
            if line.startswith(pre):
                yield json.loads(json.loads(line)[len(tag) + 1:])


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.scratch = None
        self.t0 = time.time()
        self.states = 0          # distinct states TLC found (exhaustive models)
        self.transitions = 0     # transitions / table rows TLC generated
        self.steps = 0           # model transitions replayed into the code
        self.events = 0          # recorded events of the code judged by TLC
        self.rows = 0            # expected results (TLC) compared with the code
        self.samples = []
        self.coverage = {}
        self.assumptions = []
        self.level = "model_checking"
        self.violations = []
        self.known = self._load_known()
        self.known_hit = set()
        self._case = None

    # ------------------------------------------------------------ known findings
    def _load_known(self):
        res = {}
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    res[m.group(2)] = m.group(3).strip()
        return res

    # ------------------------------------------------------------ violations
    def violation(self, what, data=None, key=None):
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print(f"KNOWN-FINDING: property={self.prop} {self.known[key]}")
            return
        self.violations.append({"what": what, "data": data})
        n = len(self.violations)
        if n <= int(os.environ.get("VERIF_SHOW", "5")):
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{n}.json")
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "what": what, "seed": self.seed,
                           "tier": self.tier, "data": data}, fh, indent=1, default=repr)
            print(f"VIOLATION property={self.prop} replay={path}")
            print("  " + str(what)[:600])
            sys.stdout.flush()
        if n >= 200:
            raise StopIteration

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    # ------------------------------------------------------------ watchdog
    def limit(self, seconds):
        """Context: code under test must finish within this time."""
        ctx = self

        class _L:
            def __enter__(self):
                signal.setitimer(signal.ITIMER_REAL, seconds)

            def __exit__(self, *a):
                signal.setitimer(signal.ITIMER_REAL, 0)
                return False
        return _L()

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, mem="3g", count=True,
            simulate=None):
        """Run TLC on spec/<module>.tla with this cfg text."""
        d = tempfile.mkdtemp(dir=self.scratch)
        cfgp = os.path.join(d, "m.cfg")
        with open(cfgp, "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
               f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", cfgp, "-workers", str(workers), "-deadlock"]
        if simulate:
            cmd += simulate
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = r.stdout
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states", out):
            pass
        gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) \
            if m else (0, 0)
        if r.returncode != 0 or "Error:" in out:
            bad = [x for x in out.splitlines() if not x.startswith('"')]
            err = MachineryError
            if re.search("Attempted to|nested expressions|of the domain|not in its domain", out) and \
                    not re.search("OutOfMemory|heap space|StackOverflow", out + r.stderr):
                err = EvaluationError
            raise err(f"TLC failed on {module} rc={r.returncode}:\n"
                                 + "\n".join(bad)[-1500:] + r.stderr[-800:])
        shutil.rmtree(d, ignore_errors=True)
        if count:
            self.states += dist
            self.transitions += gen
        return TlcResult(out, gen, dist, time.time() - t)

    def table(self, module, cfg="", env=None, out="OUT", timeout=600, mem="3g"):
        """Run a model whose ASSUME writes rows to the file $OUT (ndjson); return the rows."""
        path = tempfile.mktemp(dir=self.scratch, suffix=".ndjson")
        e = dict(env or {})
        e[out] = path
        self.last = self.tlc(module, cfg, e, count=False, timeout=timeout, mem=mem)
        rows = [json.loads(x) for x in open(path)]
        self.states += len({json.dumps(r, sort_keys=True) for r in rows})
        return rows

    def judge(self, module, events, chunk=None, env=None, timeout=800, par=6, label=None,
              keyf=None, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", groups=None, only=None):
        """
        Validate recorded events against the trace specification spec/<module>.tla.

        The module prints "BAD {l, clauses}" for every event it does not allow, and DONE at the
        end.  Returns the list of (event, clauses); reports them as violations.
        groups: lists of events that must stay together, in order; only: clauses to report.
        """
        if groups is not None:
            parts = [[] for _ in range(par)]
            for g in sorted(groups, key=len, reverse=True):
                min(parts, key=len).extend(g)
            parts = [p for p in parts if p]
            events = [e for p in parts for e in p]
        if not events:
            return []
        n = len(events)
        if chunk is None:
            chunk = max(1, min(400, (n + par - 1) // par))
        if groups is None:
            parts = [events[i:i + chunk] for i in range(0, n, chunk)]

        def one(part):
            path = tempfile.mktemp(dir=self.scratch, suffix=".ndjson")
            with open(path, "w") as fh:
                for ev in part:
                    fh.write(json.dumps(ev["ev"] if "ev" in ev else ev) + "\n")
            e = dict(env or {})
            e["TRACE"] = path
            try:
                r = self.tlc(module, cfg, e, count=False, timeout=timeout)
            except EvaluationError as exc:   # the recorded behaviour is outside the specification's domain
                return [({"info": [x.get("info") for x in part][:50], "ev": str(exc)}, ["unknown_form"])]
            done = list(r.lines("DONE"))
            if not done or done[0]["n"] != len(part):
                raise MachineryError(f"{module}: trace was not consumed: {done} of {len(part)}")
            os.unlink(path)
            self.states += r.distinct
            self.transitions += r.generated
            return [(part[b["l"] - 1], b["clauses"]) for b in r.lines("BAD")]
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            res = [x for bad in ex.map(one, parts) for x in bad]
        self.events += n
        for ev, clauses in res:
            clauses = [c for c in clauses if only is None or c in only or c == "unknown_form"]
            if not clauses:
                continue
            self.violation(f"{label or module}: the specification does not allow this event; "
                           f"failing clauses {sorted(clauses)}",
                           {"clauses": clauses, "info": ev.get("info"), "event": ev.get("ev", ev)},
                           key=keyf(ev, clauses) if keyf and clauses != ["unknown_form"] else None)
        return res

    # ------------------------------------------------------------ main
    def main(self, body):
        self.scratch = tempfile.mkdtemp(prefix="verif-" + self.prop + "-")
        rc = 2
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

            def on_alarm(*_):
                raise CaseTimeout()
            signal.signal(signal.SIGALRM, on_alarm)
            sys.setrecursionlimit(3000)
            try:
                body()
            except StopIteration:
                pass
            except MachineryError:
                raise
            except (Exception, CaseTimeout) as exc:
                signal.setitimer(signal.ITIMER_REAL, 0)
                tb = traceback.extract_tb(exc.__traceback__)
                inside = any(f.filename.startswith(os.path.join(REPO, "gemd")) for f in tb)
                if not inside and isinstance(exc, (OSError, MemoryError, CaseTimeout)):
                    raise
                what = "the code under test raised on an operation that the specification allows" if inside \
                    else "an observation of the code has a form that the specification does not know"
                self.violation(f"{what}: {type(exc).__name__}: {exc}", {"traceback": traceback.format_exc()})
            rc = 1 if self.violations else 0
            self.write_evidence()
        except BaseException:
            traceback.print_exc()
            rc = 1 if self.violations else 2
            try:
                self.write_evidence()
            except Exception:
                pass
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        w = time.time() - self.t0
        print(f"{self.prop} {self.tier}: {'ok' if rc == 0 else 'FAILED' if rc == 1 else 'ERROR'} "
              f"states={self.states} transitions={self.transitions} replayed={self.steps} "
              f"rows={self.rows} events={self.events} wall={w:.1f}s")
        sys.stdout.flush()
        return rc

    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.steps + self.rows + self.events,
            "model_transitions_replayed": self.steps,
            "model_rows_compared": self.rows,
            "recorded_events_judged_by_tlc": self.events,
            "samples": self.samples or ["none"],
        }
        cov.update(self.coverage)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=repr)


# ---------------------------------------------------------------- replay of a state graph
class Graph:
    """State graph from the EDGE lines of a model: {from, op, out, to}."""

    def __init__(self, edges, init):
        self.key = lambda s: json.dumps(s, sort_keys=True)
        self.adj = {}
        self.n = 0
        self.init = self.key(init)
        self.state = {self.init: init}
        seen = set()
        for e in edges:
            a, b = self.key(e["from"]), self.key(e["to"])
            self.state.setdefault(a, e["from"])
            self.state.setdefault(b, e["to"])
            k = (a, self.key(e["op"]))
            if k in seen:
                continue
            seen.add(k)
            self.adj.setdefault(a, []).append((e["op"], e.get("out"), b))
            self.n += 1


def walks(graph, rng, max_len=300):
    """Walks from the initial state that together take every transition."""
    todo = {s: list(range(len(es))) for s, es in graph.adj.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(map(len, todo.values()))
    cur, walk = graph.init, []
    back, dead = {}, set()      # dead: nothing is left to do from here on
    for s, es in graph.adj.items():
        for e in es:
            back.setdefault(e[2], set()).add(s)

    def retire(s):
        stack = [s]
        while stack:
            s = stack.pop()
            if s not in dead and not todo.get(s) and all(e[2] == s or e[2] in dead for e in graph.adj.get(s, ())):
                dead.add(s)
                stack.extend(back.get(s, ()))
    for s in graph.state:
        if s not in graph.adj:
            retire(s)
    while left:
        if len(walk) >= max_len:
            yield walk
            cur, walk = graph.init, []
        if todo.get(cur):
            i = todo[cur].pop()
            left -= 1
            e = graph.adj[cur][i]
            walk.append(e)
            if not todo[cur]:
                retire(cur)
            cur = e[2]
            continue
        # nearest state with an untaken transition
        prev, queue, goal = {cur: None}, [cur], None
        for s in queue:
            if todo.get(s):
                goal = s
                break
            for e in graph.adj.get(s, ()):
                if e[2] not in prev and e[2] not in dead:
                    prev[e[2]] = (s, e)
                    queue.append(e[2])
        if goal is None:
            dead.update(prev)
            if cur == graph.init and not walk:
                return  # unreachable remainder cannot exist: edges come from reachable states
            yield walk
            cur, walk = graph.init, []
            continue
        path = []
        while prev[goal] is not None:
            s, e = prev[goal]
            path.append(e)
            goal = s
        path.reverse()
        walk.extend(path)
        cur = walk[-1][2] if walk else graph.init
    if walk:
        yield walk


def replay(ctx, graph, make_world, label, max_len=300, per_op=20):
    """Take every transition of the model in the code and compare outcome and state."""
    for walk in walks(graph, ctx.rng, max_len):
        world = make_world()
        done = []

        def project():
            try:
                return world.project()
            except Exception as exc:
                return f"cannot be read: {type(exc).__name__}: {exc}"
        try:
            with ctx.limit(per_op):
                st = project()
            if graph.key(st) != graph.init:
                ctx.violation(f"{label}: initial state differs from the model",
                              {"model": graph.state[graph.init], "code": st})
                return
            for op, out, to in walk:
                done.append(op)
                known = world.known(op) if hasattr(world, "known") else None
                with ctx.limit(per_op):
                    got = world.apply(op)
                    st = project()
                ctx.steps += 1
                if out is not None and got != out:
                    ctx.violation(f"{label}: {op} gave {got}, the model says {out}",
                                  {"history": done, "op": op, "model": out, "code": got})
                    break
                if graph.key(st) != to:
                    same = known and graph.key(st) == graph.key(known[1])
                    ctx.violation(f"{label}: after {op} the state differs from the model",
                                  {"history": done, "op": op, "model": graph.state[to],
                                   "code": st}, key=known[0] if same else None)
                    if not same:
                        break
                    world.force(graph.state[to])   # go on from the state it should have reached
                    done = [{"forced": graph.state[to]}]
        except CaseTimeout:
            ctx.violation(f"{label}: does not terminate", {"history": done})
        finally:
            if hasattr(world, "close"):
                world.close()
