"""Model-based verification core: TLC runs, transition tours, trace validation, evidence, verdicts."""
import json, os, random, re, shutil, subprocess, sys, time
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)      # where out/ and evidence/ go (only tools/mutate.py sets it)
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = None
for d, _, fs in os.walk("/opt/veriftools/tla"):
    for f in fs:
        if f.startswith("CommunityModules") and f.endswith(".jar"):
            CMJAR = os.path.join(d, f)


class CheckError(Exception):
    """The machinery could not decide (never reported as a violation)."""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


def enc_val(v):
    if isinstance(v, (list, tuple)):
        return " ".join([str(len(v))] + [enc_val(x) for x in v])
    if isinstance(v, bool):
        return "1" if v else "0"
    return str(v)


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed, budget, sub=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.budget = budget
        self.out = os.path.join(OUT, "out", sub or prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.parts = []
        self.assumptions = []
        self.ops = {}
        self.ntmp = 0
        self.exhaustive = True
        self.recipes = {}      # how each program was compiled
        self.pairs = {}        # the same harness twice in one program (built when first needed)
        self.known = load_known(prop)
        self.known_hit = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def tmp(self, suffix):
        self.ntmp += 1
        return os.path.join(self.out, "t%04d%s" % (self.ntmp, suffix))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def rng(self, tag):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, tag))

    # ------------------------------------------------------------------ building
    def build(self, name, sources, defs=(), incs=(), flags=(), cc="gcc", conf="conf", san=True, std=None, only_recipe=False):
        """Compile a harness together with the repository's current sources."""
        exe = os.path.join(self.out, name)
        cmd = [cc, "-O1", "-g", "-w", "-fno-omit-frame-pointer"]
        if san:
            cmd += ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
        if std:
            cmd += ["-std=" + std]
        cmd += ["-I" + os.path.join(HARN, conf), "-I" + HARN, "-I" + REPO, "-I" + os.path.join(REPO, "gel")]
        cmd += ["-I" + i for i in incs]
        cmd += ["-D" + d for d in defs] + list(flags)
        own = [os.path.join(REPO, s) if s.startswith("gel/") else os.path.join(HARN, s) for s in sources]
        self.recipes[exe] = (cmd, own)
        if only_recipe:
            return exe
        r = subprocess.run(cmd + own + ["-o", exe, "-lm"], capture_output=True, text=True)
        if r.returncode != 0 and ("undefined reference" in r.stderr or "collect2" in r.stderr):
            # code may have moved to another source file: link what is missing from the rest of the library
            lib = other_objects(cmd, own, exe + ".d")
            r = subprocess.run(cmd + own + lib + ["-o", exe, "-lm"], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("build of %s failed:\n%s\n%s" % (name, " ".join(cmd), r.stderr[-4000:]))
        return exe

    def probe(self, what, code, incs=(), defs=(), conf="conf"):
        """The documented way of using the interface must compile (used where it once did not)."""
        src = self.tmp(".c")
        open(src, "w").write(code)
        cmd = ["gcc", "-fsyntax-only", "-w", "-I" + os.path.join(HARN, conf), "-I" + HARN, "-I" + REPO, "-I" + os.path.join(REPO, "gel")]
        r = subprocess.run(cmd + ["-I" + i for i in incs] + ["-D" + d for d in defs] + [src], capture_output=True, text=True)
        if r.returncode != 0:
            self.violate(what, [code], "compiles", r.stderr[-1500:])

    # ------------------------------------------------------------------ running the implementation
    def run_impl(self, exe, lines, timeout=None, args=()):
        """Feed the command lines to the harness; returns (results, status)."""
        t = time.time()
        r = self.run_once(exe, lines, timeout, args)
        if r[1] == "crash(-9)":       # ended from outside (memory ran out): once more
            time.sleep(5)
            r = self.run_once(exe, lines, timeout, args)
        if os.environ.get("VERIF_SLOW_RUNS") and time.time() - t > 4:
            print("SLOWRUN %.1f s %d lines %s %s" % (time.time() - t, len(lines), os.path.basename(exe), args), file=sys.stderr)
        return r

    def run_once(self, exe, lines, timeout, args):
        # a call that does not return is recognised by the processor time it takes, whatever else the machine is doing
        cpu = int(timeout or 90 + len(lines) / 1000.0)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
                   LC_ALL="C")
        p = subprocess.Popen(["sh", "-c", 'ulimit -c 0; ulimit -t %d; exec "$0" "$@"' % cpu, exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, cwd=self.out)
        try:
            o, e = p.communicate(("\n".join(lines) + "\n").encode(), timeout=300)
            status = "ok" if p.returncode == 0 else "hang" if p.returncode == -24 else "crash(%d)" % p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            status = "hang"
        out = o.decode("latin1").split("\n")
        if out and out[-1] == "":
            out.pop()
        elif status != "ok" and out:
            out.pop()
        res = []
        for x in out:
            try:
                res.append(json.loads(x))
            except ValueError:
                raise CheckError("unparsable harness output: %r" % x[:300])
        if status == "crash(97)":
            raise CheckError("harness usage error: " + e.decode("latin1")[-500:])
        self.last_err = e.decode("latin1")[-3000:]
        return res, status

    # ------------------------------------------------------------------ two independent users of one library
    def pair(self, exe):
        if exe not in self.pairs:
            cmd, own = self.recipes[exe]
            os.makedirs(exe + ".p", exist_ok=True)
            objs = [os.path.join(exe + ".p", "%d.o" % i) for i in range(len(own))]
            ps = []
            for x, o in zip(own, objs):
                ps.append(subprocess.Popen(cmd + ["-DHX_DUAL", "-c", x, "-o", o] + (["-Dmain=hx_main"] if x.startswith(HARN) else []),
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            for p in ps:
                o = p.communicate()[0]
                if p.returncode:
                    raise CheckError("build of a pair of harnesses failed: " + o[-3000:])
            two = exe + ".pair"
            link = cmd + objs + [os.path.join(HARN, "hx_dual.c")]
            r = subprocess.run(link + ["-o", two, "-lm", "-lpthread"], capture_output=True, text=True)
            if r.returncode and "undefined reference" in r.stderr:
                r = subprocess.run(link + other_objects(cmd, own, exe + ".d") + ["-o", two, "-lm", "-lpthread"], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("build of a pair of harnesses failed: " + r.stderr[-3000:])
            self.pairs[exe] = two
        return self.pairs[exe]

    def run_pair(self, two, merged, args):
        """Answers by command (a command run inside a callback is answered before the one that is under way)."""
        raw, status = self.run_impl(two, merged, args=args)
        at = [(r, t[1:].split()) for r, t in zip(raw, raw[1:]) if isinstance(t, str) and t[:1] == "@"]
        self.pauses = {int(t[0]): int(t[1]) for _, t in at}
        return {int(t[0]): r for r, t in at}, status

    def independent(self, tag, exe, lines, exp, args=(), project=None, reset="reset", limit=None, accept=None):
        """Histories the specification accepted, run again by two users of the library in turn: neither notices the other.
        accept(indices, results): whether the specification allows these results after all."""
        if exe not in self.recipes or len(lines) < 3:
            return
        if self.quick and exe not in self.pairs and len(self.pairs) >= 4:
            return
        t = time.time()
        rng = self.rng("pair" + tag)
        cuts = [i for i, x in enumerate(lines) if x == reset] + [len(lines)]
        segs = [(a, b) for a, b in zip(cuts, cuts[1:])]
        limit = min(limit or 60000, 8000 if self.quick else 60000)
        pick, n = [], 0
        for a, b in rng.sample(segs, len(segs)):
            if n + b - a > limit and pick:
                continue
            pick.append((a, min(b, a + limit)))
            n += min(b - a, limit)
        merged, want, src = [], [], []
        # one lags a little behind the other in the same histories, then both run different ones
        for mode in ("same", "other"):
            q0 = [i for a, b in pick for i in range(a, b)]
            other = pick if mode == "same" else pick[1:] + pick[:1] if len(pick) > 1 else pick
            q1 = [i for a, b in other for i in range(a, b)]
            i = j = 0
            while i < len(q0) or j < len(q1):
                lead = mode == "same" and rng.random() < 0.7 and 1
                k = 0 if j >= len(q1) else 1 if i >= len(q0) else (0 if i <= j else 1) if lead else rng.randrange(2)
                mark = rng.choice("    aabbcdef")
                for _ in range(1 if lead else rng.choice((1, 1, 1, 2, 3))):
                    if k == 0 and i < len(q0):
                        merged.append("0" + mark + lines[q0[i]]); want.append(exp[q0[i]]); src.append(q0[i]); i += 1
                    elif k == 1 and j < len(q1):
                        merged.append("1" + mark + lines[q1[j]]); want.append(exp[q1[j]]); src.append(q1[j]); j += 1
        two = self.pair(exe)
        res, status = self.run_pair(two, merged, args)
        proj = project or (lambda x: x)
        bad = next((i for i in range(len(merged)) if i not in res or want[i] is not None and not same(want[i], proj(res[i]))), None)
        if bad is None and status != "ok":
            bad = len(merged) - 1
        if bad is not None:
            who = merged[bad][0]
            end = bad + 1
            while end < len(merged) and merged[end][0] != who and merged[end][1] != " ":   # these may have run inside it
                end += 1
            start = max(i for i in range(end) if i <= bad and merged[i][0] == who and merged[i][2:] == reset)
            if accept and bad in res and status == "ok":
                own = [i for i in range(start, bad + 1) if merged[i][0] == who]
                if accept([src[i] for i in own], [res[i] for i in own]):
                    return
            for back in (start, max(0, start - 2000), 0):   # the smallest window that still shows it
                keep, on = [], {"0": back == 0, "1": back == 0}
                for x in merged[back:end]:
                    on[x[0]] = on[x[0]] or x[2:] == reset
                    if on[x[0]]:
                        keep.append(x)
                r2, s2 = self.run_pair(two, keep, args)
                last = r2.get(len(keep) - end + bad)
                if last is None or s2 != "ok" or not same(want[bad], proj(last)):
                    self.violate("two users/" + tag + ": one user's calls affect the other", keep, want[bad],
                                 s2 if last is None else last, args)
            raise CheckError("two users/%s: mismatch not reproducible at %s" % (tag, merged[bad]))
        self.steps += len(merged)
        self.traces += 2 * 2 * len(pick)
        self.parts.append({"part": "two users " + tag, "histories": 4 * len(pick), "steps_executed_on_real_code": len(merged),
                           "wall_s": round(time.time() - t, 1)})
        self.log("two users %s: %d histories, %d steps, %.1fs" % (tag, 4 * len(pick), len(merged), time.time() - t))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=1, env=None, timeout=600, extra=(), heap="4g", simulate=None):
        meta = self.tmp(".meta")
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m",
               "-cp", JAR + ":" + (CMJAR or "") , "-DTLA-Library=" + SPEC,
               "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
        cmd += list(extra)
        cmd.append(module)
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, env=e, cwd=self.out, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")

    def write_cfg(self, path, spec="Spec", consts=None, invs=(), props=(), view=None, actc=None, cons=None,
                  post=None, deadlock=False, subst=None):
        L = ["SPECIFICATION " + spec]
        for k, v in (consts or {}).items():
            L.append("CONSTANT %s = %s" % (k, v))
        for k, v in (subst or {}).items():
            L.append("CONSTANT %s <- %s" % (k, v))
        for i in invs:
            L.append("INVARIANT " + i)
        for i in props:
            L.append("PROPERTY " + i)
        if view:
            L.append("VIEW " + view)
        if actc:
            L.append("ACTION_CONSTRAINT " + actc)
        if cons:
            L.append("CONSTRAINT " + cons)
        if post:
            L.append("POSTCONDITION " + post)
        L.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        open(path, "w").write("\n".join(L) + "\n")

    def model_check(self, tag, module, consts, invs=(), props=(), view="View", dump=True, workers=None,
                    timeout=800, spec="Spec", subst=None, heap="6g", cons=None):
        """Exhaustive TLC run; returns the transitions when dump (list of (v, obs, v'))."""
        consts, subst = split_consts(consts, subst)
        stem = "MC_%s_%s" % (module, tag)
        mod = os.path.join(self.out, stem + ".tla")
        with open(mod, "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s, Json, TLC\n" % (stem, module))
            if dump:
                f.write("DumpTransition == PrintT(ToJson(<<%s, obs', %s'>>))\n" % (view, view))
            for k, v in (subst or {}).items():
                f.write("def_%s == %s\n" % (k, v))
            f.write("====\n")
        cfg = os.path.join(self.out, stem + ".cfg")
        self.write_cfg(cfg, spec=spec, consts=consts, invs=invs, props=props, view=view,
                       actc="DumpTransition" if dump else None, cons=cons,
                       subst={k: "def_" + k for k in (subst or {})})
        t = time.time()
        rc, o, e = self.tlc(mod, cfg, workers=workers or (1 if dump else 4), timeout=timeout, heap=heap)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", o)
        if rc != 0 or not m:
            raise CheckError("TLC failed on %s (rc %d)\n%s\n%s" % (stem, rc, tail(o), tail(e)))
        gen, dist = int(m.group(1)), int(m.group(2))
        self.states += dist
        self.transitions += gen
        trans = []
        if dump:
            for line in o.split("\n"):
                if line.startswith('"[') and line.endswith(']"'):
                    trans.append(json.loads(json.loads(line.replace("\\'", "'"))))
        self.parts.append({"part": "TLC exhaustive " + tag, "module": module, "distinct_states": dist,
                           "states_generated": gen, "constants": {k: str(v) for k, v in consts.items()},
                           "substitutions": subst or {},
                           "invariants": list(invs) + list(props), "wall_s": round(time.time() - t, 1)})
        self.log("TLC %s: %d distinct states, %d generated, %d transitions dumped, %.1fs" %
                 (stem, dist, gen, len(trans), time.time() - t))
        return trans

    # ------------------------------------------------------------------ spec -> code: transition tours
    def tours(self, trans, max_len=4000):
        """Walks from the initial state covering every transition."""
        key = lambda v: json.dumps(v, sort_keys=True)
        ids, adj = {}, []

        def sid(v):
            k = key(v)
            if k not in ids:
                ids[k] = len(adj)
                adj.append([])
            return ids[k]

        seen = set()
        if not trans:
            return []
        init = sid(trans[0][0])
        n = 0
        for v, obs, w in trans:
            a, b = sid(v), sid(w)
            k = (a, json.dumps(obs["op"], sort_keys=True), b)
            if k in seen:
                continue
            seen.add(k)
            adj[a].append([b, obs, False])
            n += 1
        unc = [len(x) for x in adj]
        ptr = [0] * len(adj)
        left = n
        # distance/parents from the initial state
        par = {init: None}
        q = deque([init])
        order = []
        while q:
            s = q.popleft()
            order.append(s)
            for e in adj[s]:
                if e[0] not in par:
                    par[e[0]] = (s, e)
                    q.append(e[0])
        dist = {init: 0}
        for s in order[1:]:
            dist[s] = dist[par[s][0]] + 1
        walks, cur, walk = [], init, []
        pend = deque(order)

        def path_to(s):
            p = []
            while par[s] is not None:
                p.append(par[s][1])
                s = par[s][0]
            return p[::-1]

        while left:
            if unc[cur] and len(walk) < max_len:
                while adj[cur][ptr[cur]][2]:
                    ptr[cur] += 1
                e = adj[cur][ptr[cur]]
                e[2] = True
                unc[cur] -= 1
                left -= 1
                walk.append(e)
                cur = e[0]
                continue
            # nearby BFS (bounded), else restart from the initial state
            found = None
            if len(walk) < max_len:
                bp = {cur: None}
                q = deque([cur])
                lim = 400
                while q and lim:
                    lim -= 1
                    s = q.popleft()
                    if unc[s]:
                        found = s
                        break
                    for e in adj[s]:
                        if e[0] not in bp:
                            bp[e[0]] = (s, e)
                            q.append(e[0])
            if found is not None:
                p, s = [], found
                while bp[s] is not None:
                    p.append(bp[s][1])
                    s = bp[s][0]
                # states on the way have no uncovered transitions left (the search stops at the first that has)
                walk.extend(p[::-1])
                cur = found
            else:
                if walk:
                    walks.append([x[1] for x in walk])
                while pend and not unc[pend[0]]:
                    pend.popleft()
                if not pend:
                    break
                tgt = pend[0]
                walk = list(path_to(tgt))
                cur = tgt
        if walk:
            walks.append([x[1] for x in walk])
        return walks, n

    def replay_tours(self, tag, exe, trans, fields, scale=None, args=(), project=None, reset="reset",
                     timeout=None):
        """Replay every transition of the model on the real code and compare the results."""
        t = time.time()
        c = getattr(self, "_tours", None)
        if c is None or c[0] is not trans:
            self._tours = c = (trans, self.tours(trans))
        walks, n = c[1]
        scale = scale or (lambda x: x)
        lines, exp = [], []
        for w in walks:
            lines.append(reset)
            exp.append(None)
            for obs in w:
                o = scale(obs)
                lines.append(self.encode(o["op"], fields))
                exp.append(o["ret"])
                self.count(obs["op"]["op"])
        res, status = self.run_impl(exe, lines, args=args, timeout=timeout)
        self.compare("tour " + tag, exe, lines, exp, res, status, args, project, reset)
        self.steps += len(lines)
        self.traces += len(walks)
        self.parts.append({"part": "tour replay " + tag, "transitions_covered": n, "walks": len(walks),
                           "steps_executed_on_real_code": len(lines), "wall_s": round(time.time() - t, 1)})
        if walks:
            self.samples.append({"kind": "tour " + tag, "commands": lines[1:9],
                                 "observed": res[1:9]})
        self.log("tour %s: %d transitions in %d walks, %d steps, %.1fs" % (tag, n, len(walks), len(lines),
                                                                         time.time() - t))
        self.independent(tag, exe, lines, exp, args, project, reset)

    def compare(self, what, exe, lines, exp, res, status, args=(), project=None, reset="reset"):
        bad = None
        for i in range(len(lines)):
            if i >= len(res):
                bad = i
                break
            if exp[i] is None:
                continue
            if not same(exp[i], res[i] if project is None else project(res[i])):
                bad = i
                break
        if bad is None:
            if status != "ok":
                bad = len(lines) - 1
            else:
                return
        start = max(j for j in range(bad + 1) if lines[j] == reset) if reset in lines[:bad + 1] else 0
        seg, sexp = lines[start:bad + 1], exp[start:bad + 1]
        # confirm on a fresh process
        res2, st2 = self.run_impl(exe, seg, args=args)
        again = len(res2) < len(seg) or st2 != "ok" or \
            (sexp[-1] is not None and not same(sexp[-1], res2[-1] if project is None else project(res2[-1])))
        if not again:
            # context from earlier histories matters (should not): replay everything
            seg, sexp = lines[:bad + 1], exp[:bad + 1]
            res2, st2 = self.run_impl(exe, seg, args=args)
            if not (len(res2) < len(seg) or st2 != "ok" or not same(sexp[-1], res2[-1] if project is None
                                                                    else project(res2[-1]))):
                raise CheckError("%s: mismatch not reproducible at %s" % (what, lines[bad]))
        got = res2[-1] if len(res2) == len(seg) else st2
        self.violate(what, seg, sexp[-1], got, args)

    def violate(self, what, history, expected, got, args=(), extra=None):
        path = os.path.join(self.out, "violation.json")
        json.dump({"property": self.prop, "found_by": what, "harness_args": list(args), "history": history,
                   "expected_by_spec": expected, "observed": got, "stderr": getattr(self, "last_err", "")[-1500:],
                   "extra": extra}, open(path, "w"), indent=1)
        raise Violation("%s: after %s\n  spec: %s\n  code: %s" %
                        (what, " ; ".join(str(h) for h in history[-8:]), json.dumps(expected)[:600], json.dumps(got)[:600]), path)

    def encode(self, e, fields):
        op = e["op"]
        if op not in fields:
            raise CheckError("no field list for op " + op)
        return " ".join([op] + [enc_val(e[f]) for f in fields[op]])

    def count(self, op):
        self.ops[op] = self.ops.get(op, 0) + 1

    # ------------------------------------------------------------------ code -> spec: trace validation
    def trace_check(self, tag, exe, module, histories, fields, consts, invs=(), args=(), post=None, timeout=600,
                    subst=None, selftest=None, chunk=6000, props=(), cmd=None, pair_limit=None):
        """Run the histories (lists of events) on the code, then let TLC validate the recorded trace."""
        t = time.time()
        events = []
        for h in histories:
            events.append({"op": "reset"})
            events.extend(h)
        f2 = dict(fields, reset=[])
        lines = [self.encode(cmd(e) if cmd else e, f2) for e in events]
        for e in events:
            self.count(e["op"])
        res, status = self.run_impl(exe, lines, args=args)
        if post:
            res = [post(r) for r in res]
        if len(res) < len(lines) or status != "ok":
            bad = min(len(res), len(lines) - 1)
            start = max(j for j in range(bad + 1) if lines[j] == "reset")
            r2, s2 = self.run_impl(exe, lines[start:bad + 1], args=args)
            if s2 == "ok" and len(r2) == bad + 1 - start:
                r2, s2 = self.run_impl(exe, lines[:bad + 1], args=args)
                if s2 == "ok":
                    raise CheckError("crash not reproducible")
            self.violate("trace " + tag + ": the code does not return from the last call", lines[start:bad + 1],
                         "returns", s2, args)
        i = 0
        ntr = 0
        # cut into chunks at resets to keep each TLC trace moderate
        while i < len(events):
            j = min(len(events), i + chunk)
            while j < len(events) and events[j]["op"] != "reset":
                j += 1
            bad = self.validate(tag, module, events[i:j], res[i:j], consts, invs, timeout, subst, props)
            if bad is not None:
                bad += i
                start = max(k for k in range(bad + 1) if events[k]["op"] == "reset")
                seg = events[start:bad + 1]
                sl = lines[start:bad + 1]
                r2, s2 = self.run_impl(exe, sl, args=args)
                if post:
                    r2 = [post(r) for r in r2]
                if s2 != "ok":
                    self.violate("trace " + tag, sl, "returns", s2, args)
                b2 = self.validate(tag + "_confirm", module, seg, r2, consts, invs, timeout, subst, props)
                if b2 is None:
                    raise CheckError("trace rejection not reproducible: %s" % lines[bad])
                self.violate("trace " + tag, sl, self.last_expected, r2[b2], args)
            ntr += sum(1 for e in events[i:j] if e["op"] == "reset")
            i = j
        self.traces += ntr
        self.steps += len(lines)
        if selftest:
            self.selftest(tag, module, events, res, consts, invs, timeout, subst)
        k = next((x for x, e in enumerate(events) if e["op"] == "reset" and x + 1 < len(events)), 0)
        self.samples.append({"kind": "trace " + tag, "commands": [x[:200] for x in lines[k:k + 6]],
                             "observed": [clip(x) for x in res[k:k + 6]]})
        self.parts.append({"part": "trace validation " + tag, "histories": ntr, "events": len(events),
                           "wall_s": round(time.time() - t, 1)})
        self.log("trace %s: %d histories, %d events accepted, %.1fs" % (tag, ntr, len(events), time.time() - t))
        self.independent(tag, exe, lines, res, args, post, limit=pair_limit,
                         accept=lambda idx, rs: self.validate(tag + "_two", module, [events[i] for i in idx], [post(r) for r in rs] if post else rs,
                                                              consts, invs, timeout, subst, props) is None)

    def validate(self, tag, module, events, res, consts, invs, timeout, subst=None, props=()):
        """None if TLC accepts the trace, else the index of the first event it rejects."""
        consts, subst = split_consts(consts, subst)
        tf = self.tmp(".ndjson")
        with open(tf, "w") as f:
            for e, r in zip(events, res):
                f.write(json.dumps({"e": in_range(e), "r": clamp(r)}) + "\n")
        stem = "TR_%s_%d" % (module, self.ntmp)
        mod = os.path.join(self.out, stem + ".tla")
        with open(mod, "w") as f:
            f.write(TRACE_TEMPLATE % dict(stem=stem, module=module,
                                          defs="".join("def_%s == %s\n" % kv for kv in (subst or {}).items())))
        cfg = os.path.join(self.out, stem + ".cfg")
        self.write_cfg(cfg, spec="TSpec", consts=consts, invs=invs, props=props, post="TAccepted",
                       subst={k: "def_" + k for k in (subst or {})})
        rc, o, e = self.tlc(mod, cfg, workers=1, env={"TRACE": tf}, timeout=timeout)
        m = re.search(r'"MATCHED",\s*(\d+)', o)
        n = len(events)
        mm = re.search(r"(\d+) states generated, (\d+) distinct", o)
        if mm:
            self.states += int(mm.group(2))
            self.transitions += int(mm.group(1))
        inv = re.search(r"Invariant (\w+) is violated|Action property (\S+) is violated|property (\w+) is violated", o)
        if inv:
            # an invariant of the specification fails along the recorded execution
            ls = [int(x) for x in re.findall(r"/\\ ln__ = (\d+)", o)]
            k = (max(ls) - 2) if ls else 0
            self.last_expected = "invariant %s" % (inv.group(0))
            return max(0, k)
        if rc == 0 and m and int(m.group(1)) == n:
            for p in (tf, mod, cfg):
                os.unlink(p)
            return None
        if m and int(m.group(1)) < n and "Evaluating" not in o and "Error: The" not in o.replace(
                "Error: The postcondition", "").replace("Error: Postcondition", ""):
            k = int(m.group(1))
            ex = re.search(r'"EXPECTED",\s*"(.*)">>', o)
            exs = re.findall(r'"EXPECTED@", %d, "(.*)"' % (k + 1), o)
            self.last_expected = exs[-1].replace('\\"', '"') if exs else "(no action of the specification)"
            return k
        raise CheckError("TLC failed on trace %s (rc %d)\n%s\n%s" % (stem, rc, tail(o, 60), tail(e)))

    def selftest(self, tag, module, events, res, consts, invs, timeout, subst=None):
        """Demonstrate the binding: corrupting one recorded result must be rejected at that event."""
        rng = self.rng("selftest" + tag)
        cand = [i for i, r in enumerate(res) if events[i]["op"] not in ("reset",) and has_int(r)]
        if not cand:
            return
        i = rng.choice(cand[:4000])
        start = max(k for k in range(i + 1) if events[k]["op"] == "reset")
        end = i + 1
        r2 = json.loads(json.dumps(res[start:end]))
        r2[-1] = corrupt(r2[-1], rng)
        b = self.validate(tag + "_selftest", module, events[start:end], r2, consts, (), timeout, subst)
        if b != end - start - 1:
            raise CheckError("binding self-test failed for %s: corrupted result accepted (%r)" % (tag, events[i]))
        self.parts.append({"part": "binding self-test " + tag, "corrupted_event": self_str(events[i]),
                           "rejected": True})

    # ------------------------------------------------------------------ evidence
    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "steps_executed_on_real_code": self.steps,
               "events_per_operation": dict(sorted(self.ops.items())),
               "samples": self.samples[:12] or [{"kind": "none"}], "parts": self.parts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", self.prop + ".json"), "w"), indent=1)


TRACE_TEMPLATE = """---- MODULE %(stem)s ----
EXTENDS %(module)s, Json, IOUtils, TLC
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ln__
%(defs)s
TInit == Init /\\ ln__ = 1
\\* one recorded call is one step of the specification, and the recorded result is the specified one
TNext == /\\ ln__ <= Len(TraceLog)
         /\\ Step(TraceLog[ln__].e)
         /\\ IF obs'.ret = TraceLog[ln__].r THEN TRUE ELSE PrintT(<<"EXPECTED@", ln__, ToJson(obs'.ret)>>) /\\ FALSE
         /\\ ln__' = ln__ + 1
TSpec == TInit /\\ [][TNext]_<<vars, ln__>>
TAccepted == LET dm__ == TLCGet("stats").diameter - 1
             IN PrintT(<<"MATCHED", dm__>>) /\\ dm__ = Len(TraceLog)
====
"""


def other_objects(cmd, own, d):
    """The library's other source files (those that compile with these options), as an archive to link from."""
    os.makedirs(d, exist_ok=True)
    srcs = [os.path.join(b, f) for b, _, fs in os.walk(os.path.join(REPO, "gel")) for f in fs if f.endswith(".c")]
    srcs = sorted(x for x in srcs if x not in own)
    objs = [os.path.join(d, "%d.o" % i) for i in range(len(srcs))]
    ps = [subprocess.Popen(cmd + ["-c", x, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for x, o in zip(srcs, objs)]
    objs = [o for o, p in zip(objs, ps) if p.wait() == 0]
    lib = os.path.join(d, "rest.a")
    if os.path.exists(lib):
        os.remove(lib)
    subprocess.run(["ar", "crs", lib] + objs, check=True)
    return [lib]


def split_consts(consts, subst):
    """Configuration files know no negative numbers: those become definitions."""
    neg = {k: str(v) for k, v in consts.items() if str(v)[0] in "-<["}
    return {k: v for k, v in consts.items() if k not in neg}, dict(subst or {}, **neg)


def clamp(r):
    """TLC reads integers modulo 2^32: results beyond that are cut off, so that they cannot pass for small ones."""
    if isinstance(r, bool) or not isinstance(r, (int, list, dict)):
        return r
    if isinstance(r, int):
        return max(-2147483647, min(2147483647, r))
    if isinstance(r, list):
        return [clamp(x) for x in r]
    return {k: clamp(x) for k, x in r.items()}


def in_range(e):
    if e != clamp(e):
        raise CheckError("an event exceeds TLC's integers: %r" % e)
    return e


def tail(s, n=40):
    return "\n".join(s.split("\n")[-n:])


def clip(x, n=300):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def self_str(e):
    return json.dumps(e)[:200]


def same(a, b):
    """JSON equality where an empty list equals an empty object."""
    if isinstance(a, (list, dict)) and isinstance(b, (list, dict)) and not a and not b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def has_int(r):
    if isinstance(r, bool):
        return False
    if isinstance(r, int):
        return True
    if isinstance(r, list):
        return any(has_int(x) for x in r)
    if isinstance(r, dict):
        return any(has_int(x) for x in r.values())
    return False


def corrupt(r, rng):
    if isinstance(r, int):
        return r + 1 if r < 2147483647 else r - 1
    if isinstance(r, list):
        i = rng.choice([i for i, x in enumerate(r) if has_int(x)])
        return r[:i] + [corrupt(r[i], rng)] + r[i + 1:]
    k = rng.choice([k for k in sorted(r) if has_int(r[k])])
    return dict(r, **{k: corrupt(r[k], rng)})


def load_known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def tla(v):
    """Python value to TLA+ text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise ValueError(v)
