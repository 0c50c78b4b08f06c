"""C28: objects do not affect each other. For every module the histories of its own check are run by two users of one
library, call by call in turn and from inside the callbacks made to the other one, and TLC validates the recorded
execution against the product of two independent copies of the module's specification (spec/TwoUsers.txt)."""
import importlib, json, os, re, time
from concurrent.futures import ThreadPoolExecutor
from . import core
from .registry import CHECKS

TEMPLATE = open(os.path.join(core.SPEC, "TwoUsers.txt")).read().split("\n====\n", 1)[1]
SKIP = {"C02", "C28"}      # C02: one ring, two threads (C01 covers rings side by side)

SLOW = re.compile(r"ParamTable/\d{3,} entries|Watcher/\d+ watchers|Keypad/random k260|Pid/H=\d{3}|Stack/counts")   # thorough only
FIRST = ["C05", "C11", "C24", "C19"]   # the longest


def names(module, what):
    """The variables (constants) a specification declares, with those of the modules it extends."""
    txt = re.sub(r"\\\*.*", "", open(os.path.join(core.SPEC, module + ".tla")).read())
    out = []
    for m in re.findall(r"^EXTENDS (.*)$", txt, re.M):
        for x in m.replace(" ", "").split(","):
            if os.path.exists(os.path.join(core.SPEC, x + ".tla")):
                out += names(x, what)
    for m in re.findall(r"^%sS?\s+((?:\w+\s*,\s*)*\w+)" % what, txt, re.M):
        out += re.findall(r"\w+", m)
    return out


def cross(e, other, rng):
    """e with one of its arguments (or a field of one) as in the other call."""
    fs = [k for k in e if k != "op" and k in other and other[k] != e[k]]
    if not fs:
        return e
    k = rng.choice(fs)
    deep = isinstance(e[k], dict) and isinstance(other[k], dict) and rng.random() < 0.8
    return dict(e, **{k: cross(e[k], other[k], rng) if deep else other[k]})


class Pair(core.Ctx):
    """Stands in for the context of a module's check: keeps its histories, leaves out everything else."""

    def __init__(self, top, prop):
        self.__dict__.update({k: v for k, v in core.Ctx(top.prop, top.tier, top.seed, top.budget, os.path.join("C28", prop)).__dict__.items()})
        self.module_prop = prop
        self.most = 3 if top.quick else 7
        self.done = 0
        self.top = top
        self.offers = []

    def rng(self, tag):
        return core.Ctx.rng(self, self.module_prop + "/" + tag)

    def build(self, name, sources, **kw):
        return core.Ctx.build(self, name, sources, only_recipe=self.module_prop != "C26", **kw)   # C26 asks its program for the layout

    def probe(self, *a, **kw):
        pass

    def model_check(self, *a, **kw):
        return []

    def replay_tours(self, *a, **kw):
        pass

    def trace_check(self, tag, exe, module, histories, fields, consts, invs=(), args=(), post=None, timeout=600, subst=None,
                    selftest=None, chunk=6000, props=(), cmd=None, pair_limit=None):
        n = 250 if self.quick else 600
        small = [h[:n] for h in histories if len(json.dumps(h[:n])) < 60000]
        slow = bool(SLOW.match(module + "/" + tag))
        if slow and (self.quick or module == "ParamTable") or module == "Crc" and "all bytes" not in tag:
            return   # TLC evaluates the table of Crc anew for every byte when it is an instance
        if slow:
            small = [h[:60] for h in small[:2]]
        if small:
            ops = len({e["op"] for h in small for e in h})
            self.offers.append((ops, (tag, exe, module, small, fields, consts, invs, args, post, timeout, subst, cmd)))

    def run(self):
        """The richest of the module's histories first, then others."""
        rng = self.rng("choice")
        rng.shuffle(self.offers)
        self.offers.sort(key=lambda o: -o[0])
        k = max(1, self.most * 2 // 3)
        todo = [(a, a) for _, a in self.offers[:k] + rng.sample(self.offers[k:], min(self.most - k, len(self.offers[k:])))]
        # users with different configurations of one program (sizes, tables, units ...)
        mixed = [(a, b) for _, a in self.offers for _, b in self.offers if a[:3] < b[:3] and a[1:3] == b[1:3] and (a[7], str(a[5])) != (b[7], str(b[5]))]
        rng.shuffle(mixed)
        todo += mixed[:2 if self.quick else 8]
        for i, (a, b) in enumerate(todo):
            if not self.quick and i >= 2 and self.top.left() < 420:
                self.log("%s: %d further pairs left out, out of time" % (self.module_prop, len(todo) - i))
                break
            t = time.time()
            self.two_users(a, b)
            self.log("%s %s/%s: %.1f s" % (self.module_prop, a[2], a[0] + (" with " + b[0] if b is not a else ""), time.time() - t))

    def two_users(self, first, second):
        """first, second: the offers of the two users (the same program)."""
        users = [first, second]
        tag, exe, module = first[:3]
        if second is not first:
            tag += " with " + second[0]
        timeout = max(first[9], second[9])
        args = list(first[7]) + (["--"] + list(second[7]) if second[7] != first[7] else [])
        rng = self.rng("two" + tag)
        picked = [[], []]
        for p, (_, _, _, small, *_) in zip(picked, users):
            if self.quick and sum(len(json.dumps(h)) for h in small) / len(small) > 20000:
                small = [h[:120] for h in small]
            # as many histories per user as are cheap to validate
            size = {id(h): len(json.dumps(h)) for h in small}
            while len(p) < 2 or len(p) < 10 and not SLOW.match(module + "/" + tag) and sum(size[id(h)] for h in p) < (40000 if self.quick else 160000):
                p.append(rng.choice(small))
        f2 = [dict(c[4], reset=[]) for c in users]
        line = lambda u, e: self.encode(users[u][11](e) if users[u][11] else e, f2[u])
        post = lambda u, r: users[u][8](r) if users[u][8] else r
        two = self.pair(exe)

        def alone(u, events, lenient=False):
            """How many of these calls are answered as specified when nobody else is there."""
            lines = ["%d %s" % (u, line(u, e)) for e in events]
            res, status = self.run_pair(two, lines, args)
            n = next((i for i in range(len(lines)) if i not in res), len(lines))
            rs = [post(u, res[i]) for i in range(n)]
            bad = self.product(tag + "_alone", module, [(u, e) for e in events[:n]], rs, users, timeout, lenient) if n else 0
            return n if bad is None else bad

        # the second user starts with (almost) the same history: some arguments are those of other calls in it
        if second is not first:
            pass
        elif self.done % 2 == 0:
            near = self.similar(picked[0][0], rng)
            near = near[:max(0, alone(1, [{"op": "reset"}] + near, lenient=True) - 1)]
            picked[1][0] = near if len(near) > len(picked[0][0]) // 2 else picked[0][0]
        else:
            picked[1][0] = picked[0][0]
        ev = [[e for h in hs for e in [{"op": "reset"}] + h] for hs in picked]
        # in turn, with runs of either, and with the first history in step
        merged, marks, pos = [], [], [0, 0]
        while pos[0] < len(ev[0]) or pos[1] < len(ev[1]):
            step = max(pos) < len(picked[1][0])    # a few calls apart at most
            u = 0 if pos[1] >= len(ev[1]) else 1 if pos[0] >= len(ev[0]) else rng.randrange(2) if abs(pos[0] - pos[1]) < 2 or not step else int(pos[0] > pos[1])
            mark = rng.choice("    aabbcdef")
            for _ in range(1 if step else rng.choice((1, 1, 1, 2, 3))):
                if pos[u] < len(ev[u]):
                    merged.append((u, ev[u][pos[u]]))
                    marks.append(mark)
                    pos[u] += 1
        # every kind of call in the callbacks of every other
        lines = [str(u) + " " + line(u, e) for u, e in merged]
        res, status = self.run_pair(two, lines, args)
        if status == "ok" and len(res) == len(lines):
            for u, e, m in self.inside(merged, self.pauses, rng):
                merged.append((u, e))
                marks.append(m)
        lines = [str(u) + m + line(u, e) for (u, e), m in zip(merged, marks)]
        for _, e in merged:
            self.count(e["op"])

        def own(i):
            """The history of the object that answers call i, up to this call."""
            u = merged[i][0]
            mine = [e for k, e in merged[:i + 1] if k == u]
            return mine[max(k for k, e in enumerate(mine) if e["op"] == "reset"):]

        res, status = self.run_pair(two, lines, args)
        if status != "ok" or len(res) < len(lines):
            bad = next((i for i in range(len(lines)) if i not in res), len(lines) - 1)
            near = [i for i in range(max(0, bad - 3), min(len(lines), bad + 6))]
            if all(alone(merged[i][0], own(i)) == len(own(i)) for i in near):
                self.violate("two users of %s/%s: a call does not return" % (module, tag), lines[:bad + 6], "returns", status, args)
            self.log("%s/%s fails with one user as well: not decided here" % (module, tag))
            self.done += 1
            return
        rs = [post(merged[i][0], res[i]) for i in range(len(lines))]
        bad = self.product(tag, module, merged, rs, users, timeout)
        if bad is not None:
            again, status = self.run_pair(two, lines, args)
            if any(i not in again or post(merged[i][0], again[i]) != rs[i] for i in range(bad + 1)):
                raise core.CheckError("not reproducible: %s" % lines[bad])
            expected = self.last_expected
            if alone(merged[bad][0], own(bad)) == len(own(bad)):
                self.violate("two users of %s/%s" % (module, tag), lines[:bad + 1], expected, rs[bad], args)
            self.log("%s/%s: this history fails with one user as well: not decided here" % (module, tag))
            self.done += 1
            return
        # the binding itself: the same trace with one answer changed is rejected there
        if self.done == 0:
            cand = [i for i in range(len(rs)) if merged[i][1]["op"] != "reset" and core.has_int(rs[i])]
            if cand:
                i = rng.choice(cand)
                r2 = json.loads(json.dumps(rs[:i + 1]))
                r2[i] = core.corrupt(r2[i], rng)
                if self.product(tag + "_selftest", module, merged[:i + 1], r2, users, timeout, bare=True) != i:
                    raise core.CheckError("binding self-test failed for %s" % module)
        self.steps += len(lines)
        self.traces += len(picked[0]) + len(picked[1])
        inside = sum(m != " " for m in marks)
        self.parts.append({"part": "two users of " + module + "/" + tag, "events": len(lines), "offered_to_callbacks": inside, "similar": len(picked[1][0]) if second is first and picked[1][0] is not picked[0][0] else 0})
        if self.done == 0:
            self.samples.append({"kind": "two users of " + module, "commands": [x[:160] for x in lines[2:8]], "observed": [core.clip(x) for x in rs[2:8]]})
        self.done += 1

    def inside(self, merged, pauses, rng):
        """For pairs of calls of the two users, the histories that lead to them, then one call inside a callback of the other."""
        mine = [[], []]     # (history from the last reset, pauses of the last call)
        since = [[], []]
        for k, (u, e) in enumerate(merged):
            since[u] = [e] if e["op"] == "reset" else since[u] + [e]
            if e["op"] != "reset":
                mine[u].append((since[u], pauses[k]))
        kinds = [{}, {}]
        for u in (0, 1):
            for h, n in mine[u]:
                if len(h) <= 60:
                    kinds[u].setdefault(h[-1]["op"], []).append((h, n))
        pairs = []
        for u in (0, 1):
            for o in kinds[u]:
                deep = [x for x in kinds[u][o] if x[1]]
                if deep:
                    pairs += [(u, deep, kinds[1 - u].get(o))] * 6 * (o in kinds[1 - u]) + [(u, deep, x) for q, x in kinds[1 - u].items() if q != o]
        rng.shuffle(pairs)
        pairs.sort(key=lambda p: p[1][0][0][-1]["op"] != p[2][0][0][-1]["op"])
        same = [p for p in pairs if p[1][0][0][-1]["op"] == p[2][0][0][-1]["op"]]
        out, most = [], 1500 if self.quick else 6000
        for half, ps in ((most * 2 // 3, same), (most, pairs[len(same):])):
            for u, xs, ys in ps:
                (h0, n), (h1, _) = rng.choice(xs), rng.choice(ys)
                if len(out) + len(h0) + len(h1) > half:
                    continue
                out += [(u, e, " ") for e in h0[:-1]] + [(1 - u, e, " ") for e in h1[:-1]]
                out += [(u, h0[-1], " "), (1 - u, h1[-1], chr(ord("a") + rng.randrange(min(n, 6))))]
        return out

    def similar(self, history, rng):
        """The history with some arguments taken from other calls of the same kind in it."""
        kinds = {}
        for e in history:
            kinds.setdefault(e["op"], []).append(e)
        out = []
        for e in history:
            other = rng.choice(kinds[e["op"]])
            out.append(cross(e, other, rng) if rng.random() < 0.5 else e)
        return out

    def product(self, tag, module, events, rs, users, timeout, lenient=False, bare=False):
        """Index of the first call whose recorded answer is not the specified one, or None."""
        tf = self.tmp(".ndjson")
        with open(tf, "w") as f:
            for (u, e), r in zip(events, rs):
                f.write(json.dumps({"u": u, "e": core.in_range(e), "r": core.clamp(r)}) + "\n")
        vs = names(module, "VARIABLE")
        own = lambda k: ", ".join("%s_%d" % (v, k) for v in vs)
        cs = [dict(c[5], **(c[10] or {})) for c in users]
        cs = [{k: v for k, v in c.items() if k in names(module, "CONSTANT")} for c in cs]
        binds = lambda k: ", ".join(["%s <- %s_%d" % (v, v, k) for v in vs] + ["%s <- def_%s_%d" % (c, c, k) for c in cs[k]])
        stem = "Two_%s_%d" % (module, self.ntmp)
        txt = TEMPLATE
        for k, v in {"STEM": stem, "MODULE_": module, "VARS0": own(0), "VARS1": own(1),
                     "WITH0": binds(0), "WITH1": binds(1),
                     "INVS": " /\\ ".join("U%d!%s" % (k, i) for k in (0, 1) for i in users[k][6] if not bare) or "TRUE",
                     "DEFS": "".join("def_%s_%d == %s\n" % (c, k, v) for k in (0, 1) for c, v in cs[k].items())}.items():
            txt = txt.replace("@%s@" % k, v)
        mod = os.path.join(self.out, stem + ".tla")
        open(mod, "w").write(txt)
        cfg = os.path.join(self.out, stem + ".cfg")
        self.write_cfg(cfg, spec="Spec", invs=["Invs"], post="Accepted")
        rc, o, e = self.tlc(mod, cfg, env={"TRACE": tf}, timeout=timeout, heap="2g")
        mm = re.search(r"(\d+) states generated, (\d+) distinct", o)
        if mm:
            self.states += int(mm.group(2))
            self.transitions += int(mm.group(1))
        m = re.search(r'"MATCHED",\s*(\d+)', o)
        if rc == 0 and m and int(m.group(1)) == len(events):
            return None
        if "Invariant Invs is violated" in o:
            ls = [int(x) for x in re.findall(r"/\\ ln__ = (\d+)", o)]
            self.last_expected = "the invariants of " + module
            return max(0, max(ls) - 2)
        if m and int(m.group(1)) < len(events) and "Evaluating" not in o and "Error: The" not in o.replace(
                "Error: The postcondition", "").replace("Error: Postcondition", ""):
            k = int(m.group(1))
            ex = re.findall(r'"EXPECTED@", %d, "(.*)"' % (k + 1), o)
            self.last_expected = ex[-1].replace('\\"', '"') if ex else "(no action of the specification)"
            return k
        m = re.search(r"depth of the complete state graph search is (\d+)", o)
        if lenient and m:      # calls the specification says nothing about
            return int(m.group(1)) - 1
        raise core.CheckError("TLC failed on %s (rc %d)\n%s\n%s" % (stem, rc, core.tail(o, 60), core.tail(e)))


def c28(ctx):
    ctx.assumptions += ["a call made from a callback of another object ends before that callback does",
                        "the calls of the two users are not simultaneous (for rings used by two threads see C02)"]
    only = os.environ.get("VERIF_C28_ONLY", "").split()    # development: the modules of these checks
    todo = sorted((p for p in CHECKS if p not in SKIP and (not only or p in only)), key=lambda p: (p not in FIRST, p))
    subs = {}

    def one(p):
        modname, fn = CHECKS[p]
        sub = subs[p] = Pair(ctx, p)
        getattr(importlib.import_module("mbv." + modname), fn)(sub)
        sub.run()

    with ThreadPoolExecutor(8) as ex:
        futs = [(p, ex.submit(one, p)) for p in todo]
        errs = [(p, f.exception()) for p, f in futs]
    for p, s in subs.items():
        ctx.states += s.states
        ctx.transitions += s.transitions
        ctx.traces += s.traces
        ctx.steps += s.steps
        ctx.parts += s.parts
        ctx.samples += s.samples[:1]
        for k, v in s.ops.items():
            ctx.ops[k] = ctx.ops.get(k, 0) + v
    for p, e in errs:
        if isinstance(e, core.Violation):
            raise e
    for p, e in errs:
        if e is not None:
            raise e
    for p in sorted(todo):
        if not subs[p].done:
            raise core.CheckError("no histories for " + p)
        ctx.log("%s: %s" % (p, "; ".join("%s (%d, %d similar)" % (x["part"], x["events"], x["similar"]) for x in subs[p].parts)))
