"""C20: the schedule at every instant; C21: the table of entries."""
from .core import tla
F = {"tick": ["d"], "clock": ["n"], "init": [], "set": ["i", "x"], "mut": ["i", "f", "v"], "disable": ["i"], "get": ["i"], "enabled": ["i"], "first": [],
     "next": ["i"], "overlap": ["x"], "duration": ["x"], "max": [], "ser": ["en", "days", "s", "e", "v"], "des": ["b"]}
DAY = 86400


def enc(e):
    """Entries travel as <<en, days, s, e, v>>."""
    if "x" in e and isinstance(e["x"], dict):
        x = e["x"]
        return dict(e, x=[x["en"], x["days"], x["s"], x["e"], x["v"]])
    return e


def scale(obs):
    return dict(obs, op=enc(obs["op"]))


def build(ctx, n):
    return ctx.build("sched_%d" % n, ["h_sched.c", "gel/scheduler/scheduler.c"], defs=["GEL_SCHEDULER_MAX_ENTRIES=%d" % n])


DYN = ["GEL_SCHEDULER_DYNAMIC_ENTRIES"]
PROBE = """#include "gel/scheduler/scheduler.c"
int f(scheduler_t *s) { scheduler_init(s, 3); return (int)scheduler_get_max_schedule_entries(s); }
"""


def build_dyn(ctx):
    ctx.probe("the configuration with a table allocated at run time", PROBE, defs=DYN)
    return ctx.build("sched_dyn", ["h_sched.c", "gel/scheduler/scheduler.c"], defs=DYN)


def ent(en, days, s, e, v):
    return {"en": en, "days": days, "s": s, "e": e, "v": v}


def randent(rng, near=None):
    days = rng.choice([0, 1, 64, 127, 62, 65, rng.randrange(128), rng.randrange(128), rng.randrange(128)])
    s = rng.choice([0, 1, 3599, 3600, DAY - 1, rng.randrange(DAY), rng.randrange(DAY), rng.randrange(DAY)])
    k = rng.randrange(6)
    if k == 0:
        e = s + rng.choice([0, 1, 60, 3600])
    elif k == 1:
        e = rng.choice([DAY, DAY - 1, DAY + 1])
    elif k == 2:
        e = DAY + rng.randrange(DAY)
    elif near and k == 3:
        e = s + near
    else:
        e = rng.randrange(s, DAY + 1)
    e = max(s, min(e, s + DAY))
    return ent(rng.choice([1, 1, 1, 0]), days, s, e, rng.choice([0, 1, 255, 256, 300, -1, -5, 2147483647, -2147483647, rng.randrange(256), rng.randrange(-1000, 1000)]))



def c20(ctx):
    ctx.assumptions += ["the broken-down time is valid (no leap second) and windows are at most a day long, with start <= end"]
    n = 3
    ents = [ent(1, 127, 0, 3, 5), ent(1, 65, 4, 8, 5), ent(1, 3, 1, 3, 300), ent(0, 127, 0, 6, 9), ent(1, 127, 3, 9, 256), ent(1, 64, 5, 7, -1)]
    if not ctx.quick:
        ents += [ent(1, 2, 2, 2, 1), ent(1, 33, 2, 6, 300), ent(1, 127, 0, 6, 0), ent(1, 6, 5, 11, 7)]
    ops = '{[op |-> "set", i |-> x, x |-> y] : x \\in 0..2, y \\in {%s}} \\cup {[op |-> "tick", d |-> 1]}' % ", ".join(tla(x) for x in ents)
    ops += ' \\cup {[op |-> "disable", i |-> x] : x \\in %s}' % ("{1}" if ctx.quick else "0..2")
    base = {"N": n, "Day": 6, "Obs": '"when"'}
    inv, props = ["Minimal"], ["CountsDown", "OverMidnight", "OneEntry"]
    exe, dyn = build(ctx, n), build_dyn(ctx)
    # 6 "seconds" of four hours make a day; a table of two entries changing at any time
    tr = ctx.model_check("pairs", "Scheduler", base, inv, props, subst={"Ops": ops.replace("0..2", "{0, 2}")})
    ctx.replay_tours("pairs", exe, tr, F, scale=scale, args=("when", "14400"))
    ctx.replay_tours("pairs, dynamic", dyn, tr, F, scale=scale, args=("when", "14400", "3"))
    # full tables of three, looked at from Saturday to Monday
    few = ents[:3] + [ents[4]] if ctx.quick else ents[:7]
    ops3 = '{[op |-> "set", i |-> x, x |-> y] : x \\in 0..2, y \\in {%s}} \\cup {[op |-> "clock", n |-> x] : x \\in %s}' % (
        ", ".join(tla(x) for x in few), "{0, 2, 4, 8, 36, 41}")
    tr = ctx.model_check("triples", "Scheduler", base, inv, props, subst={"Ops": ops3})
    ctx.replay_tours("triples", exe, tr, F, scale=scale, args=("when", "14400"))
    # the same two windows on changing days
    opsd = '{[op |-> "set", i |-> 0, x |-> %s], [op |-> "set", i |-> 1, x |-> %s]}' % (tla(ent(1, 127, 1, 5, 1)), tla(ent(1, 3, 0, 3, 2)))
    opsd += ' \\cup {[op |-> "mut", i |-> x, f |-> "days", v |-> y] : x \\in {0, 1}, y \\in {1, 2, 7, 127}} \\cup {[op |-> "clock", n |-> x] : x \\in {2, 4, 6, 7, 8, 13}}'
    tr = ctx.model_check("masks", "Scheduler", dict(base, N=2), inv, props, subst={"Ops": opsd})
    ctx.replay_tours("masks", build(ctx, 2), tr, F, scale=scale, args=("when", "14400"))
    # ticks of other lengths (model only)
    ctx.model_check("ticks", "Scheduler", base, inv, props, dump=False,
                    subst={"Ops": '{[op |-> "set", i |-> 0, x |-> y] : y \\in {%s}} \\cup {[op |-> "tick", d |-> x] : x \\in 1..13}' % ", ".join(tla(x) for x in ents)})
    # traces: real seconds
    for size in (7, 1, 16, -2, -5, -24, -40, -70):
        how, size = size, abs(size)
        rng = ctx.rng("w%d" % size)
        hs = []
        for _ in range(12 if ctx.quick else 80):
            ev, t = [], {}
            for _ in range(150):
                x = rng.random()
                if x < 0.22 or not t or (size > 30 and len(ev) < 60):
                    i = rng.randrange(size)
                    near = [y["e"] - y["s"] for y in t.values()]
                    y = randent(rng, rng.choice(near) if near else None)
                    if t and rng.random() < 0.3:
                        o = rng.choice(list(t.values()))
                        y = dict(o, v=rng.choice([o["v"], o["v"] + 1, o["v"] + 256, y["v"]])) if rng.random() < 0.6 else dict(y, s=o["s"], e=o["e"])
                        if rng.random() < 0.3:     # the same times on other days
                            y = dict(o, days=rng.choice([127, y["days"], o["days"] ^ (1 << rng.randrange(7))]))
                        y["v"] = max(-2147483647, min(2147483647, y["v"]))
                    t[i] = y
                    ev.append({"op": "set", "i": i, "x": y})
                elif x < 0.27:
                    ev.append({"op": "disable", "i": rng.randrange(size)})
                elif x < 0.34:
                    i = rng.choice(list(t))
                    ev.append({"op": "mut", "i": i, "f": rng.choice(["days", "days", "days", "v", "en"]), "v": rng.choice([0, 1, 127, 64, 2, t[i]["days"], t[i]["days"] ^ (1 << rng.randrange(7))])})
                elif x < 0.4:
                    ev.append({"op": "tick", "d": rng.choice([1, 60, 3600, DAY, rng.randrange(DAY)])})
                else:
                    y = rng.choice(list(t.values()))
                    b = (rng.choice([y["s"], y["e"], y["e"] - DAY, DAY, rng.randrange(DAY)]) + rng.choice([-1, 0, 0, 1, -60, 3600])) % DAY
                    ev.append({"op": "clock", "n": rng.randrange(7) * DAY + b})
            hs.append(ev)
        ctx.trace_check("table of %d" % size, build(ctx, size) if how > 0 else dyn, "Scheduler", hs, F, {"N": size, "Day": DAY, "Obs": '"when"', "Ops": "{}"}, inv,
                        args=("when", "1", str(size)),
                        props=props, selftest=size == 7, cmd=enc)
    # windows that begin, end and are looked at on powers of two
    ts = sorted({max(0, (1 << k) + d) for k in range(17) for d in (-1, 0, 1)})
    ev = []
    for k, t in enumerate(ts):
        ev += [{"op": "set", "i": k % 3, "x": ent(1, [127, 1 << k % 7, 65][k % 3], t, t + 2 if k % 2 else ts[-1 - k // 2] if ts[-1 - k // 2] > t else t + DAY // 2, ts[k % 24] - 1)}]
        ev += [{"op": "clock", "n": (k % 7) * DAY + x} for x in (t - 1, t, t + 1, t + 2) if 0 <= x < DAY]
        ev += [{"op": "set", "i": (k + 1) % 3, "x": ent(1, 127, ts[k // 2], t + (DAY if k % 4 == 3 else 0), k)}] if ts[k // 2] + 1 < t else []
        ev += [{"op": "clock", "n": (k * 3 % 7) * DAY + x} for x in (t - 1, t) if 0 <= x < DAY]
    ctx.trace_check("powers of two", build(ctx, 3), "Scheduler", [ev], F, {"N": 3, "Day": DAY, "Obs": '"when"', "Ops": "{}"}, inv, args=("when", "1", "3"), props=props, cmd=enc)


def c21(ctx):
    ctx.assumptions += ["start <= end in the entries compared; time values up to 2^31 except in serialisation, where they are byte strings"]
    props = ["OneEntry"]
    base = {"N": 3, "Day": 6, "Obs": '"table"'}
    ents = [ent(1, 65, 1, 3, 5), ent(0, 127, 3, 8, 255)]
    idx = "{-1, 0, 1, 2, 3}"
    s = '{[op |-> "set", i |-> x, x |-> y] : x \\in %s, y \\in {%s}}' % (idx, ", ".join(tla(x) for x in ents))
    s += ' \\cup {[op |-> o, i |-> x] : o \\in {"disable", "get", "enabled", "next"}, x \\in %s}' % idx
    s += ' \\cup {[op |-> o] : o \\in {"first", "max", "init"}}'
    s += ' \\cup {[op |-> "mut", i |-> x, f |-> "v", v |-> 9] : x \\in {0, 3}} \\cup {[op |-> "mut", i |-> x, f |-> "en", v |-> 1] : x \\in {-1, 1}}'
    q = [ent(1, 1, 0, 1, 0), ent(1, 64, 3, 3, 0), ent(0, 2, 0, 11, 0), ent(1, 127, 4, 5, 0), ent(1, 127, 0, 0, 0)]
    s += ' \\cup {[op |-> o, x |-> y] : o \\in {"overlap", "duration"}, y \\in {%s}}' % ", ".join(tla(x) for x in q)
    tr = ctx.model_check("table", "Scheduler", base, [], props, subst={"Ops": s})
    dyn = build_dyn(ctx)
    ctx.replay_tours("table", build(ctx, 3), tr, F, scale=scale, args=("table", "14400"))
    ctx.replay_tours("table, dynamic", dyn, tr, F, scale=scale, args=("table", "14400", "3"))
    # one stored entry against every window and two day masks
    s = '{[op |-> "set", i |-> 1, x |-> [en |-> 1, days |-> d, s |-> a, e |-> b, v |-> 0]] : d \\in {1, 96}, a \\in 0..5, b \\in 0..7}'
    s += ' \\cup {[op |-> "overlap", x |-> [en |-> 1, days |-> d, s |-> a, e |-> b, v |-> 0]] : d \\in {33, 64}, a \\in 0..5, b \\in 0..7}'
    s = "{o \\in (%s) : o.x.s <= o.x.e}" % s
    tr = ctx.model_check("overlap", "Scheduler", base, [], props, subst={"Ops": s})
    ctx.replay_tours("overlap", build(ctx, 3), tr, F, scale=scale, args=("table", "1"))
    for size in (7, 1, 16, 300, -4, -280):
        how, size = size, abs(size)
        rng = ctx.rng("t%d" % size)
        hs = []
        for _ in range((8 if ctx.quick else 60) if size < 100 else 1):
            ev, t = [], []
            if size > 100:      # nearly full: the first free and the next enabled entry have large indices
                full = randent(rng)
                ev += [{"op": "set", "i": i, "x": dict(full, en=1)} for i in range(size - 3)]
                ev += [{"op": "first"}, {"op": "next", "i": 0}, {"op": "next", "i": 256}, {"op": "next", "i": size - 2}]
                ev += [{"op": o, "i": i} for i in (127, 128, 129, 255, 257, -1, size - 4, size - 3) for o in ("next", "get", "enabled")]
                ev += [{"op": "max"}, {"op": "overlap", "x": full}]
            for _ in range(150 if size < 100 else 60):
                x = rng.random()
                i = rng.choice([rng.randrange(size)] * 8 + [size, size + 1, -1, size - 1, 255, 256, 65536])
                if x < 0.2 or not t:
                    y = randent(rng)
                    t.append(y)
                    ev.append({"op": "set", "i": i, "x": y})
                elif x < 0.3:
                    ev.append({"op": "disable", "i": i})
                elif x < 0.4:
                    f = rng.choice(["en", "days", "v"])
                    ev.append({"op": "mut", "i": i, "f": f, "v": rng.choice([0, 1, 1, 127, 5])})
                elif x < 0.6:
                    ev.append({"op": rng.choice(["get", "enabled", "next", "next"]), "i": i})
                elif x < 0.7:
                    ev.append({"op": rng.choice(["first", "first", "first", "max"])})
                elif x < 0.71:
                    ev.append({"op": "init"})
                elif x < 0.85:
                    o = rng.choice(t)
                    y = randent(rng)
                    if rng.random() < 0.6:
                        a = rng.choice([o["s"], o["e"], o["e"] + 1, max(0, o["s"] - 1)])
                        y["s"], y["e"] = rng.choice([(a, a), (a, a + 50), (max(0, a - 50), a)])
                    ev.append({"op": rng.choice(["overlap", "overlap", "duration"]), "x": y})
                else:
                    w = lambda: [rng.choice([0, 255, 1, 128, rng.randrange(256)]) for _ in range(4)]
                    b = lambda: rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
                    if rng.random() < 0.6:
                        ev.append({"op": "ser", "en": b(), "days": b(), "s": w(), "e": w(), "v": b()})
                    else:
                        ev.append({"op": "des", "b": [b() for _ in range(11)]})
            hs.append(ev)
        ctx.trace_check("table of %d" % size, build(ctx, size) if how > 0 else dyn, "Scheduler", hs, F, {"N": size, "Day": DAY, "Obs": '"table"', "Ops": "{}"}, [],
                        args=("table", "1", str(size)), props=props,
                        selftest=size == 7, cmd=enc)
    ev = []
    for k, t in enumerate(sorted({max(0, (1 << k) + d) for k in range(17) for d in (-1, 0, 1)})):
        ev += [{"op": "set", "i": 0, "x": ent(1, 127, t, t + 9, k)}, {"op": "get", "i": 0}] + [{"op": o, "x": ent(1, 1 << k % 7, a, b, 0)} for a, b in ((t, t), (t // 2, t), (t, 2 * t), (t + 9, t + 10)) for o in ("overlap", "duration")]
    ctx.trace_check("times at powers of two", build(ctx, 1), "Scheduler", [ev], F, {"N": 1, "Day": DAY, "Obs": '"table"', "Ops": "{}"}, [], args=("table",), cmd=enc)
    # each byte of the serialised form, on its own
    ev = []
    for i in range(4):
        for v in range(0, 256, 1 if not ctx.quick else 5):
            w = [0, 0, 0, 0]
            w[i] = v
            ev.append({"op": "ser", "en": 1, "days": v % 128, "s": w, "e": [255 - y for y in w], "v": v})
    ctx.trace_check("bytes", build(ctx, 1), "Scheduler", [ev], F, {"N": 1, "Day": DAY, "Obs": '"table"', "Ops": "{}"}, [], args=("table",), cmd=enc)
