"""C06: circular event log."""
BIG = {"new": ["cap"], "saven": ["k"], "restore": [], "loadn": ["number", "jump"]}
FIELDS = {"new": ["cap"], "save": ["v", "err"], "restore": [], "break": ["slot", "code"], "load": ["number", "jump"]}


def ops(caps, mx, vals, code):
    return ('{[op |-> "new", cap |-> x] : x \\in %s} \\cup {[op |-> "save", v |-> x, err |-> y] : x \\in %s, y \\in {0, -1, 256}}'
            ' \\cup {[op |-> "restore"]} \\cup {[op |-> "break", slot |-> x, code |-> %d] : x \\in -1..%d}'
            ' \\cup {[op |-> "load", number |-> x, jump |-> y] : x \\in -2..%d, y \\in -1..%d}' % (caps, vals, code, mx - 1, mx + 1, mx + 1))


def history(rng, cap, steps, es):
    lim = 250 if es == 1 else 60000
    ev = [{"op": "new", "cap": cap}]
    n = pos = 0
    nxt = rng.randrange(lim)

    def save(err=0):
        nonlocal n, pos, nxt
        ev.append({"op": "save", "v": nxt, "err": err})
        if not err:
            nxt = (nxt + 1) % lim
            n, pos = min(cap, n + 1), (pos + 1) % cap

    for _ in range(rng.choice([0, 1, max(0, cap - 2), cap - 1, cap, cap + 1, cap + cap // 2]) if cap < 400 else 3):
        save()
    for _ in range(steps):
        x = rng.random()
        if x < 0.4:
            save(rng.choice([0] * 9 + [-1, -7, 1, 255, 256, -256, 65536]))
        elif x < 0.45:
            ev.append({"op": "restore"})
        elif x < 0.52:
            ev.append({"op": "break", "slot": rng.choice([-1, -1, 0, cap - 1, pos, (pos - 1) % cap, rng.randrange(cap)]),
                       "code": -rng.choice([1, 1, 2, 3, 22, 255, 256, rng.randrange(1, 100)])})
        else:
            pick = lambda: rng.choice([0, 1, 2, n, n - 1, n + 1, pos, pos + 1, pos - 1, n - pos, n - pos - 1, cap, cap + 1,
                                       rng.randrange(cap + 2), rng.randrange(cap + 2), -1, -2, 2147483647, -cap])
            j = rng.choice([0, 1, rng.randrange(n + 1), pick()])
            ev.append({"op": "load", "number": max(pick(), -3 - cap), "jump": j})
    return ev


EDGE = [0, 1, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536]


def edge_history(rng, cap):
    """The next position, the number asked for, the events skipped, the first one read, and the two pieces of a read at powers of two."""
    h = [{"op": "new", "cap": cap}]
    n = 0

    def load(c, j):
        if c >= 0 and j >= 0:
            h.append({"op": "loadn", "number": c, "jump": j})
    for full in (0, 1):
        for t in [x for x in EDGE if x < cap]:
            k = (t - n) % cap
            h.append({"op": "saven", "k": k})
            n += k
            have, pos = min(n, cap), t
            for c in (1, t, have):
                load(c, 0)
            load(t, t)
            load(1, t)
            load(5, t - 5)
            load(t - 2, 2)
            for s in rng.sample(EDGE, 5):
                if full:
                    back = (pos - s) % cap          # the first event read lies at s
                    c = rng.randrange(1, back + 1) if back else cap
                    load(c, back - c)
                    a = cap - s                     # s events up to the end, then s from the start
                    for c in (s + 1, s + s, pos + s):
                        load(c, pos + s - c)
                    load(cap - a, 0)
                else:
                    load(pos - s, 0)
                    load(s, pos - s)
                    load(pos - s - 1, 1)
            h.append({"op": "restore"})
        if not full:
            h.append({"op": "saven", "k": cap - n + 3})
            n = cap + 3
    return h


def c06(ctx):
    exe = ctx.build("eventlog", ["h_eventlog.c", "gel/circular_event_log/circular_event_log.c"])
    invs = ["Retained", "InRange", "Refines"]
    tr = ctx.model_check("small", "EventLog", {}, invs, ["Newest"], subst={"Ops": ops("1..3", 3, "{1, 2}", -1)})
    for es in ("1", "8"):
        ctx.replay_tours("small/event size " + es, exe, tr, FIELDS, args=[es])
    tr = ctx.model_check("cap5", "EventLog", {}, invs, ["Newest"], subst={"Ops": ops("{4, 5}", 5, "{1}", -4) if ctx.quick else ops("{4, 5}", 5, "{1, 2}", -4)})
    ctx.replay_tours("cap5", exe, tr, FIELDS, args=["3"])
    rng = ctx.rng("hist")
    for es in (1, 2, 7, 8, 24, 300):
        hs = [history(rng, cap, 60 if ctx.quick else 250, es) for cap in ([1, 2, 3, 7, 16, 50, 100, 237] if es in (1, 2, 8, 24) else [1, 3, 220])]
        if es == 8:
            hs.append(history(rng, 1000, 40, es))
        ctx.trace_check("random_es%d" % es, exe, "EventLog", hs, FIELDS, {"Ops": "{}"}, invs, args=[str(es)], selftest=es == 8)
    # many events: positions beyond 8 and 16 bits
    ops_big = ('{[op |-> "new", cap |-> x] : x \\in {1, 2, 5}} \\cup {[op |-> "saven", k |-> x] : x \\in {0, 1, 3, 7}} \\cup {[op |-> "restore"]}'
               ' \\cup {[op |-> "loadn", number |-> x, jump |-> y] : x \\in 0..6, y \\in 0..6}')
    tr = ctx.model_check("numbered", "EventLogBig", {"Cells": "TRUE", "MaxN": 12}, ["Position", "Stored"], subst={"Ops": ops_big})
    ctx.replay_tours("numbered", exe, tr, BIG, args=["4"])
    rng = ctx.rng("big")
    hs = []
    for cap in [255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 100000, 150000] + ([] if ctx.quick else [131072, 200001, 1 << 20]):
        h = [{"op": "new", "cap": cap}]
        n = 0
        for k in [0, 1, 2, cap - 4, 1, 1, 1, 1, 1, cap // 2, 3, cap - 4 - cap // 2 + 66000 % cap] + [rng.choice([1, 2, cap // 3, cap - 1, cap, rng.randrange(cap)]) for _ in range(3 if ctx.quick else 12)]:
            h.append({"op": "saven", "k": k})
            n += k
            t, pos = min(n, cap), n % cap
            h.append({"op": "loadn", "number": rng.choice([t, cap + 1]), "jump": 0})
            for _ in range(8 if ctx.quick else 20):
                j = max(0, rng.choice([0, 0, 1, 2, pos, pos - 1, pos + 1, t - 1, t - 2, t, t + 1, rng.randrange(t + 1)]))
                c = max(0, rng.choice([1, 2, 3, pos - j, pos - j + 1, t - j, t, t + 1, rng.randrange(t + 2), rng.randrange(20)]))
                h.append({"op": "loadn", "number": c, "jump": j})
            if rng.random() < 0.5:
                h.append({"op": "restore"})
        hs.append(h)
    hs += [edge_history(rng, cap) for cap in ([66003] if ctx.quick else [66003, 65536, 70001])]
    ctx.trace_check("many events", exe, "EventLogBig", hs, BIG, {"Ops": "{}", "Cells": "FALSE", "MaxN": 1 << 30}, ["Position"], args=["4"], selftest=True)
