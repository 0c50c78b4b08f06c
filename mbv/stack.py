"""C04: generated stacks."""
FIELDS = {"init": ["cap"], "push": ["v"], "pop": ["want"], "peek": ["want"], "bottom": [], "pushn": ["v", "n"], "popn": ["n"]}
OPS = ('{[op |-> "init", cap |-> x] : x \\in {1, 2, 3, 5}} \\cup {[op |-> "push", v |-> x] : x \\in {1, 2}}'
       ' \\cup {[op |-> o, want |-> x] : o \\in {"pop", "peek"}, x \\in {0, 1}} \\cup {[op |-> "bottom"]}')


def history(rng, cap, steps):
    lim = 250 if cap in (3, 5, 65535) else 900
    ev = [{"op": "init", "cap": cap}]
    n, nxt, mood = 0, rng.randrange(lim), 0
    for _ in range(steps):
        if rng.random() < 0.1:
            mood = rng.choice([-1, 0, 1])
        x = rng.random()
        if x < 0.02:
            ev.append({"op": "init", "cap": cap})
            n = 0
        elif x < 0.12 and cap >= 5:
            v = rng.randrange(lim // 2)
            k = rng.choice([cap - n, cap - n + 1, max(0, cap - n - 1), rng.randrange(cap + 2)])
            if cap in (5, 65535):
                k = min(k, lim - v)
            ev.append({"op": "pushn", "v": v, "n": k})
            n = min(cap, n + k)
        elif x < 0.18 and cap >= 5:
            k = rng.choice([n, n + 1, max(0, n - 1), rng.randrange(cap + 2)])
            ev.append({"op": "popn", "n": k})
            n = max(0, n - k)
        elif x < 0.55 + 0.3 * mood:
            ev.append({"op": "push", "v": nxt})
            nxt = (nxt + 1) % lim
            n = min(cap, n + 1)
        else:
            e = rng.choice([{"op": "pop", "want": 1}, {"op": "pop", "want": 0}, {"op": "peek", "want": 1},
                            {"op": "peek", "want": 1}, {"op": "peek", "want": 0}, {"op": "bottom"}])
            ev.append(e)
            if e["op"] != "peek":
                n = max(0, n - 1)
    return ev


def edge_history(cap, at):
    """Every call with exactly n items on the stack, for each n in `at`."""
    ev, n, v = [{"op": "init", "cap": cap}], 0, 1
    for x in [x for x in at if x <= cap]:
        while n < x:
            k = min(x - n, 200 if cap == 65535 else 900 if cap == 1000 else 65000)
            v = (v + 7) % 50
            ev.append({"op": "pushn", "v": v, "n": k})
            n += k
        ev += [{"op": "peek", "want": 1}, {"op": "peek", "want": 0}, {"op": "pop", "want": 1}, {"op": "push", "v": 91}, {"op": "peek", "want": 1}, {"op": "pop", "want": 0},
               {"op": "push", "v": 92}, {"op": "bottom"}, {"op": "peek", "want": 1}, {"op": "push", "v": 93}, {"op": "popn", "n": 2}]
        n = min(x, cap) - 2
    return ev + [{"op": "popn", "n": 5}]


def c04(ctx):
    exe = ctx.build("stack", ["h_stack.c"])
    tr = ctx.model_check("small", "Stack", {"Cells": "TRUE"}, ["Bounded", "Refines"], ["Lifo"], subst={"Ops": OPS})
    ctx.replay_tours("small", exe, tr, FIELDS)
    rng = ctx.rng("hist")
    hs = [history(rng, cap, 150 if ctx.quick else 500) for _ in range(1 if ctx.quick else 5) for cap in [1, 2, 3, 5, 8, 33, 64, 1000]]
    C = {"Cells": "FALSE", "Ops": "{}"}
    ctx.trace_check("random", exe, "Stack", hs, FIELDS, C, ["Bounded"], selftest=True)
    hs = [[{"op": "init", "cap": 40000}, {"op": "pushn", "v": 7, "n": 40001}, {"op": "push", "v": 2}, {"op": "bottom"}, {"op": "peek", "want": 1},
           {"op": "push", "v": 9}, {"op": "push", "v": 10}, {"op": "popn", "n": 39999}, {"op": "pop", "want": 1}, {"op": "pop", "want": 1}],
          history(rng, 40000, 10)]
    # the largest capacity: 65535 one-byte items, filled in small-valued runs
    big = [{"op": "init", "cap": 65535}] + [{"op": "pushn", "v": i % 50, "n": 200} for i in range(328)]
    big += [{"op": "push", "v": 1}, {"op": "bottom"}, {"op": "push", "v": 2}, {"op": "push", "v": 3}, {"op": "popn", "n": 300},
            {"op": "peek", "want": 1}]
    ctx.trace_check("largest", exe, "Stack", hs + [big], FIELDS, C, ["Bounded"])
    small = [3, 126, 127, 128, 129, 254, 255, 256, 257]
    high = [32766, 32767, 32768, 32769]
    ctx.trace_check("counts at powers of two", exe, "Stack", [edge_history(1000, small + [1000]), edge_history(40000, small + high + [40000])]
                    + [edge_history(65535, small + high + [65534, 65535])], FIELDS, C, ["Bounded"])
