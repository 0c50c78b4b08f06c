"""C03: generated queues."""
FIELDS = {"init": ["cap"], "enq": ["v"], "deq": ["want"], "drop": [], "spin": ["k"], "enqn": ["v", "n"], "deqn": ["n"]}
OPS = ('{[op |-> "init", cap |-> x] : x \\in {1, 2, 4}} \\cup {[op |-> "enq", v |-> x] : x \\in {1, 2}}'
       ' \\cup {[op |-> "deq", want |-> x] : x \\in {0, 1}} \\cup {[op |-> "drop"]}')
OPS8 = OPS.replace("{1, 2, 4}", "{8}").replace("v |-> x] : x \\in {1, 2}", "v |-> x] : x \\in {1}")


def history(rng, cap, steps, big):
    """Random history; `big` adds long spins so that the 16-bit counters wrap."""
    lim = 200 if cap in (4, 16, 256) else 900
    ev = [{"op": "init", "cap": cap}]
    n = 0
    nxt = rng.randrange(lim)
    mood = 0
    for _ in range(steps):
        if rng.random() < 0.1:
            mood = rng.choice([-1, 0, 1])
        x = rng.random()
        if x < 0.02:
            ev.append({"op": "init", "cap": cap})
            n = 0
        elif x < 0.08 and big:
            k = rng.choice([65535, 65536, 65537, 65536 - n, 32768, 65536 - cap, rng.randrange(1, 70000), rng.randrange(1, 300)])
            ev.append({"op": "spin", "k": k})
        elif x < 0.18 and cap >= 4:
            v = rng.randrange(lim // 2)
            k = min(lim - v - 1 if cap <= 256 else 10 ** 9, rng.choice([cap - n, cap - n + 1, max(0, cap - n - 1), rng.randrange(cap + 2)]))
            if cap > 256:
                v = rng.randrange(1000)
            if cap > 20000 and rng.random() < 0.6:
                k = cap - n + 1
            ev.append({"op": "enqn", "v": v, "n": k})
            n = min(cap, n + k)
        elif x < 0.26 and cap >= 4:
            k = rng.choice([n, n + 1, max(0, n - 1), rng.randrange(cap + 2)])
            ev.append({"op": "deqn", "n": k})
            n = max(0, n - k)
        elif x < 0.62 + 0.3 * mood:
            ev.append({"op": "enq", "v": nxt})
            nxt = (nxt + 1) % lim
            n = min(cap, n + 1)
        else:
            ev.append(rng.choice([{"op": "deq", "want": 1}, {"op": "deq", "want": 1}, {"op": "deq", "want": 0}, {"op": "drop"}]))
            n = max(0, n - 1)
    return ev


def c03(ctx):
    exe = ctx.build("queue", ["h_queue.c"])
    invs = ["Bounded", "Counters", "Refines"]
    tr = ctx.model_check("small", "Queue", {"Mod": 8, "Cells": "TRUE"}, invs, ["Fifo"], subst={"Ops": OPS})
    ctx.replay_tours("small", exe, tr, FIELDS)
    tr = ctx.model_check("cap8", "Queue", {"Mod": 32, "Cells": "TRUE"}, invs, ["Fifo"], subst={"Ops": OPS8})
    ctx.replay_tours("cap8", exe, tr, FIELDS)
    rng = ctx.rng("hist")
    hs = []
    for rep in range(1 if ctx.quick else 6):
        for cap in [1, 2, 4, 8, 16, 64, 128, 256, 1024]:
            hs.append(history(rng, cap, 120, True))
    ctx.trace_check("wrap", exe, "Queue", hs, FIELDS, {"Mod": 65536, "Cells": "FALSE", "Ops": "{}"}, ["Bounded", "Counters"],
                    selftest=True, pair_limit=300)      # spinning through the counters takes its time
    hs = [history(rng, cap, 14 if ctx.quick else 60, True) for cap in (16384, 32768)]
    hs.append([{"op": "init", "cap": 32768}, {"op": "enqn", "v": 5, "n": 32769}, {"op": "deqn", "n": 32766},
               {"op": "enqn", "v": 1, "n": 32767}, {"op": "drop"}, {"op": "enq", "v": 3}, {"op": "deqn", "n": 32769}])
    ctx.trace_check("largest", exe, "Queue", hs, FIELDS, {"Mod": 65536, "Cells": "FALSE", "Ops": "{}"}, ["Bounded", "Counters"], pair_limit=300)
