"""C15: watcher."""
F = {"mod": ["i", "v"], "process": ["dt", "si", "sj", "sv"], "check": [], "clear": ["dt"], "trig": ["i"], "trigall": [], "trigallcb": []}
PROPS = ["Quiet", "Order", "Acked", "Settled", "NotLost"]


def ops(n, vals, dts, side):
    s = ('{[op |-> "mod", i |-> x, v |-> y] : x \\in 1..%d, y \\in 0..%d} \\cup {[op |-> "process", dt |-> d, si |-> 0, sj |-> 0, sv |-> 0] : d \\in %s}'
         ' \\cup {[op |-> "clear", dt |-> d] : d \\in %s} \\cup {[op |-> "trig", i |-> x] : x \\in 1..%d}'
         ' \\cup {[op |-> o] : o \\in {"check", "trigall", "trigallcb"}}' % (n, vals, dts, dts, n))
    if side:
        s += ' \\cup {x \\in {[op |-> "process", dt |-> d, si |-> a, sj |-> b, sv |-> 1] : d \\in %s, a \\in 1..%d, b \\in 1..%d} : x.si # x.sj}' % (dts, n, n)
    return s


def history(rng, n, delays, steps, vals):
    h = []
    for _ in range(steps):
        x = rng.random()
        if x < 0.35:
            h.append({"op": "mod", "i": rng.randrange(1, n + 1), "v": rng.choice([0, 1, 2, 3, rng.randrange(vals + 1)])})
        elif x < 0.85:
            d = rng.choice(delays)
            e = {"op": "process", "dt": max(0, rng.choice([0, 1, d, d - 1, d + 1, d // 2, rng.randrange(d + 3)])), "si": 0, "sj": 0, "sv": 0}
            if n > 1 and rng.random() < 0.2:
                a, b = rng.sample(range(1, n + 1), 2)
                e.update(si=a, sj=b, sv=rng.randrange(vals + 1))
            h.append(e)
        elif x < 0.93:
            h.append({"op": "clear", "dt": rng.choice([0, 1, 5])})
        elif x < 0.96:
            h.append({"op": "check"})
        else:
            h.append(rng.choice([{"op": "trig", "i": rng.randrange(1, n + 1)}, {"op": "trigall"}, {"op": "trigallcb"}]))
    return h


def c15(ctx):
    src = ["h_watcher.c", "gel/data_structures/watcher.c"]
    variants = {"static": ctx.build("w_static", src, defs=["GEL_STATIC_BLOCK_SIZE=300"]),
                "malloc": ctx.build("w_malloc", src, defs=["GEL_MALLOC_AVAILABLE=1"]),
                "packed": ctx.build("w_packed", src, defs=["GEL_MALLOC_AVAILABLE=1", "GEL_WATCHER_REDUCE_RAM_FOOTPRINT"]),
                "packed_static": ctx.build("w_packed_static", src, defs=["GEL_WATCHER_REDUCE_RAM_FOOTPRINT", "GEL_STATIC_BLOCK_SIZE=255"])}
    from .timers import NARROW
    narrow = [(bits, ctx.build("w_" + name, src, defs=["GEL_MALLOC_AVAILABLE=%d" % (bits == 16)] + defs)) for name, bits, defs in NARROW]
    ctx.assumptions += ["delays and the time between a change and the next processing stay below half the timestamp range",
                        "a callback does not modify its own block"]
    cfgs = [("n1", [2], 4, "0..3", False), ("n1i", [0], 4, "{0}", False), ("n2", [0, 2], 1, "0..2", True), ("n2d", [3, 1], 1, "{0, 1, 3}", True),
            ("n3", [0, 1, 0], 1, "{0, 1}", True)]
    if not ctx.quick:
        cfgs += [("n2b", [2, 2], 2, "0..2", True), ("n3d", [2, 0, 1], 1, "0..2", True), ("n4", [0, 0, 1, 0], 1, "{0, 1}", True)]
    big = (1 << 63) - 1
    shapes = [[(0, 5), (1, 4), (3, 7), (2, 6)], [(0, 255), (2, 254), (4, 1), (0, 1)], [(1, 4), (0, 64), (0, 33), (3, 7)], [(3, 7), (0, 80), (0, 2), (2, 2)]]
    i = 0
    for tag, delays, vals, dts, side in cfgs:
        tr = ctx.model_check(tag, "Watcher", {"Cap": max(delays) + 1}, ["Immediate"], PROPS,
                             subst={"Ops": ops(len(delays), vals, dts, side), "Delay": "<<%s>>" % ", ".join(map(str, delays))})
        for v, exe in variants.items():
            u, b = [(1, 2**64 - 2), (1000, 2**63 - 1500), ((1 << 60) - 1, 2**63), (1 << 32, 99)][i % 4]
            if v.startswith("packed"):
                u, b = [(1, 2**64 - 2), (9000, 2**63 - 1500)][i % 2]
            sh = [s for s in shapes[i % 4][:len(delays)]]
            if vals > 1:       # every byte position matters: contents differ in one byte each
                sh = [(0, 4)] + sh[1:] if i % 2 else [(f, max(s, 2)) if f == 0 else (f, s) for f, s in sh]
            ctx.replay_tours("%s %s unit %d" % (tag, v, u), exe, tr, F,
                             args=[str(u), str(b)] + ["%d:%d:%d" % (f, s, d) for (f, s), d in zip(sh, delays)])
            i += 1
        for bits, exe in narrow:
            h = (1 << (bits - 1)) - 1
            for u, b in [(1, (1 << bits) - 2), (h // 200 + 1, 99)]:
                ctx.replay_tours("%s %d-bit time unit %d" % (tag, bits, u), exe, tr, F, args=[str(u), str(b)] + ["%d:%d:%d" % (f, s, d) for (f, s), d in zip(sh, delays)])
    rng = ctx.rng("h")
    for k, (v, u, b, delays, sh) in enumerate([
            ("static", 1, 2**64 - 300, [0, 7, 100, 0, 1], [(0, 300), (1, 4), (3, 7), (2, 6), (0, 17)]),
            ("malloc", 1 << 40, 2**64 - 1, [5, 0, 3], [(0, 1000), (1, 4), (0, 70000)]),
            ("packed", 1, 2**63 - 700, [65535, 0, 256, 300], [(0, 255), (0, 200), (2, 128), (1, 4)]),
            ("packed_static", 1, 5, [1000, 0], [(0, 255), (2, 254)]),
            ("malloc", 4294967297, 2**63 - 9, [0, 0, 40000, 1, 2, 3, 0, 9], [(0, 9)] * 8)]):
        n = len(delays)
        vals = 4 * max(s for _, s in sh) if max(s for _, s in sh) < 2000 else 300
        hs = [history(rng, n, delays, 120 if ctx.quick else 800, vals) for _ in range(2 if ctx.quick else 8)]
        # every single byte of every block is watched
        sweep = []
        for j in range(n):
            for x in range(1, min(sh[j][1], 300 if ctx.quick else 2000) + 1):
                sweep += [{"op": "mod", "i": j + 1, "v": x}, {"op": "process", "dt": 0, "si": 0, "sj": 0, "sv": 0}]
        if k < 3:
            hs.append(sweep)
        ctx.trace_check("%s unit %d" % (v, u), variants[v], "Watcher", hs, F, {"Cap": 1000000, "Ops": "{}"}, ["Immediate"], subst={"Delay": "<<%s>>" % ", ".join(map(str, delays))},
                        args=[str(u), str(b)] + ["%d:%d:%d" % (f, s, d) for (f, s), d in zip(sh, delays)], selftest=k == 0, props=PROPS)
    # delays and times at powers of two
    from .timers import EDGES
    nothing = {"si": 0, "sj": 0, "sv": 0}
    for v, exe, lim, b in [(v, e, 65536 if v.startswith("packed") else 1 << 30, 0) for v, e in variants.items()] + [(str(bits), e, 1 << (bits - 2), 0) for bits, e in narrow]:
        es = [e for e in EDGES if e < lim]
        h = []
        for k, t in enumerate(es):
            h += [{"op": "mod", "i": k + 1, "v": 1 + k % 3}, dict(nothing, op="process", dt=1 if k % 2 else 0), dict(nothing, op="process", dt=t - 1), dict(nothing, op="process", dt=1)]
            h += [{"op": "mod", "i": k + 1, "v": 0}, {"op": "check"}, {"op": "clear", "dt": 2}, {"op": "trig", "i": k + 1}]
        hs = [h]
        for k, t in enumerate(es):     # found changed, and processed, at exactly that time
            hs.append([{"op": "mod", "i": 1 + k // 2, "v": 1}, dict(nothing, op="process", dt=t), dict(nothing, op="process", dt=es[k // 2] - 1), dict(nothing, op="process", dt=1)])
            hs.append([{"op": "mod", "i": k + 1, "v": 1}, dict(nothing, op="process", dt=0), {"op": "mod", "i": k + 1, "v": 2}, {"op": "clear", "dt": 1}, dict(nothing, op="process", dt=t), dict(nothing, op="process", dt=1)])
            hs.append([{"op": "mod", "i": 1 + k // 2, "v": 1}, {"op": "mod", "i": len(es), "v": 2}, {"op": "clear", "dt": t}, {"op": "mod", "i": 1, "v": 3}, dict(nothing, op="process", dt=0), dict(nothing, op="process", dt=1)])
        for u in [1] + ([1 << 31, (1 << 32) + 1] if v in ("static", "malloc") else []):
            ctx.trace_check("powers of two %s unit %d" % (v, u), exe, "Watcher", hs, F, {"Cap": 1 << 29, "Ops": "{}"}, ["Immediate"], subst={"Delay": "<<%s>>" % ", ".join(map(str, es))},
                        args=[str(u), str(b)] + ["0:%d:%d" % (s, d) for s, d in zip([1, 4, 127, 128, 129, 200, 255, 256, 257, 300, 2, 3, 5, 6, 7] if v in ("static", "malloc") else [3] * 15, es)], props=PROPS, chunk=2000)
    # long lists
    for v, n in [("malloc", 300), ("packed_static", 257)] + ([] if ctx.quick else [("static", 600), ("packed", 256)]):
        delays = [rng.choice([0, 0, 1, 5]) for _ in range(n)]
        h = [{"op": "mod", "i": n, "v": 1}, {"op": "check"}, {"op": "mod", "i": 1, "v": 2}, {"op": "process", "dt": 0, "si": 0, "sj": 0, "sv": 0},
             {"op": "process", "dt": 5, "si": 0, "sj": 0, "sv": 0}, {"op": "mod", "i": n - 1, "v": 1}, {"op": "check"}, {"op": "clear", "dt": 1}, {"op": "check"}]
        for i in [n, 256, 257, 255, n - 1, 130]:
            if i <= n:
                h += [{"op": "mod", "i": i, "v": 3}, {"op": "check"}, {"op": "process", "dt": 1, "si": 0, "sj": 0, "sv": 0}, {"op": "process", "dt": 6, "si": 0, "sj": 0, "sv": 0}, {"op": "trig", "i": i}]
        h += history(rng, n, delays, 40 if ctx.quick else 200, 4)
        ctx.trace_check("%d watchers" % n, variants[v], "Watcher", [h], F, {"Cap": 1000000, "Ops": "{}"}, ["Immediate"], subst={"Delay": "<<%s>>" % ", ".join(map(str, delays))},
                        args=["1", str(2**64 - 3)] + ["%d:%d:%d" % (0, 3, d) for d in delays], props=PROPS)
