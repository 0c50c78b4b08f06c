"""C11: keypad."""
FIELDS = {"rst": [], "sample": ["dt", "b", "c", "l", "p"]}
BASES = ["0", "0x7ffffffffffffffa", "0xfffffffffffffff3", "123456789"]


def ops(k, dts, c, l, p, rst=True):
    return (('{[op |-> "rst"]} \\cup ' if rst else "") +
            '{[op |-> "sample", dt |-> x, b |-> y, c |-> %d, l |-> %d, p |-> %d] : x \\in %s, y \\in 0..%d}' % (c, l, p, dts, k))


def history(rng, k, steps, vary):
    c = rng.choice([0, 1, 5, 40, 1000])
    l = c + rng.choice([0, 1, 30, 2000, 5000])
    p = rng.choice([0, 1, 10, 100, c + 1, l + 1])
    ev = []
    hold = b = 0
    for _ in range(steps):
        if rng.random() < 0.01:
            ev.append({"op": "rst"})
            continue
        if hold <= 0:
            b = rng.choice([0, 0, b, rng.randrange(k + 1), rng.randrange(1, k + 1)])
            hold = rng.choice([1, 1, 2, 3, 6, 12])
        if vary and rng.random() < 0.05:
            c = rng.choice([0, 1, 5, 40])
            l = c + rng.choice([0, 3, 500])
            p = rng.choice([0, 2, 20])
        hold -= 1
        dt = max(0, rng.choice([0, 1, 1, 2, c, c + 1, c - 1, l - c, l - c + 1, l, l + 1, p, p + 1, p - 1, rng.randrange(l + 2)]))
        bb = b if rng.random() < 0.93 else rng.randrange(k + 1)
        ev.append({"op": "sample", "dt": dt, "b": bb, "c": c, "l": l, "p": p})
    return ev


def c11(ctx):
    exe = ctx.build("keypad", ["h_keypad.c", "gel/keypad/keypad.c"])
    props = ["OneAtATime", "FirstPress", "Grammar"]
    ctx.assumptions += ["times and the gap between samples stay below half the timestamp range", "click <= long click"]
    cfgs = [("k2", 2, "{0, 1, 2}", 1, 3, 1), ("k2b", 2, "{0, 1, 5}", 2, 2, 0), ("k3", 3, "{1, 3}", 1, 2, 1)]
    if not ctx.quick:
        cfgs += [("k2c", 2, "{0, 1, 2, 5}", 2, 4, 1), ("k3b", 3, "{0, 1, 4}", 1, 3, 0), ("k4", 4, "{1, 3}", 1, 2, 0), ("k1", 1, "0..7", 2, 5, 2)]
    i = 0
    for tag, k, dts, c, l, p in cfgs:
        tr = ctx.model_check(tag, "Keypad", {"K": k, "Cap": max(c, l, p) + 1}, ["OneEngaged", "Held"], props,
                             subst={"Ops": ops(k, dts, c, l, p)})
        for f, base in [("1", BASES[2]), ("1000", BASES[1]), ("0x0400000000000000", "0x7000000000000001"), ("37", BASES[0])][:2 if ctx.quick else 4]:
            ctx.replay_tours("%s x%s base %s" % (tag, f, base), exe, tr, FIELDS, args=[str(k), f, base, str(i % 4)])
            i += 1
    tr = ctx.model_check("k1", "Keypad", {"K": 1, "Cap": 5}, ["OneEngaged", "Held"], props, subst={"Ops": ops(1, "0..5", 1, 4, 2)})
    for f, base in [("1", BASES[1]), ("0x0400000000000000", "5"), ("1000", BASES[2])]:
        ctx.replay_tours("k1 x%s base %s" % (f, base), exe, tr, FIELDS, args=["1", f, base, str(i % 4)])
        i += 1
    # narrower timestamps: the time wraps at 32 and at 16 bits
    from .timers import NARROW
    rng = ctx.rng("narrow")
    for name, bits, defs in NARROW:
        ex = ctx.build("keypad_" + name, ["h_keypad.c", "gel/keypad/keypad.c"], defs=defs)
        for f, base in [(1, (1 << bits) - 13), ((1 << (bits - 1)) // 6, 5)]:
            ctx.replay_tours("k1 %s x%s base %s" % (name, f, base), ex, tr, FIELDS, args=["1", str(f), str(base), str(i % 4)])
            i += 1
        hs = [history(rng, 3, 150 if ctx.quick else 1000, v) for v in (0, 1)]
        ctx.trace_check("random " + name, ex, "Keypad", hs, FIELDS, {"K": 3, "Cap": 1000000, "Ops": "{}"}, ["OneEngaged", "Held"],
                        args=["3", "1", str((1 << bits) - 1000), str(i % 4)], props=props)
    # times and periods at powers of two
    from .timers import EDGES
    hs = []
    for k, t in enumerate(EDGES):
        for c, l, p in [(t, t, 1), (t, t + 3, t), (0, t, EDGES[k // 2]), (EDGES[k // 2], t + EDGES[k // 2], 2), (1, 2, t)]:
            sm = lambda d, b: {"op": "sample", "dt": d, "b": b, "c": c, "l": l, "p": p}
            hs.append([sm(t, 1), sm(c, 1), sm(1, 1), sm(max(0, l - c - 1), 1), sm(1, 1), sm(p - 1, 1), sm(1, 1), sm(1, 0), sm(c, 0), sm(1, 0), sm(0, 2), sm(c + 1, 2), sm(0, 0), sm(c + 1, 0)])
    ctx.trace_check("powers of two", exe, "Keypad", hs, FIELDS, {"K": 2, "Cap": 1 << 29, "Ops": "{}"}, ["OneEngaged", "Held"], args=["2", "1", "0", "4"], props=props, chunk=2000)
    rng = ctx.rng("hist")
    for j, (k, base) in enumerate([(1, "0"), (3, "0xfffffffffffffc18"), (6, "0x7ffffffffffffe00"), (12, "99999"), (260, "7")]):
        j = 3 if k > 12 else j
        hs = [history(rng, k, 150 if ctx.quick else 1000, v) for v in ((0, 0, 1, 0) if k < 200 or not ctx.quick else ())]
        if k == 260:   # long tables: the keys beyond the 127th and the 255th
            hs += [[dict(op="sample", dt=d, b=b, c=5, l=20, p=3) for b in (1, 128, 129, 256, 257, 260) for b, d in ((b, 1), (b, 6), (b, 4), (b, 30), (0, 1), (0, 6), (0, 1))]]
        ctx.trace_check("random k%d" % k, exe, "Keypad", hs, FIELDS, {"K": k, "Cap": 1000000, "Ops": "{}"}, ["OneEngaged", "Held"],
                        args=[str(k), "1", base, str(j)], selftest=j == 0, props=props)
