"""C19: PID."""
F = {"init": [], "sp": ["v"], "tune": ["p", "i", "d"], "thr": ["w", "v"], "en": ["w", "v"], "auto": ["v"], "clear": [], "input": ["v"]}
INT = ("int", "long", "short", "long long")


def build(ctx, h, d, t, o=None):
    return ctx.build("pid_%d_%d_%s" % (h, d, t.replace(" ", "") + "_" + (o or "")), ["h_pid.c", "gel/pid/pid.c"],
                     defs=["VERIF_PID_TYPES", 'VERIF_EXTRA_CONF="pid_types.h"', "PTYPE=" + t, "OTYPE=" + (o or t), "GEL_PID_INTEGRAL_HISTORY_SIZE=%d" % h, "GEL_PID_DERIVATIVE_DELTA=%d" % d])


def history(rng, n, h, d, scale, div=1):
    """div: integral thresholds are multiples of it."""
    ev = []
    sp = rng.choice([0, scale, -scale, 3])
    ev.append({"op": "tune", "p": rng.randrange(-9, 10), "i": rng.choice([1, 2, 3, 4, 5, -7, 40]), "d": rng.randrange(-9, 10)})
    ev.append({"op": "sp", "v": sp})
    mode = rng.randrange(3)
    for _ in range(n):
        x = rng.random()
        if x < 0.8:
            v = sp - rng.choice([0, 1, -1, rng.randrange(-scale, scale + 1), rng.randrange(scale + 1), scale, scale // 2, scale // 2 + 1, scale // 2 - 1] if mode else
                                [0, rng.randrange(1, scale + 1), rng.randrange(1, scale + 1)])
            ev.append({"op": "input", "v": v})
        elif x < 0.84:
            sp = rng.choice([0, sp, sp + 1, -sp, rng.randrange(-scale, scale + 1)])
            ev.append({"op": "sp", "v": sp})
        elif x < 0.88:
            ev.append({"op": "tune", "p": rng.randrange(-9, 10), "i": rng.randrange(-9, 10), "d": rng.randrange(-9, 10)})
        elif x < 0.92:
            v = rng.choice([0, 1, scale // 2, scale])
            w = rng.choice(["low", "high", "der"])
            ev.append({"op": "thr", "w": w, "v": v if w == "der" else v // div * div})
        elif x < 0.96:
            ev.append({"op": "en", "w": rng.choice(["low", "high", "der"]), "v": rng.choice([0, 1, 1])})
        elif x < 0.975:
            ev.append({"op": "auto", "v": rng.choice([0, 1])})
        elif x < 0.99:
            ev.append({"op": "clear"})
        elif x < 0.993:
            ev.append({"op": "init"})
    return ev


def c19(ctx):
    ctx.assumptions += ["gains are quarters and products stay below 2^24, so that the arithmetic is exact in single precision"]
    props = ["SumOnly"]
    rng = ctx.rng("p")

    def ops(ins, sps, tunes, en, thr, auto):
        s = '{[op |-> "input", v |-> x] : x \\in %s} \\cup {[op |-> "sp", v |-> x] : x \\in %s} \\cup {[op |-> "clear"]}' % (ins, sps)
        s += " \\cup {%s}" % ", ".join('[op |-> "tune", p |-> %d, i |-> %d, d |-> %d]' % t for t in tunes)
        if en:
            s += ' \\cup {[op |-> "en", w |-> x, v |-> y] : x \\in %s, y \\in {0, 1}} \\cup {[op |-> "thr", w |-> x, v |-> y] : x \\in %s, y \\in %s}' % (en, en, thr)
        if auto:
            s += ' \\cup {[op |-> "auto", v |-> x] : x \\in {0, 1}}'
        return s
    t1 = [(2, 3, 5)]
    cfgs = [("h2d2", 2, 2, ops("{-1, 0, 1}", "{0}", t1, "", "", True)), ("h3d1", 3, 1, ops("{-2, 0, 3}", "{0}", t1, "", "", True)),
            ("thr", 2, 1, ops("{-3, -2, 0, 2}", "{0}", t1, '{"low", "high"}', "{3}", False)), ("der", 1, 2, ops("{-1, 0, 2}", "{0, 1}", t1, '{"der"}', "{1}", False)),
            ("h1d3", 1, 3, ops("{-1, 0, 1}", "{0}", [(4, -6, 7)], "", "", True))]
    if not ctx.quick:
        cfgs += [("h4d2", 4, 2, ops("{-1, 0, 2}", "{0}", t1, "", "", True)), ("h2d3", 2, 3, ops("{-1, 0, 1}", "{0, 1}", t1, "", "", True)),
                 ("all", 2, 1, ops("{-3, 0, 2}", "{0}", t1, '{"low", "high"}', "{1, 3}", True)), ("der2", 1, 3, ops("{-1, 0, 2}", "{0, 1}", t1, '{"der"}', "{0, 1}", False))]
    for tag, h, d, o in cfgs:
        tr = {z: ctx.model_check("%s_%s" % (tag, "trunc" if z else "exact"), "Pid", {"H": h, "D": d, "Trunc": "TRUE" if z else "FALSE"}, ["Windows"], props, subst={"Ops": o}) for z in (True, False)}
        for t, ot, unit in [("int", "int", 1), ("double", "double", 1), ("short", "int", 1), ("int", "double", 1)] + \
                ([("double", "double", 0.25), ("float", "float", 0.5)] if '"low"' not in o else []) + \
                ([] if ctx.quick else [("short", "short", 1), ("float", "float", 1), ("long", "long", 1), ("int", "float", 1), ("int", "long long", 1), ("double", "int", 1)]):
            ctx.replay_tours("%s %s to %s, unit %s" % (tag, t, ot, unit), build(ctx, h, d, t, ot), tr[ot in INT], F, args=[str(unit)])
    cases = [(1, 1, "int", 50), (2, 5, "int", 1000), (5, 2, "double", 2000), (200, 5, "int", 500), (7, 8, "long", 3000), (3, 3, "float", 40), (16, 1, "short", 100),
             (13, 32, "int", 700), (300, 290, "int", 200), (4, 3, "double", 300, "double", 0.25), (6, 2, "float", 40, "float", 0.5), (5, 4, "short", 100, "int", 1), (3, 6, "int", 900, "double", 1),
             (4, 2, "double", 500, "int", 1), (128, 127, "int", 100), (255, 256, "int", 90), (256, 128, "long", 90), (127, 255, "double", 80)]
    for k, (h, d, t, sc, *rest) in enumerate(cases):
        ot, unit = rest or (t, 1)
        n = max(100, h + 60) if ctx.quick else max(500, 3 * h)
        hs = [history(rng, n, h, d, sc, int(1 / unit)) for _ in range(2 if ctx.quick else 6)]
        ctx.trace_check("H=%d D=%d %s to %s, unit %s" % (h, d, t, ot, unit), build(ctx, h, d, t, ot), "Pid", hs, F, {"H": h, "D": d, "Trunc": "TRUE" if ot in INT else "FALSE", "Ops": "{}"}, ["Windows"],
                        selftest=k == 1, props=props, args=[str(unit)])
