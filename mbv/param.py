"""C16-C18: parameters."""
F16 = {"decl": ["flav", "min", "max", "def", "step", "hasmin", "hasmax", "pmin", "pmax", "val"], "set": ["v"], "setlim": ["min", "max"], "step": ["mod"],
       "null": [], "dflt": [], "check": []}
W = {"U8": 8, "I8": 8, "U16": 16, "I16": 16, "U32": 32, "I32": 32, "U64": 64, "I64": 64}
UD = ["GEL_PARAMETER_USER_DATA=long"]
P16 = ["NeverLeaves", "Exact"]


def decl(flav, mi, ma, de, st, val, hm=0, hM=0, pm=0, pM=0):
    return {"op": "decl", "flav": flav, "min": mi, "max": ma, "def": de, "step": st, "hasmin": hm, "hasmax": hM, "pmin": pm, "pmax": pM, "val": val}


def tl(d):
    return "[" + ", ".join("%s |-> %s" % (k, '"%s"' % v if isinstance(v, str) else v) for k, v in d.items()) + "]"


def small_decls(rng, lo, hi, n):
    out = []
    fl = 0
    pairs = [(lo, hi), (lo + 3, hi - 6), (lo + 5, lo + 5), (lo, lo + 7), (hi - 7, hi), (lo + 1, hi - 1)]
    for i in range(n):
        mi, ma = pairs[i % 6]
        st = [1, 2, 3, 5, 7, 1][(i // 6 + i) % 6]
        hm, hM = [(0, 0), (1, 0), (0, 1), (1, 1)][i // 6 % 4]
        pm, pM = (mi, ma) if i % 2 else (lo + 2, hi - 3)
        if hm == 0 and hM == 0:
            pm, pM = lo, lo      # not in force: wrong on purpose
        out.append(decl(fl % 7, mi if not hm else hi, ma if not hM else lo, rng.randrange(mi, ma + 1), st, rng.randrange(mi, ma + 1), hm, hM, pm, pM))
        fl += 1
    return out


def hist16(rng, n, lo, hi, wrap, modmax, amax, steps=None, lowest=None):
    """lo..hi: range of the type in model numbers; without wrap every exact result is kept inside.
    lowest: no multiplier is outside lowest..modmax."""
    ev, p = [], None
    edge = lambda: rng.choice([lo, hi, lo + 1, hi - 1, rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1), max(lo, min(hi, rng.randrange(-3, 20)))])
    for i in range(n):
        if p is None or rng.random() < 0.06:
            a, b = sorted([edge(), edge()])
            hm, hM = rng.random() < 0.4, rng.random() < 0.4
            c, d = sorted([edge(), edge()])
            fl = rng.choice([0, 0, 1, 2, 3, 4, 5, 6])
            if (1 if hm else 0, 1 if hM else 0) != (0, 0) and fl in (1, 2):
                fl = 3
            st = rng.choice([1, 1, 2, 10, rng.randrange(1, max(2, min(hi, amax)))])
            st = rng.choice(steps) if steps else st
            mi, ma = (c if hm else a), (d if hM else b)
            if mi > ma:
                mi, ma = ma, mi
                hm = hM = False
                a, b = mi, ma
            p = decl(fl, a, b, rng.randrange(mi, ma + 1), st, rng.choice([mi, ma, rng.randrange(mi, ma + 1)]), int(hm), int(hM), c, d)
            ev.append(p)
            v = p["val"]
            lim = [mi, ma]
            continue
        x = rng.random()
        if x < 0.72:
            mod = rng.choice([1, -1, 1, -1, 2, -3, 7, -10, rng.randrange(-modmax, modmax + 1), 0])
            mod = max(-(amax // p["step"]), min(amax // p["step"], mod))
            if rng.random() < 0.3 and p["step"]:
                mod = rng.choice([(lim[1] - v) // p["step"], -((v - lim[0]) // p["step"]), (lim[1] - v) // p["step"] + 1, -((v - lim[0]) // p["step"]) - 1])
                mod = max(-modmax, min(modmax, max(-(amax // p["step"]), min(amax // p["step"], mod))))
            if lowest is not None:
                mod = max(lowest, min(modmax, mod))
                if rng.random() < 0.3 and (lowest * p["step"] >= -amax or p["step"] == 1):
                    mod = lowest
            r = v + mod * p["step"]
            if not lo <= r <= hi:
                if not wrap:
                    continue
                r = (r - lo) % (hi - lo + 1) + lo
            v = r if lim[0] <= r <= lim[1] or mod == 0 else lim[0] if mod > 0 else lim[1]
            ev.append({"op": "step", "mod": mod})
        elif x < 0.8:
            v = edge()
            ev.append({"op": "set", "v": v})
        elif x < 0.88:
            c, d = sorted([edge(), edge()])
            ev.append({"op": "setlim", "min": c, "max": d})
            mi = c if p["hasmin"] else p["min"]
            ma = d if p["hasmax"] else p["max"]
            lim = [mi, ma]
            if mi > ma:
                p = None
                ev.pop()
        elif x < 0.93:
            v = p["def"]
            ev.append({"op": "dflt"})
        elif x < 0.98:
            if not lim[0] <= v <= lim[1]:
                v = p["def"]
            ev.append({"op": "check"})
        else:
            ev.append({"op": "null"})
    return ev


def c16(ctx):
    src = ["h_param.c", "gel/parameter/parameter.c"]
    exe = ctx.build("step", src, defs=["STEP"] + UD)
    small = [(8 * k, ctx.build("step%d" % k, src, defs=["STEP", "GEL_PARAMETER_MAX_SIZE=%d" % k] + UD)) for k in (1, 2, 4)]
    ctx.assumptions += ["signed 32 and 64 bit parameters: the exact result of a step fits the type", "floating point: exactly representable values"]
    rng = ctx.rng("m")
    mods = "{-17, -8, -3, -2, -1, 0, 1, 2, 3, 5, 16}"
    nd = 12 if ctx.quick else 24
    tr = {}
    for tag, lo, hi, wrap in [("u", 0, 15, True), ("i", -8, 7, True), ("inowrap", -8, 7, False)]:
        ds = small_decls(rng, lo, hi, nd)
        ops = "{%s} \\cup {[op |-> \"step\", mod |-> m] : m \\in %s} \\cup {[op |-> \"set\", v |-> x] : x \\in %d..%d} \\cup {[op |-> o] : o \\in {\"null\", \"dflt\", \"check\"}}" % (
            ", ".join(map(tl, ds)), mods, lo, hi)
        ops += " \\cup {[op |-> \"setlim\", min |-> %d, max |-> %d], [op |-> \"setlim\", min |-> %d, max |-> %d]}" % (lo + 2, hi - 3, lo, hi)
        tr[tag] = ctx.model_check(tag, "ParamStep", {"Lo": lo, "Hi": hi, "Wrap": "TRUE" if wrap else "FALSE"}, ["Range"], P16, subst={"Ops": ops})
    for t, w in W.items():
        sg = t[0] == "I"
        m = "u" if not sg else "i" if w <= 16 else "inowrap"
        ctx.replay_tours("%s top bits" % t, exe, tr[m], F16, args=[t, str(1 << (w - 4)), "0"])
        for k, e in small:
            if w <= k:
                ctx.replay_tours("%s top bits, %d-bit build" % (t, k), e, tr[m], F16, args=[t, str(1 << (w - 4)), "0"])
        if not (w > 16 and ctx.quick):
            continue
    # no overflow: anywhere in the range of the type, any unit
    for t, unit, off in [("U64", 1, (1 << 63) + 5), ("I64", 3, -(1 << 62)), ("U32", 1, (1 << 31) - 2), ("I32", 1000, -70000), ("U16", 1, 30000), ("I8", 1, -100),
                         ("F32", 0.5, 10), ("F64", 0.125, -3), ("F32", 2, -1), ("F64", 1 << 40, 1)]:
        ctx.replay_tours("%s unit %s at %s" % (t, unit, off), exe, tr["inowrap"], F16, args=[t, repr(unit), repr(off)])
    n = 130 if ctx.quick else 900
    for t, lo, hi, wrap, unit, off, modmax, amax in [
            ("U8", 0, 255, True, 1, 0, 1 << 20, 1 << 28), ("I8", -128, 127, True, 1, 0, 1 << 20, 1 << 28),
            ("U16", 0, 65535, True, 1, 0, 16000, 1 << 29), ("I16", -32768, 32767, True, 1, 0, 16000, 1 << 29),
            ("U32", 0, (1 << 24) - 1, True, 1 << 8, 0, 100, 1 << 29), ("U32", 0, (1 << 29) - 1, False, 1, 7, 1 << 29, 1 << 29),
            ("I32", -(1 << 29), (1 << 29) - 1, False, 3, 12345, 1 << 29, 1 << 29), ("I32", -(1 << 23), (1 << 23) - 1, False, 256, 0, 100, 1 << 29),
            ("U64", 0, (1 << 24) - 1, True, 1 << 40, 0, 100, 1 << 29), ("U64", 0, (1 << 29) - 1, False, 4294967297, 12297829382473034410, 1 << 29, 1 << 29),
            ("I64", -(1 << 29), (1 << 29) - 1, False, 4294967297, 1, 1 << 29, 1 << 29), ("I64", -(1 << 29), (1 << 29) - 1, False, 17179869184 - 3, -7, 1 << 29, 1 << 29),
            ("F32", -4000, 4000, False, 0.25, 0, 1000, 1 << 20), ("F64", -(1 << 26), 1 << 26, False, 0.0078125, 3, 1 << 20, 1 << 28)]:
        hs = [hist16(rng, n, lo, hi, wrap, modmax, amax) for _ in range(2 if ctx.quick else 8)]
        ctx.trace_check("%s unit %s" % (t, unit), exe, "ParamStep", hs, F16, {"Lo": lo, "Hi": hi, "Wrap": "TRUE" if wrap else "FALSE", "Ops": "{}"}, ["Range"],
                        args=[t, repr(unit), repr(off)], selftest=t == "U8", props=P16)
    # the largest multipliers (multiples of 2^28, down to the lowest int)
    q = 1 << 28
    for t, lo, hi, wrap, k, off, amax, steps in [("U32", 0, 15, True, 1, 0, 64, [1, 2, 3]), ("I32", -8, 7, False, 1, 0, 7, [1, 1, 2]), ("U64", 0, (1 << 24) - 1, False, 5, 7, 1 << 24, None),
                                                 ("U64", 0, (1 << 29) - 1, False, 63, 0, 1 << 29, [1, 2, 1 << 20]), ("I64", -(1 << 24), 1 << 24, False, 3, -1, 1 << 24, None),
                                                 ("F32", -4000, 4000, False, 0.5, 0, 4000, [1, 3, 100]), ("F64", -4000, 4000, False, 0.375, 0, 4000, [1, 3, 100])]:
        hs = [hist16(rng, n, lo, hi, wrap, 7, amax, steps, -8) for _ in range(2 if ctx.quick else 8)]
        ctx.trace_check("%s huge multipliers, %s" % (t, k), exe, "ParamStep", hs, F16, {"Lo": lo, "Hi": hi, "Wrap": "TRUE" if wrap else "FALSE", "Ops": "{}"}, ["Range"],
                        args=[t, repr(int(k * q) if t[0] != "F" else k * q), repr(off), str(q)], props=P16)


F17 = {"set": ["i", "v"], "setall": ["v"], "conf": ["i", "lvl", "min", "max"], "count": ["m"], "get": ["n", "m"], "defaults": [], "check": []}


def c17(ctx):
    src = ["h_param.c", "gel/parameter/parameter.c"]
    exe = ctx.build("table", src, defs=["TABLE"] + UD)
    exe4 = ctx.build("table4", src, defs=["TABLE", "GEL_PARAMETER_MAX_SIZE=4"] + UD)
    small = {k: ctx.build("table%d" % k, src, defs=["TABLE", "GEL_PARAMETER_MAX_SIZE=%d" % k] + UD) for k in (1, 2)}
    props = ["ReadsOnly", "Repaired", "Found"]
    rng = ctx.rng("t")
    types = list(W) + ["F32", "F64"]
    ctx.assumptions += ["a runtime callback sets the level and maximum of its own entry"]
    k = 0
    for tag, de, rt, vals, lv in [("n2", [3, 1], [0, 1], "{0, 3}", "{<<>>, <<0>>, <<31>>}"), ("n3", [2, 4, 3], [1, 0, 0], "{1, 4}", "{<<>>, <<0>>}")] + \
            ([] if ctx.quick else [("n3b", [2, 4, 3], [1, 1, 0], "{2, 5}", "{<<>>, <<1>>}")]):
        n = len(de)
        ops = ('{[op |-> "set", i |-> x, v |-> y] : x \\in 1..%d, y \\in %s} \\cup {[op |-> "count", m |-> y] : y \\in {<<>>, <<0>>, <<0, 31>>}} \\cup '
               '{[op |-> "get", n |-> x, m |-> y] : x \\in 0..%d, y \\in {<<0>>, <<31>>}} \\cup {[op |-> "defaults"], [op |-> "check"]} \\cup '
               '{[op |-> "conf", i |-> x, lvl |-> l, min |-> 0, max |-> y] : x \\in 1..%d, l \\in %s, y \\in %s}' % (n, vals, n - 1, n, lv, vals if n == 2 else "{3}"))
        tr = ctx.model_check(tag, "ParamTable", {}, (), props, subst={"Ops": ops, "Def": "<<%s>>" % ", ".join(map(str, de)), "RT": "<<%s>>" % ", ".join(map(str, rt))})
        for j in range(3 if ctx.quick else 10):
            ts = [types[(k * 3 + 7 * x) % 10] for x in range(n)]
            k += 1
            ctx.replay_tours("%s %s" % (tag, ts), exe, tr, F17, args=["%s:%d:%d" % z for z in zip(ts, rt, de)])
        for j in ((1, 2) if n == 2 or not ctx.quick else ()):
            ts = [types[(x + j) % (2 * j)] for x in range(n)]
            ctx.replay_tours("%s %s, %d-bit build" % (tag, ts, 8 * j), small[j], tr, F17, args=["%s:%d:%d" % z for z in zip(ts, rt, de)])
    packed = ctx.build("tablep", src, defs=["TABLE", "GEL_PARAMETER_HANDLE_ATTRIBUTES=__attribute__((packed))"] + UD)
    for j in range(7 if ctx.quick else 20):
        n = [1, 5, 10, 12, 16, 7][j % 6] if j != 6 else 300
        ts = [types[(x + j) % 10] for x in range(n)]
        if j % 6 == 5:
            ts = [t if t not in ("U64", "I64", "F64") else "I32" for t in ts]
        de = [rng.randrange(7 if n < 300 else 6) for _ in range(n)]
        rt = [rng.randrange(2) for _ in range(n)]
        hs = []
        for _ in range(3):
            h = []
            for _ in range(80 if ctx.quick else 400):
                mask = lambda: sorted(rng.sample(range(32), rng.choice([0, 1, 1, 2, 3, 32])))
                i = rng.randrange(1, n + 1)
                x = rng.random()
                if x < 0.3:
                    h.append({"op": "set", "i": i, "v": rng.randrange(7)})
                elif x < 0.55:
                    a, b = sorted([rng.randrange(7), rng.randrange(7)])
                    h.append({"op": "conf", "i": i, "lvl": mask()[:2] if rng.random() < 0.9 else [31], "min": a, "max": b})
                elif x < 0.65:
                    h.append({"op": "count", "m": mask()})
                elif x < 0.85:
                    h.append({"op": "get", "n": rng.randrange(n), "m": mask()})
                elif x < 0.88:
                    h.append({"op": "defaults"})
                else:
                    h.append({"op": "check"})
            hs.append(h)
        if n == 300:
            hs = [big_table(rng, n, 30 if ctx.quick else 200)]
        ctx.trace_check("%d entries" % n, exe4 if j % 6 == 5 else packed if j % 6 == 1 else exe, "ParamTable", hs, F17, {"Ops": "{}"}, (),
                        subst={"Def": "<<%s>>" % ", ".join(map(str, de)), "RT": "<<%s>>" % ", ".join(map(str, rt))},
                        args=["%s:%d:%d" % z for z in zip(ts, rt, de)], selftest=j == 1, props=props)
    # tables whose length is exactly at the edge of a byte
    for n in (127, 128, 255, 256):
        de, rt = [rng.randrange(6) for _ in range(n)], [rng.randrange(2) for _ in range(n)]
        h = [{"op": "count", "m": []}, {"op": "get", "n": n - 1, "m": [0]}, {"op": "get", "n": n // 2, "m": []}, {"op": "set", "i": n, "v": 6}, {"op": "check"},
             {"op": "conf", "i": n - 1, "lvl": [3], "min": 0, "max": 2}, {"op": "count", "m": [0]}, {"op": "get", "n": n - 2, "m": []}, {"op": "set", "i": 1, "v": 6},
             {"op": "defaults"}, {"op": "check"}]
        h += [{"op": "get", "n": k, "m": [k % 2]} for k in (126, 127, 128, 129, 254, 255) if k < n]
        ctx.trace_check("%d entries" % n, exe, "ParamTable", [h], F17, {"Ops": "{}"}, (),
                        subst={"Def": "<<%s>>" % ", ".join(map(str, de)), "RT": "<<%s>>" % ", ".join(map(str, rt))},
                        args=["%s:%d:%d" % z for z in zip([types[x % 10] for x in range(n)], rt, de)], props=props)


def big_table(rng, n, steps):
    """Most entries accessible, so that counts and positions exceed a byte."""
    h = [{"op": "count", "m": []}, {"op": "get", "n": n - 1, "m": [0]}, {"op": "get", "n": 256, "m": [31]}, {"op": "set", "i": n, "v": 6}, {"op": "check"}]
    h += [{"op": "get", "n": k, "m": [0]} for k in (127, 128, 255)]
    h += [{"op": "conf", "i": 257, "lvl": [3], "min": 0, "max": 6}, {"op": "count", "m": [0]}, {"op": "get", "n": 256, "m": []}, {"op": "get", "n": n - 1, "m": []},
         {"op": "defaults"}]
    # more than 255 repairs in one check
    h += [{"op": "setall", "v": 6}, {"op": "check"}, {"op": "count", "m": [1]}]
    for _ in range(steps):
        x = rng.random()
        m = sorted(rng.sample(range(32), rng.choice([0, 1, 3])))
        i = rng.choice([n, n - 1, 256, 257, 255, 1, rng.randrange(1, n + 1)])
        h.append({"op": "set", "i": i, "v": rng.randrange(7)} if x < 0.2 else {"op": "conf", "i": i, "lvl": m[:2], "min": 0, "max": rng.randrange(7)} if x < 0.35
                 else {"op": "count", "m": m} if x < 0.5 else {"op": "get", "n": i - 1, "m": m} if x < 0.85 else {"op": rng.choice(["check", "defaults"])})
    return h


F18 = {"load": ["w", "n", "sg", "v", "lo", "hi"], "put": ["w", "v"], "conv": [], "text": [], "textnull": [], "null": [], "copy": [], "copynull": [], "clone": [], "clonebuf": []}


def word(v, n):
    return list((v % (1 << (8 * n))).to_bytes(n, "little"))


def c18(ctx):
    src = ["h_param.c", "gel/parameter/parameter.c"]
    exe = ctx.build("conv", src, defs=["CONV"] + UD)
    exe4 = ctx.build("conv4", src, defs=["CONV", "GEL_PARAMETER_MAX_SIZE=4"] + UD)
    props = ["SourceKept", "TypesKept"]
    rng = ctx.rng("c")
    ctx.assumptions += ["unsigned 64 bit values above LONG_MAX are not converted to long; negative values have no index"]

    def rep(n, sg):
        b = 8 * n
        if sg == 2:
            return [rng.getrandbits(b) for _ in range(2)]
        if sg == 0:
            return [0, 1, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1]
        return [0, 1, -1, -(1 << (b - 1)), (1 << (b - 1)) - 1]

    def load(w, n, sg, v, lo, hi):
        return {"op": "load", "w": w, "n": n, "sg": sg, "v": word(v, n), "lo": word(lo, n), "hi": word(hi, n)}
    kinds = [(n, s) for n in (1, 2, 4, 8) for s in (0, 1)] + [(4, 2), (8, 2)]
    # exhaustive over a set of loads: every pair of types, every conversion
    loads = []
    for n, sg in kinds:
        r = rep(n, sg)
        for i, v in enumerate(r if sg != 2 else r[:1]):
            lo, hi = (min(r), max(r)) if i % 2 == 0 and sg != 2 else (r[0], max(r[0], r[1]))
            if sg != 2 or True:
                loads.append(load(1, n, sg, v, lo, hi))
    small = [l for i, l in enumerate(loads) if l["n"] < 8][::2]
    b_loads = [dict(load(2, n, sg, 5, 0, 9)) for n, sg in kinds]
    from .core import tla
    base = '{%s} \\cup {[op |-> o] : o \\in {"conv", "text", "textnull", "null", "copy", "copynull"}}'
    tr = ctx.model_check("pairs", "ParamConv", {}, (), props, subst={"Ops": base % ", ".join(map(tla, (loads[::2] if ctx.quick else loads) + b_loads))})
    ctx.replay_tours("pairs", exe, tr, F18)
    tr = ctx.model_check("small", "ParamConv", {}, (), props,
                         subst={"Ops": base % ", ".join(map(tla, small[::2] + [{"op": "clone"}, {"op": "clonebuf"}, {"op": "put", "w": 1, "v": [9] * 8}, {"op": "put", "w": 2, "v": [200, 7] * 4}]))})
    ctx.replay_tours("small", exe, tr, F18)
    ctx.replay_tours("small/small build", exe4, tr, F18)
    ctx.replay_tours("small/packed handles", ctx.build("convp", src, defs=["CONV", "GEL_PARAMETER_HANDLE_ATTRIBUTES=__attribute__((packed))"] + UD), tr, F18)
    for k in (1, 2):
        few = [l for l in loads if l["n"] <= k and l["sg"] != 2][::1 if k == 1 else 2] + [load(2, n, sg, 5, 0, 9) for n, sg in kinds if n <= k and sg != 2]
        tr = ctx.model_check("max%d" % k, "ParamConv", {}, (), props, subst={"Ops": base % ", ".join(map(tla, few + [{"op": "clone"}, {"op": "clonebuf"}]))})
        ctx.replay_tours("max%d" % k, ctx.build("conv%d" % k, src, defs=["CONV", "GEL_PARAMETER_MAX_SIZE=%d" % k] + UD), tr, F18)
    hs = []
    for k in range(6 if ctx.quick else 30):
        h = []
        for _ in range(110 if ctx.quick else 400):
            x = rng.random()
            n, sg = rng.choice(kinds)
            b = 8 * n
            if x < 0.45 or not h:
                def val():
                    v = rng.choice(rep(n, sg) + [rng.getrandbits(b), rng.getrandbits(rng.randrange(1, b + 1)), rng.randrange(300)]) % (1 << b)
                    return v - (1 << b) if sg == 1 and v >> (b - 1) else v
                lo, hi = sorted([val(), val()])
                h.append(load(rng.choice([1, 1, 2]), n, sg, val(), lo, hi))
                cur = h[-1]
                if cur["w"] == 1:
                    asg = sg
                    if sg != 2:
                        h.append({"op": "conv"})
                    h.append({"op": "text"})
                elif len(h) == 1:
                    asg = 0
            elif x < 0.6:
                h.append({"op": "copy"})
            elif x < 0.7:
                h.append({"op": rng.choice(["clone", "clonebuf"])})
            elif x < 0.8:
                h.append({"op": "put", "w": rng.choice([1, 2]), "v": [rng.randrange(256) for _ in range(8)]})
                if asg != 2:
                    h.append({"op": "conv"})
                h.append({"op": "text"})
            elif asg != 2:
                h.append({"op": rng.choice(["conv", "null", "copynull"])})
        hs.append(h)
    # all 8 bit values, and a walk over the 16 bit ones
    sweep = []
    for sg in (0, 1):
        for v in range(256):
            sweep += [load(1, 1, sg, v, rng.choice([0, -128 if sg else 1]), rng.choice([127, 100])), {"op": "conv"}, {"op": "text"}]
        for v in range(0, 65536, 331 if ctx.quick else 17):
            sweep += [load(1, 2, sg, v, 0, 32767), {"op": "conv"}, {"op": "text"}]
    ctx.trace_check("random", exe, "ParamConv", hs, F18, {"Ops": "{}"}, (), selftest=True, props=props)
    ctx.trace_check("sweep", exe, "ParamConv", [sweep], F18, {"Ops": "{}"}, (), props=props)
