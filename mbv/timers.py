"""C12 time comparison, C13 stopwatch, C14 software timer."""
H63 = (1 << 63) - 1
# configurations with narrower timestamps (results are unsigned long, the time itself wraps at the type's width)
NARROW = [("uint", 32, ["GEL_CUSTOM_TIMESTAMP_TYPE=unsigned int"]), ("ushort", 16, ["GEL_CUSTOM_TIMESTAMP_TYPE=unsigned short", "GEL_IGNORE_TIME_TYPECHECK"])]
EDGES = [1, 2, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 24, (1 << 28) - 1]
BASES = [0, 1 << 63, (1 << 63) - 5, (1 << 64) - 7, (1 << 64) - 1, 123456789012345678, 0xFFFFFFFE, 0x7FFFFFF0]



def c12(ctx):
    F = {"cmp": ["a", "d"], "exp": ["a", "w", "d"]}
    ctx.assumptions += ["timestamp types: unsigned long (default), unsigned int, unsigned short, unsigned long long"]
    types = [("ulong", [], 64), ("ulong_nocheck", ["GEL_IGNORE_TIME_TYPECHECK"], 64),
             ("uint", ["GEL_CUSTOM_TIMESTAMP_TYPE=unsigned int"], 32),
             ("ullong", ["GEL_CUSTOM_TIMESTAMP_TYPE=unsigned long long"], 64),
             ("ushort", ["GEL_CUSTOM_TIMESTAMP_TYPE=unsigned short", "GEL_IGNORE_TIME_TYPECHECK"], 16)]
    rng = ctx.rng("t")
    trs = {}
    for r in (16, 4) if ctx.quick else (16, 4, 32, 64):
        h = r // 2
        ops = ('{[op |-> "cmp", a |-> x, d |-> y] : x \\in 0..%d, y \\in %d..%d} \\cup '
               '{[op |-> "exp", a |-> x, w |-> z, d |-> y] : x \\in 0..%d, y \\in %d..%d, z \\in 0..%d}'
               % (r - 1, 1 - h, h - 1, (r - 1) if r <= 16 else 7, 1 - h, h - 1, h - 1))
        trs[r] = ctx.model_check("r%d" % r, "TimeCmp", {"R": r}, (), (), subst={"Ops": ops})
    for name, defs, bits in types:
        exe = ctx.build("cmp_" + name, ["h_time.c"], defs=["CMP"] + defs)
        half = (1 << (bits - 1)) - 1
        for r, tr in trs.items():
            h = r // 2 - 1
            units = [(1 << bits) // r, half // h, 1, half // h - 1, (1 << (bits // 2)) + 1 if bits // 2 + 5 < bits - 1 else 3]
            if ctx.quick and r == 16:
                units = units[:3]
            for i, u in enumerate(units):
                b = (BASES + [rng.getrandbits(64)])[(i * 3 + r) % 9] if i else 0
                ctx.replay_tours("%s R=%d unit %d base %d" % (name, r, u, b), exe, tr, F, args=[str(u), str(b % (1 << bits))])
        # random distances at every scale
        for u in ([1, 1 << (bits // 2 - 1), (1 << (bits // 2 - 1)) + 1, 3] if bits > 16 else [1]):
            lim = min(half // u, (1 << 29) - 1)
            ev = []
            for _ in range(150 if ctx.quick else 1500):
                mag = lambda: min(lim, rng.choice([rng.randrange(lim + 1), rng.getrandbits(rng.randrange(1, 30)), lim, lim - 1, 0, 1]))
                d = rng.choice([1, -1]) * mag()
                a = rng.getrandbits(29)
                ev.append({"op": "cmp", "a": a, "d": d} if rng.random() < 0.5 else {"op": "exp", "a": a, "w": mag(), "d": d})
            ctx.trace_check("%s unit %d" % (name, u), exe, "TimeCmp", [ev], F, {"R": 1 << 30, "Ops": "{}"}, args=[str(u), str(rng.getrandbits(bits))],
                            selftest=u == 1 and name == "ulong")
        # starts, delays and distances at powers of two
        edge = sorted({(1 << k) + d for k in range(29) for d in (-1, 0, 1)})
        for u, base in [(1, 0)] + ([(1 << (bits - 30), (1 << bits) - 1), (1 << (bits // 2), 0)] if bits > 30 else []):
            lim, ev = min(half // u, (1 << 29) - 1), []
            es = [x for x in edge if x <= lim]
            for k, a in enumerate(es):
                for d in (0, 1, -1, es[-1 - k], -es[-1 - k], es[(k * 7 + 3) % len(es)]):
                    ev.append({"op": "cmp", "a": a, "d": d})
                for w, d in ((a, 0), (0, 0), (1, -1), (es[-1 - k], 0), (es[-1 - k], 1), (es[(k * 5 + 1) % len(es)], -1)):
                    ev += [{"op": "exp", "a": a, "w": w, "d": d}, {"op": "exp", "a": 0 if u == 1 else 1, "w": w, "d": d}][:1 if k % 2 else 2]
                ev.append({"op": "exp", "a": max(0, a - es[k // 2]), "w": es[k // 2], "d": 0})
            ctx.trace_check("%s powers of two unit %d" % (name, u), exe, "TimeCmp", [ev], F, {"R": 1 << 30, "Ops": "{}"}, args=[str(u), str(base)], chunk=2000)


def c13(ctx):
    F = dict({k: ["dt"] for k in ("start", "stop", "pause", "restart", "query")}, **{k: ["dt", "p"] for k in ("change", "set", "sete", "setngo")})
    exe = ctx.build("sw", ["h_time.c", "gel/timer/stopwatch.c"], defs=["SW"])
    narrow = {n: ctx.build("sw_" + n, ["h_time.c", "gel/timer/stopwatch.c"], defs=["SW"] + d) for n, _, d in NARROW}
    ctx.assumptions += ["every total, period and elapsed time stays below half the timestamp range"]
    invs, props = ["Bounds"], ["Frozen", "Monotone", "Refused"]
    rng = ctx.rng("h")
    for r, dts, ps in [(16, "{0, 1, 2, 7}", "{0, 1, 3, 7}"), (8, "0..3", "0..3")] + ([] if ctx.quick else [(32, "{0, 1, 2, 5, 15}", "{0, 1, 4, 15}"), (16, "0..7", "0..7")]):
        ops = ('{[op |-> o, dt |-> x] : o \\in {"start", "stop", "pause", "restart", "query"}, x \\in %s} \\cup '
               '{[op |-> o, dt |-> x, p |-> y] : o \\in {"change", "set", "sete", "setngo"}, x \\in %s, y \\in %s}' % (dts, dts, ps))
        tr = ctx.model_check("r%d" % r, "Stopwatch", {"R": r, "Totals": "{}"}, invs, props, subst={"Ops": ops})
        for u, b in [((1 << 64) // r, 0), (1, (1 << 64) - 3), ((1 << 64) // r, (1 << 64) - 1), (H63 // (r // 2 - 1), 77), (4294967297, 5)][:2 if ctx.quick and r == 16 else 5]:
            ctx.replay_tours("R=%d unit %d base %d" % (r, u, b), exe, tr, F, args=[str(u), str(b)])
        for name, bits, _ in NARROW:
            for u, b in [((1 << bits) // r, (r == 8) * -1 % (1 << bits)), (1, (1 << bits) - 3), (((1 << (bits - 1)) - 1) // (r // 2 - 1), 77)][r == 16:]:
                ctx.replay_tours("R=%d %s unit %d base %d" % (r, name, u, b), narrow[name], tr, F, args=[str(u), str(b)])
    for name, bits, _ in NARROW:
        lim = (1 << (bits - 1)) - 1
        for u in (1, 5):
            hs = [sw_history(rng, 80 if ctx.quick else 300, F, rng.choice([3, 50, 3000]), lim // u) for _ in range(2 if ctx.quick else 10)]
            ctx.trace_check("%s unit %d" % (name, u), narrow[name], "Stopwatch", hs, F, {"R": (lim // u + 1) * 2 if lim // u < 1 << 29 else 1 << 30, "Totals": "{}", "Ops": "{}"}, invs,
                            args=[str(u), str(rng.getrandbits(bits))], props=props)
    for u, b in [(1, (1 << 64) - 5000), (1, (1 << 32) - 3000), (1 << 33, 5), (4294967297, (1 << 63) - 9), (17179869184, (1 << 64) - 1), (1000, H63 - 100)]:
        hs = []
        for k in range(3 if ctx.quick else 20):
            hs.append(sw_history(rng, 80 if ctx.quick else 300, F, rng.choice([3, 50, 3000, 1 << 20])))
        ctx.trace_check("unit %d base %d" % (u, b), exe, "Stopwatch", hs, F, {"R": 1 << 30, "Totals": "{}", "Ops": "{}"}, invs, args=[str(u), str(b)],
                        selftest=u == 1000, props=props)
    # every call at a time, and with a period, at a power of two
    def at(op, t, x):
        return dict({"op": op, "dt": t}, **({"p": x} if "p" in F[op] else {}))
    for name, ex in [("", exe)] + sorted(narrow.items()):
        es = [e for e in EDGES if not name or e < 1 << (dict((n, b) for n, b, _ in NARROW)[name] - 2)]
        hs = []
        for k, t in enumerate(es):
            x = es[-1 - k]
            for op in F:
                if op != "sete":
                    hs.append([at(op, t, x), at("query", 0, 0), at("query", 1, 0), at("pause", 0, 0), at("start", x // 2, 0), at("query", 1, 0)])
                hs.append([at("setngo", 0, t), at("query", t - 1, 0), at("query", 1, 0), at(op, 0, x), at("query", 1, 0), at("pause", 1, 0), at("stop", 0, 0)])
                hs.append([at("set", 0, x), at("sete", 0, t), at("query", 0, 0), at("start", 2, 0), at(op, t, x), at("query", 0, 0)])
        ctx.trace_check(("powers of two " + name).strip(), ex, "Stopwatch", hs, F, {"R": 1 << 30, "Totals": "{}", "Ops": "{}"}, invs, args=["1", "0"], props=props, chunk=3000)


def sw_history(rng, n, F, scale, lim=(1 << 29) - 1):
    """Totals stay below 2^29 units: the elapsed time is tracked conservatively."""
    h, acc, total, st = [], 0, 0, "stopped"
    lim = min(lim, (1 << 29) - 1)
    scale = min(scale, lim)
    for _ in range(n):
        op = rng.choice(["start", "start", "pause", "pause", "stop", "restart", "query", "query", "query", "query", "change", "set", "set", "sete", "setngo"])
        cand = [0, 1, total - acc, total - acc - 1, total - acc + 1, rng.randrange(scale + 1)]
        dt = max(0, rng.choice(cand))
        if st == "counting" and acc + dt > lim or dt > lim:
            op, dt = "stop", 0
        if st == "counting":
            acc += dt
        e = {"op": op, "dt": dt}
        if "p" in F[op]:
            e["p"] = max(0, rng.choice([0, 1, scale, rng.randrange(scale + 1), acc, total]))
            if op == "sete":
                e["p"] = rng.choice([e["p"], max(0, total - 1), total, min(lim, total + 1)])
        h.append(e)
        if op in ("start", "setngo"):
            total = e["p"] if op == "setngo" and st == "stopped" else total
            st = "counting"
        elif op == "pause":
            st = "paused" if st == "counting" else st
        elif op == "stop":
            st, acc = "stopped", 0
        elif op in ("restart", "change"):
            st, acc = "counting", 0
            total = e.get("p", total)
        elif op == "set" and st == "stopped":
            total = e["p"]
        elif op == "sete" and st == "stopped":
            acc = e["p"]
    return h


def c14(ctx):
    F = dict({k: ["dt"] for k in ("stop", "pause", "resume", "rst")}, init=["dt", "p"], change=["dt", "p"], auto=["dt", "v"], poll=["dt", "act", "p"])
    ctx.probe("GEL_TIMER_NULL can be used", "#include <stdlib.h>\n#include \"gel/timer/timer.h\"\ngel_timer_t f(void) { gel_timer_t t = GEL_TIMER_NULL; return t; }\n")
    exe = ctx.build("tm", ["h_time.c", "gel/timer/timer.c", "gel/timer/stopwatch.c"], defs=["TM"])
    narrow = {n: ctx.build("tm_" + n, ["h_time.c", "gel/timer/timer.c", "gel/timer/stopwatch.c"], defs=["TM"] + d) for n, _, d in NARROW}
    invs, props = ["StoppedIsZero"], ["OnceOnly", "NeverStopped", "Periodic"]
    ctx.assumptions += ["every total and period stays below half the timestamp range"]
    rng = ctx.rng("h")
    for h, dts, ps, acts in [(8, "{0, 1, 3}", "{0, 1, 3}", '{"none", "auto0", "auto1", "change"}'), (8, "{0, 2, 7}", "{2, 7}", '{"none"}')] + \
            ([] if ctx.quick else [(12, "{0, 1, 2, 5, 11}", "{0, 1, 4, 11}", '{"none", "auto0", "auto1", "change"}')]):
        ops = ('{[op |-> o, dt |-> x] : o \\in {"stop", "pause", "resume", "rst"}, x \\in %s} \\cup '
               '{[op |-> o, dt |-> x, p |-> y] : o \\in {"init", "change"}, x \\in %s, y \\in %s} \\cup '
               '{[op |-> "auto", dt |-> x, v |-> y] : x \\in {0, 1}, y \\in {0, 1}} \\cup '
               '{[op |-> "poll", dt |-> x, act |-> a, p |-> y] : x \\in %s, a \\in %s, y \\in {1, 2}}' % (dts, dts, ps, dts, acts))
        tr = ctx.model_check("h%d%s" % (h, len(acts)), "Timer", {"H": h}, invs, props, subst={"Ops": ops})
        for u, b in [((1 << 63) // h, 0), (1, (1 << 64) - 3), ((1 << 63) // h, (1 << 64) - 1), (H63 // (h - 1), 77), (4294967297, 5)][:5 if acts != '{"none"}' or not ctx.quick else 3]:
            ctx.replay_tours("h%d unit %d base %d" % (h, u, b), exe, tr, F, args=[str(u), str(b)])
        for name, bits, _ in NARROW:
            for u, b in [((1 << (bits - 1)) // h, 0), ((1 << (bits - 1)) // h, (1 << bits) - 1), (1, (1 << bits) - 3)]:
                ctx.replay_tours("h%d %s unit %d base %d" % (h, name, u, b), narrow[name], tr, F, args=[str(u), str(b)])
    for name, bits, _ in NARROW:
        lim = (1 << (bits - 1)) - 1
        for u in (1, 5):
            hs = [tm_history(rng, 80 if ctx.quick else 300, rng.choice([3, 50, 3000]), lim // u) for _ in range(2 if ctx.quick else 10)]
            ctx.trace_check("%s unit %d" % (name, u), narrow[name], "Timer", hs, F, {"H": min(lim // u + 1, 1 << 29), "Ops": "{}"}, invs,
                            args=[str(u), str(rng.getrandbits(bits))], props=props)
    for u, b in [(1, (1 << 64) - 5000), (1 << 33, 5), (4294967297, (1 << 63) - 9), (17179869184, (1 << 64) - 1), (1000, H63 - 100)]:
        hs = [tm_history(rng, 80 if ctx.quick else 300, rng.choice([3, 50, 3000, 1 << 20])) for _ in range(3 if ctx.quick else 20)]
        ctx.trace_check("unit %d base %d" % (u, b), exe, "Timer", hs, F, {"H": 1 << 29, "Ops": "{}"}, invs, args=[str(u), str(b)],
                        selftest=u == 1000, props=props)
    def at(op, t, x, act="none"):
        return dict({"op": op, "dt": t}, **{f: {"p": x, "v": x % 2, "act": act}[f] for f in F[op] if f != "dt"})
    for name, ex in [("", exe)] + sorted(narrow.items()):
        es = [e for e in EDGES if not name or e < 1 << (dict((n, b) for n, b, _ in NARROW)[name] - 3)]
        hs = []
        for k, t in enumerate(es):
            x = es[-1 - k]
            hs.append([at("init", t, x), at("poll", x - 1, 1), at("poll", 1, 1), at("poll", 0, 1)])
            for op in F:
                hs.append([at("init", 0, t), at("auto", 0, 1 << k % 8), at("poll", t - 1, 1), at(op, 1, x), at("poll", 0, x, "change" if k % 2 else "none"), at("poll", x, 1), at("poll", 0, 1)])
                hs.append([at("init", 0, x), at("pause", min(t, x) - 1, 0), at("poll", 1, 1), at("resume", t // 2, 0), at(op, 1, t), at("poll", t, 1), at("poll", 0, 1)])
        ctx.trace_check(("powers of two " + name).strip(), ex, "Timer", hs, F, {"H": 1 << 29, "Ops": "{}"}, invs, args=["1", "0"], props=props, chunk=3000)


def tm_history(rng, n, scale, lim=(1 << 29) - 1):
    h, acc, total, st = [], 0, 0, "stopped"
    auto = 0
    lim = min(lim, (1 << 29) - 1)
    scale = min(scale, lim)
    for i in range(n):
        op = rng.choice(["poll"] * 8 + ["pause", "resume", "resume", "stop", "rst", "auto", "change", "init"]) if i else "init"
        dt = max(0, rng.choice([0, 1, total - acc, total - acc, total - acc - 1, total - acc + 1, rng.randrange(scale + 1)]))
        if dt > lim or (st == "counting" and acc + dt > lim):
            op, dt = "stop", 0
        if st == "counting":
            acc += dt
        e = {"op": op, "dt": dt}
        p = rng.choice([0, 1, scale, rng.randrange(scale + 1), rng.randrange(scale + 1)])
        if op == "init":
            e["p"] = p
            st, acc, total, auto = "counting", 0, p, 0
        elif op == "change":
            e["p"] = p
            acc = 0
            total = p if st != "stopped" else total
        elif op == "auto":
            e["v"] = auto = rng.choice([0, 0, 0, 1, 1, 2, 128, 255])
        elif op == "poll":
            e["act"] = rng.choice(["none"] * 6 + ["auto0", "auto1", "change"])
            e["p"] = p
            if st != "stopped" and acc >= total:
                acc = 0
                auto = {"auto0": 0, "auto1": 1}.get(e["act"], auto)
                total = p if e["act"] == "change" else total
                st = "counting" if auto else "stopped"
        elif op == "stop":
            st, acc = "stopped", 0
        elif op == "pause":
            st = "paused" if st == "counting" else st
        elif op == "resume":
            st = "counting"
        elif op == "rst":
            acc = 0
        h.append(e)
    return h
