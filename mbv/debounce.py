"""C09 (debounce filter) and C10 (pulse counter)."""
F9 = {"init": ["d"], "set": ["d", "l"], "filter": ["in"], "hold": ["in", "k"], "single": ["i", "v"], "outside": []}
F10 = {"init": ["d", "type", "l"], "filter": ["in"], "hold": ["in", "k"], "train": ["in", "k"], "clear": ["i"], "outside": []}
BITS = lambda n: "[1..%d -> {0, 1}]" % n


def ops9(n, ds):
    return ('{[op |-> "init", d |-> x] : x \\in %s} \\cup {[op |-> "set", d |-> x, l |-> y] : x \\in %s, y \\in %s}'
            ' \\cup {[op |-> "filter", in |-> y] : y \\in %s} \\cup {[op |-> "single", i |-> x, v |-> y] : x \\in 1..%d, y \\in {0, 1}}'
            ' \\cup {[op |-> "outside"]} \\cup {[op |-> "hold", in |-> y, k |-> z] : y \\in %s, z \\in {0, 2, 3}}' % (ds, ds, BITS(n), BITS(n), n, BITS(n)))


def ops10(n, ds):
    return ('{[op |-> "init", d |-> x, type |-> t, l |-> y] : x \\in %s, t \\in {"high", "low"}, y \\in %s}'
            ' \\cup {[op |-> "filter", in |-> y] : y \\in %s} \\cup {[op |-> "clear", i |-> x] : x \\in 1..%d} \\cup {[op |-> "outside"]}'
            ' \\cup {[op |-> "hold", in |-> y, k |-> z] : y \\in %s, z \\in {0, 2}} \\cup {[op |-> "train", in |-> y, k |-> 1] : y \\in %s}'
            % (ds, BITS(n), BITS(n), n, BITS(n), BITS(n)))


def maps(rng, n, k):
    """Assignments of the 32 physical bits to n model inputs."""
    base = {1: ["0" * 32][:1], 2: ["0" * 31 + "1", "1" + "0" * 31, "01" * 16, "0" * 16 + "1" * 16],
            3: ["012" * 10 + "01", "1" + "0" * 30 + "2", "0" * 15 + "12" + "0" * 15]}[n]
    out = list(base)
    while len(out) < k and n > 1:
        m = "".join(str(rng.randrange(n)) for _ in range(32))
        if len(set(m)) == n:
            out.append(m)
    return out[:max(k, len(base))]


def history(rng, kind, steps, d):
    lv = [rng.randrange(2) for _ in range(32)]
    h = []

    def start():
        if kind == "pulse":
            h.append({"op": "init", "d": d, "type": rng.choice(["high", "low"]), "l": lv[:]})
        else:
            h.append({"op": "init", "d": d})
            if rng.random() < 0.7:
                h.append({"op": "set", "d": d, "l": lv[:]})
    start()
    target = lv[:]
    for _ in range(steps):
        x = rng.random()
        if x < 0.015:
            d = rng.choice([0, 1, 2, 3, 5, d])
            start()
        elif x < 0.04 and kind == "debounce":
            lv = [rng.randrange(2) for _ in range(32)]
            h.append({"op": "set", "d": d, "l": lv[:]})
        elif x < 0.06:
            h.append({"op": "outside"})
        elif x < 0.2 and kind == "debounce":
            h.append({"op": "single", "i": rng.randrange(1, 33), "v": rng.randrange(2)})
        elif x < 0.1 and kind == "pulse":
            h.append({"op": "clear", "i": rng.randrange(1, 33)})
        else:
            if x > 0.9:
                h.append({"op": "hold", "in": [1 - t if rng.random() < 0.3 else t for t in target], "k": rng.choice([0, 1, 2, d, d + 1, d + 2, rng.randrange(2 * d + 4)])})
                continue
            if x > 0.88 and kind == "pulse" and d < 40:
                h.append({"op": "train", "in": [rng.randrange(2) for _ in range(32)], "k": rng.choice([1, 2, 3, 127, 128, 255, 256, 257, rng.randrange(1, 600)])})
                continue
            # inputs hold for runs near d+1 with occasional glitches
            p = 1.0 / (d + 1.3)
            target = [1 - t if rng.random() < p * 0.6 else t for t in target]
            cur = [1 - t if rng.random() < 0.03 else t for t in target]
            h.append({"op": "filter", "in": cur})
    return h


WORDS = [0, 1, 2, 127, 128, 129, 255, 256, 257, 511, 32767, 32768, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) - 2]


def words(rng, kind, d):
    """Levels, samples and changes that are single bits and runs of bits."""
    b = lambda w: [w >> i & 1 for i in range(32)]
    h = []
    for w in WORDS:
        other = b(rng.choice(WORDS))
        h.append({"op": "init", "d": d, "type": rng.choice(["high", "low"]), "l": b(w)} if kind == "pulse" else {"op": "set", "d": d, "l": b(w)})
        h += [{"op": "filter", "in": b(w)}] + [{"op": "filter", "in": other}] * (d + 1) + [{"op": "filter", "in": b(w)}] * (d + 2)
        i = rng.randrange(32)
        h += [{"op": "filter", "in": [x ^ (j == i) for j, x in enumerate(b(w))]}] * (d + 1) + [{"op": "filter", "in": b(w)}] * d
        if kind == "debounce":
            h += [{"op": "single", "i": j + 1, "v": v} for j in (0, 7, 8, 15, 16, 31) for v in (other[j], 1)]
    return ([{"op": "init", "d": d}] if kind == "debounce" else []) + h


def run(ctx, kind):
    F = F9 if kind == "debounce" else F10
    src = ["h_debounce.c", "gel/debounce/debounce.c" if kind == "debounce" else "gel/debounce/pulsecounter.c"]
    exe = ctx.build("deb", src, defs=["PULSE"] if kind == "pulse" else [])
    mk = ops9 if kind == "debounce" else ops10
    props = ["ChangeExactly"] + (["CountExactly"] if kind == "pulse" else [])
    K = '"%s"' % kind
    rng = ctx.rng("maps")
    for n, ds in [(1, "0..9"), (2, ("0..3" if kind == "debounce" else "0..2") if ctx.quick else "0..4")] + ([] if ctx.quick else [(3, "{0, 1, 2}" if kind == "debounce" else "{0, 1}")]):
        q = '[i \\in 1..%d |-> 1]' % n
        re = ('{[op |-> "init", d |-> 1]}' if kind == "debounce" else
              '{[op |-> "init", d |-> 1, type |-> "high", l |-> %s], [op |-> "init", d |-> 2, type |-> "low", l |-> %s]}' % (q, q))
        sub = {"Ops": mk(n, ds), "ReOps": re}
        tr = ctx.model_check("n%d" % n, "DebounceB", {"NI": n, "Kind": K, "MaxCount": 2 if n == 1 else 1}, ["Countdown"], props, subst=sub,
                             spec="SpecB")
        for m in maps(rng, n, (2 if n == 1 else 4) if ctx.quick else 8):
            ctx.replay_tours("n%d map %s" % (n, m), exe, tr, F, args=[str(n), m, "165"])
    rng = ctx.rng("hist")
    hs = [history(rng, kind, 110 if ctx.quick else 700, d) for d in (0, 1, 2, 3, 4, 7, 12)]
    hs += [words(rng, kind, d) for d in (0, 1)]
    # a very large debounce value never lets a change through early
    big = history(rng, kind, 5, 1000000)
    one = {"op": "filter", "in": [1] * 32}
    zero = {"op": "filter", "in": [0] * 32}
    long = [{"op": "init", "d": 60, "type": "low", "l": [0] * 32} if kind == "pulse" else {"op": "init", "d": 60}]
    long += [one] * 61 + [zero] * 60 + [one] + [zero] * 61 + [one] * 60 + [zero] + [one] * 62
    ctx.trace_check("random", exe, "Debounce", hs + [big, long], F, {"NI": 32, "Kind": K, "Ops": "{}"}, ["Countdown"],
                    args=["32", "-", "165"], selftest=True, props=props)
    # debounce values up to 2^20 and counts beyond 2^16
    hs = []
    bits = lambda: [rng.randrange(2) for _ in range(32)]
    for d in (63, 64, 127, 128, 129, 255, 256, 257, 511, 32767, 32768, 65535, 65536, 1 << 20):
        h = [{"op": "init", "d": d, "type": rng.choice(["high", "low"]), "l": bits()} if kind == "pulse" else {"op": "init", "d": d}]
        for _ in range(6 if ctx.quick else 25):
            m = bits()
            h += [{"op": "hold", "in": m, "k": k} for k in rng.choice([(d, 1), (d + 1,), (d - 1, 1, 1), (d, ), (1, d), (rng.randrange(d + 2), rng.randrange(d + 2))])]
            if rng.random() < 0.5:
                h.append({"op": "filter", "in": rng.choice([m, [1 - x for x in m], bits()])})
        hs.append(h)
    if kind == "pulse":
        for d, ty, k in [(0, "high", 300), (0, "low", 300), (1, "high", 70000), (0, "low", 66000), (2, "low", 33000)] + ([] if ctx.quick else [(0, "high", 1 << 24), (0, "low", 1 << 24)]):
            h = [{"op": "init", "d": d, "type": ty, "l": bits()}]
            for t in (k, 255, 1, 256, rng.randrange(1, 1000)):
                m = bits()
                h.append({"op": "train", "in": m, "k": t})
                for _ in range(6):
                    h.append({"op": "filter", "in": m if rng.random() < 0.6 else bits()})
            hs.append(h)
        h = [{"op": "init", "d": 0, "type": "high", "l": [0] * 32}]
        for _ in range(300):
            h += [{"op": "filter", "in": [1] + [0] * 31}, {"op": "filter", "in": [0] * 32}]
        hs.append(h)
    ctx.trace_check("large", exe, "Debounce", hs, F, {"NI": 32, "Kind": K, "Ops": "{}"}, ["Countdown"], args=["32", "-", "165"], props=props)
    ctx.trace_check("random/zeroed memory", exe, "Debounce", [history(rng, kind, 60, 2)], F, {"NI": 32, "Kind": K, "Ops": "{}"},
                    ["Countdown"], args=["32", "-", "0"], props=props)


def c09(ctx):
    run(ctx, "debounce")


def c10(ctx):
    run(ctx, "pulse")
