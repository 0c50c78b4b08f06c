"""C01: ring buffer, sequential; C02 lives in ring.py."""
FIELDS = {"init": ["n"], "badinit": ["how"], "noring": ["bare"], "clear": [], "putc": ["b"], "puts": ["d"], "getc": ["want"],
          "gets": ["len", "want"], "peek": ["len", "want"], "drop": ["len"]}
INVS = ["Bounded", "Indices", "Refines", "FullEmpty"]


def ops_expr(sizes, maxlen):
    return ("{[op |-> \"init\", n |-> x] : x \\in %s} \\cup {[op |-> \"badinit\", how |-> x] : x \\in {0, 1}} \\cup {[op |-> \"noring\", bare |-> x] : x \\in {0, 1}}"
            " \\cup {[op |-> \"clear\"]} \\cup {[op |-> \"putc\", b |-> x] : x \\in {0, 1}}"
            " \\cup {[op |-> \"puts\", d |-> [i \\in 1..n |-> (i * k) %% 2]] : n \\in 0..%d, k \\in {0, 1}}"
            " \\cup {[op |-> \"puts\", d |-> [i \\in 1..n |-> 1]] : n \\in 0..%d}"
            " \\cup {[op |-> \"getc\", want |-> x] : x \\in {0, 1}}"
            " \\cup {[op |-> o, len |-> n, want |-> 1] : o \\in {\"gets\", \"peek\"}, n \\in 0..%d}"
            " \\cup {[op |-> o, len |-> n, want |-> 0] : o \\in {\"gets\", \"peek\"}, n \\in {1, %d}}"
            " \\cup {[op |-> \"drop\", len |-> n] : n \\in 0..%d}"
            % (sizes, maxlen, maxlen, maxlen, maxlen, maxlen))


def history(rng, n, steps, alpha):
    """A random history on a ring of n cells that keeps visiting full, empty and the wrap boundary."""
    ev = [{"op": "init", "n": n}]
    st = 0
    mood = 0
    nxt = rng.randrange(alpha)
    head = tail = 0

    def data(k):
        nonlocal nxt
        out = [(nxt + i) % alpha for i in range(k)]
        nxt = (nxt + k + rng.choice([0, 0, 0, 1])) % alpha
        return out

    for _ in range(steps):
        if rng.random() < 0.08:
            mood = rng.choice([-1, 0, 1])
        free = n - 1 - st
        toend = n - head
        x = rng.random()
        put = x < (0.5 + 0.35 * mood)
        if rng.random() < 0.02:
            if rng.random() < 0.5:
                ev.append({"op": "clear"})
                st = head = tail = 0
            elif rng.random() < 0.2:
                ev.append({"op": "noring", "bare": rng.randrange(2)})
            elif rng.random() < 0.5:
                ev.append({"op": "badinit", "how": rng.choice([0, 1])})
            else:
                n = rng.choice([1, 2, 3, n, n + 1, max(1, n - 1)])
                ev.append({"op": "init", "n": n})
                st = head = tail = 0
            continue
        if put:
            if rng.random() < 0.3:
                ev.append({"op": "putc", "b": data(1)[0]})
                k = min(1, free)
            else:
                k = rng.choice([0, 1, 2, free, free - 1, free + 1, toend, toend - 1, toend + 1,
                                n, n + 1, rng.randrange(n + 2), rng.randrange(n + 2), rng.randrange(4)])
                k = max(0, k)
                ev.append({"op": "puts", "d": data(k)})
                k = min(k, free)
            st += k
            head = (head + k) % n
        else:
            k = rng.choice([0, 1, 2, st, st - 1, st + 1, n - tail, n - tail - 1, n - tail + 1, n - 1, n, n + 1, 2 * n,
                            rng.randrange(n + 2), rng.randrange(n + 2), rng.randrange(4), 1000000, 2147483647])
            k = max(0, k)
            y = rng.random()
            if y < 0.3:
                ev.append({"op": "getc", "want": int(rng.random() < 0.9)})
                k = min(1, st)
            elif y < 0.6:
                ev.append({"op": "gets", "len": k, "want": int(rng.random() < 0.95)})
                k = min(k, st)
            elif y < 0.85:
                ev.append({"op": "peek", "len": k, "want": int(rng.random() < 0.95)})
                k = 0
            else:
                ev.append({"op": "drop", "len": k})
                k = min(k, st)
            st -= k
            tail = (tail + k) % n
    return ev


def c01(ctx):
    exe = ctx.build("cbuf", ["h_cbuf.c", "gel/collections/circular_buffer.c"])
    exe4 = ctx.build("cbuf4", ["h_cbuf.c", "gel/collections/circular_buffer.c"], defs=["GEL_CBUF_TYPE=int32_t"])
    mx = 5 if ctx.quick else 6
    tr = ctx.model_check("small", "CBuf", {"GhostMem": "TRUE"}, INVS, ["ExactlyOnce"],
                         subst={"Ops": ops_expr("1..%d" % (mx - 1), mx + 1)})
    ctx.replay_tours("small", exe, tr, FIELDS)
    ctx.replay_tours("small/int32 elements", exe4, tr, FIELDS)
    rng = ctx.rng("hist")
    hs = []
    for n in [1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 31, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]:
        hs.append(history(rng, n, 60 if ctx.quick else 400, 256))
    for n in [512, 1000, 1024, 4099]:
        hs.append(history(rng, n, 25 if ctx.quick else 80, 256))
    ctx.trace_check("random", exe, "CBuf", hs, FIELDS, {"GhostMem": "FALSE", "Ops": "{}"},
                    ["Bounded", "Indices", "Refines", "FullEmpty"], selftest=True)
    hs = [history(rng, n, 60 if ctx.quick else 400, 2000000000) for n in [2, 5, 16, 33, 64]]
    ctx.trace_check("random/int32 elements", exe4, "CBuf", hs, FIELDS, {"GhostMem": "FALSE", "Ops": "{}"}, INVS)
    # large rings: indices beyond 16 bits
    big_ops = ('{[op |-> "bigring", n |-> x] : x \\in {1, 2, 5}} \\cup {[op |-> "putn", k |-> x] : x \\in 0..6}'
               ' \\cup {[op |-> o, k |-> x, from |-> y] : o \\in {"getn", "peekn", "dropn"}, x \\in 0..5, y \\in 0..12}'
               ' \\cup {[op |-> "walk", k |-> x, from |-> y, m |-> z] : x \\in {0, 1, 7}, y \\in 0..12, z \\in 0..2}')
    tr = ctx.model_check("numbered", "CBufBig", {"Cells": "TRUE", "MaxN": 12}, ["Bounded", "Indices", "Holds"], subst={"Ops": big_ops})
    ctx.replay_tours("numbered", exe, tr, BIG)
    rng = ctx.rng("big")
    hs = [big_history(rng, n, 60 if ctx.quick else 300) for n in [255, 256, 32767, 32768, 65535, 65536, 65537, 70000, 100000, 131072, 131073, 200000] +
          ([1 << 20] if ctx.quick else [1 << 20, 1 << 24, (1 << 24) + 1, 1 << 26])]
    hs += [edge_history(rng, n) for n in ([65539, 100003] if ctx.quick else [131072, 65539, 65538, 66000, 100003, 300])]
    C = {"Cells": "FALSE", "MaxN": 2147483647, "Ops": "{}"}
    ctx.trace_check("large rings", exe, "CBufBig", hs, BIG, C, ["Bounded", "Indices"], selftest=True)
    ctx.trace_check("large rings/int32 elements", exe4, "CBufBig", hs[2:9] + hs[-1:], BIG, C, ["Bounded", "Indices"])


BIG = {"bigring": ["n"], "putn": ["k"], "getn": ["from", "k"], "peekn": ["from", "k"], "dropn": ["from", "k"], "walk": ["from", "k", "m"]}
EDGE = [0, 1, 2, 127, 128, 129, 255, 256, 257, 511, 512, 32767, 32768, 32769, 65535, 65536, 65537]


def edge_history(rng, n):
    """Every call with the read index, the write index, the length and the content at powers of two."""
    ev = [{"op": "bigring", "n": n}]
    acc = got = 0

    def put(k):
        nonlocal acc
        ev.append({"op": "putn", "k": k})
        acc += min(k, n - 1 - (acc - got))

    def take(o, k):
        nonlocal got
        ev.append({"op": o, "from": got, "k": k})
        got += 0 if o == "peekn" else min(k, acc - got)

    def walk(k, m):
        nonlocal acc, got
        ev.append({"op": "walk", "from": got, "k": k, "m": m})
        acc, got = acc + k, got + k
    for t in [x for x in EDGE if x < n]:
        take("dropn", n)                 # empty, both indices at t
        put((t - acc) % n)
        take("dropn", n)
        for o in ("peekn", "getn", "dropn"):
            put(2)                       # tail at t, a little in it; then just as much, more
            take(o, rng.choice([0, 1]))
            take(o, rng.choice([2, n, 2147483647]))
            put((t - acc) % n)           # head at t, much in it
            take(o, rng.choice([1, 3, n]))
            take("dropn", n)
            put((t - acc) % n)
            take("dropn", n)
        walk(3, t % 3)
        put((t - acc - 1) % n)
        put(rng.choice([1, 2, n]))       # up to the edge and past it
        take(rng.choice(["getn", "peekn"]), n)
        take("getn", n)
        if t:
            put(t)                       # lengths and contents of t
            take("peekn", t)
            take("getn", t - 1)
            put(t)
            take(rng.choice(["getn", "dropn"]), t)
            take("getn", 2)
            put(n - 1 - t)
            put(t)
            put(1)
            take("peekn", n)
            take("dropn", t)
    for m in (0, 1, 2):
        walk(n + 5, m)                   # every position
        put(0 if m else n - 2 - (acc - got))
    take("dropn", n)
    walk(7, 0)
    return ev


def big_history(rng, n, steps):
    ev = [{"op": "bigring", "n": n}]
    acc = got = 0
    while steps > 0 and acc < 300 * n and acc < 2000000000:
        steps -= 1
        st, free = acc - got, n - 1 - (acc - got)
        end = lambda i: n - i % n
        if rng.random() < (0.5 if st else 0.9):
            k = max(0, rng.choice([free, free + 1, free - 1, end(acc), end(acc) - 1, end(acc) + 1, rng.randrange(n), rng.randrange(n), 1, n, n + 1, 65536, 65535]))
            ev.append({"op": "putn", "k": k})
            acc += min(k, free)
        else:
            k = max(0, rng.choice([st, st + 1, st - 1, end(got), end(got) - 1, end(got) + 1, rng.randrange(n), rng.randrange(n), 1, 2147483647, 65536, 65537]))
            o = rng.choice(["getn", "getn", "peekn", "dropn"])
            ev.append({"op": o, "from": got, "k": k})
            got += 0 if o == "peekn" else min(k, st)
    return ev
