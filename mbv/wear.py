"""C07 and C08: wear levelling."""
FIELDS = {"virgin": ["b", "m"], "init": ["err", "bad"], "power": [], "read": ["len", "err"],
          "write": ["v", "rerr", "fault", "werr"],
          "boot": [], "readl": ["n"], "writel": ["d", "fault"]}
SRC = ["h_wear.c", "gel/wearleveling/wearleveling.c"]


def ops(blocks, m, vals, faults=True):
    f = '{"none", "fail0", "failt", "before", "mid", "after"}' if faults else '{"none", "after"}'
    return ('{[op |-> "virgin", b |-> x, m |-> %d] : x \\in %s} \\cup {[op |-> "init", err |-> x, bad |-> -1] : x \\in {0, -5, 256}}'
            ' \\cup {[op |-> "power"]} \\cup {[op |-> "read", len |-> 100000, err |-> x] : x \\in {0, -6, 65536}}'
            ' \\cup {[op |-> "write", v |-> x, rerr |-> 0, fault |-> y, werr |-> -256] : x \\in %s, y \\in %s}'
            ' \\cup {[op |-> "write", v |-> x, rerr |-> -8, fault |-> "none", werr |-> 0] : x \\in %s}'
            % (m, blocks, vals, f, vals))


def history(rng, b, m0, steps, pfault, bs, whole=False):
    """Writes with restarts; the number of writes is enough to wrap the markers when steps > 256."""
    ev = [{"op": "virgin", "b": b, "m": m0}, {"op": "init", "err": 0, "bad": -1}]
    ready = True
    v = 0
    for _ in range(steps):
        if not ready:
            x = rng.random()
            if x < 0.1 and pfault:
                ev.append({"op": "init", "err": rng.choice([-1, 1, 5, 77, 256, -256, 65536]), "bad": -1})
            else:
                ev.append({"op": "init", "err": 0, "bad": -1})
                ready = True
                ev.append({"op": "read", "len": bs, "err": 0})
            continue
        x = rng.random()
        if x < 0.7:
            v = rng.choice([v, (v + 1) % 500, (v + 1) % 500, (v + 1) % 500, rng.randrange(500)])
            fault, werr, rerr = "none", 0, 0
            if rng.random() < pfault:
                fault = rng.choice(["fail0", "failt", "before", "mid", "after", "after", "none"])
                werr = rng.choice([-1, 1, 9, -200, 256, -65536])
                if fault == "none":
                    rerr = rng.choice([-2, 4, 512])
            ev.append({"op": "write", "v": v, "rerr": rerr, "fault": fault, "werr": werr})
            if fault in ("before", "mid", "after"):
                ev.append({"op": "power"})
                ready = False
        elif x < 0.85:
            ev.append({"op": "read", "len": bs if whole else rng.choice([bs, bs, bs, max(2, bs // 2)]),
                       "err": rng.choice([0, 0, 0, 0, 0, 0, -3, 6, 256]) if pfault else 0})
        else:
            ev.append({"op": "power"})
            ready = False
    return ev


def every_position(b, m0, rounds):
    """Restart with the active block at every position, over marker wraps."""
    ev = [{"op": "virgin", "b": b, "m": m0}, {"op": "init", "err": 0, "bad": -1}]
    for i in range(rounds):
        ev += [{"op": "write", "v": 1 + i % 400, "rerr": 0, "fault": "none", "werr": 0}, {"op": "init", "err": 0, "bad": -1},
               {"op": "read", "len": 1000, "err": 0}]
    return ev


BIG = [(6000, 5998), (70000, 69998), (600, 510)]
BIG2 = [(300, 254), (1100, 1022), (5000, 4096), (40000, 32768), (70000, 65535), (140000, 139998)]
INV7 = ["NoLoss", "ReadsRight", "InSync", "NotTorn"]


def lengths(ctx, exe, proj):
    """Writes and reads of any length up to the block's."""
    mode = "0" if proj == "data" else "1"
    inv, props = ["ReadsRight", "NoLoss", "InSync"], ["OneWrite"]
    seqs = "{<<0>>, <<1>>} \\cup {<<x, y>> : x, y \\in 0..1}"
    flt = '{"none", "fail0", "before", "after"}'
    o = ('{[op |-> "virgin", b |-> x, m |-> 254] : x \\in %s} \\cup {[op |-> "boot"]} \\cup {[op |-> "readl", n |-> x] : x \\in {1, 2}}'
         ' \\cup {[op |-> "writel", d |-> x, fault |-> y] : x \\in %s, y \\in %s}')
    tr = ctx.model_check("lengths", "WearLen", {"Mod": 256, "Size": 2, "Proj": '"%s"' % proj}, inv, props,
                         subst={"Ops": o % ("{2, 3}" if ctx.quick else "{1, 2, 3, 4}", seqs, flt)})
    ctx.replay_tours("lengths", exe, tr, FIELDS, args=[mode, "2", "3"])
    if not ctx.quick:
        tr = ctx.model_check("lengths3", "WearLen", {"Mod": 256, "Size": 3, "Proj": '"%s"' % proj}, inv, props,
                             subst={"Ops": (o % ("{2}", seqs + " \\cup {<<x, y, z>> : x, y, z \\in 0..1}", flt)).replace("{1, 2}}'", "1..3}'")})
        ctx.replay_tours("lengths3", exe, tr, FIELDS, args=[mode, "3", "3"])
    rng = ctx.rng("lengths")
    for size in (9, 40, 300) if ctx.quick else (5, 9, 17, 40, 130, 300, 600):
        hs = [lengths_history(rng, b, size, (60 if ctx.quick else 300) if size < 100 else 25) for b in (2, 3, 8, 255 if size == 9 else 17)]
        ctx.trace_check("lengths up to %d" % size, exe, "WearLen", hs, FIELDS, {"Mod": 256, "Size": size, "Proj": '"%s"' % proj, "Ops": "{}"},
                        inv, args=[mode, str(size), "3"], props=props)


def lengths_history(rng, b, size, steps):
    ev = [{"op": "virgin", "b": b, "m": rng.choice([0, 77, 250, 255])}, {"op": "boot"}]
    cur = [0] * size
    for _ in range(steps):
        x = rng.random()
        n = rng.choice([1, 2, 3, 4, 5, 8, size - 1, size, size, rng.randint(1, size)])
        n = max(1, min(n, size))
        if x < 0.25:
            ev.append({"op": "readl", "n": n})
        elif x < 0.32:
            ev.append({"op": "boot"})
        else:
            d = cur[:n]
            k = rng.randrange(5)
            if k == 0:
                d = [rng.randrange(256) for _ in d]
            elif k < 4:     # one byte differs, at an end or anywhere
                i = rng.choice([0, n - 1, n - 1, rng.randrange(n)])
                d[i] = d[i] ^ (1 << rng.randrange(8))
            fault = rng.choice(["none"] * 8 + ["fail0", "before", "after"])
            ev.append({"op": "writel", "d": d, "fault": fault})
            if fault in ("before", "after"):
                ev.append({"op": "boot"})
            if fault in ("none", "after"):
                cur[:n] = d      # only what the history aims at: the rest of the block is stale
    return ev


def c07(ctx):
    ctx.probe("the initialisation reports storage errors",
              "#include \"gel/wearleveling/wearleveling.h\"\nint f(wear_leveled_memory_t *w, wl_read_block_t r, wl_write_block_t x, wl_read_marker_t m) { int e = wearleveling_init(w, r, x, m, 2); return e; }\n")
    exe = ctx.build("wear", SRC)
    C = {"Mod": 256, "Proj": '"data"'}
    ctx.assumptions += ["block writes store the marker last; a block write that reports failure did not store the marker",
                        "storage initially carries equal markers"]
    tr = ctx.model_check("faults", "Wear", C, INV7, ["OnlyWrites"],
                         subst={"Ops": ops("{2, 3}" if ctx.quick else "{2, 3, 4}", 254, "{1, 2}")})
    for bs, style in (("4", "0"), ("32", "1"), ("1000", "0"), ("40", "-1")):
        ctx.replay_tours("faults/%s-byte blocks/style %s" % (bs, style), exe, tr, FIELDS, args=["0", bs, style])
    rng = ctx.rng("hist")
    tc = dict(C, Ops="{}")
    hs = []
    for b in [2, 3, 4, 7, 16, 64, 128, 200, 254, 255]:
        hs.append(history(rng, b, rng.choice([0, 1, 255, 254, 128, 200]), 60 if ctx.quick else 700, 0.25, 8))
    ctx.trace_check("faults", exe, "Wear", hs, FIELDS, tc, INV7, args=["0", "8"], selftest=True)
    # other block sizes; data that differ only behind zero bytes
    for bs in ((12, 66, 300) if ctx.quick else (4, 8, 12, 16, 64, 66, 130, 256, 258, 300, 1024, 4096)):
        hs = [history(rng, b, rng.choice([0, 255, 254, 128]), 30 if ctx.quick else 150, 0.2, bs) for b in (2, 3, 17)]
        ctx.trace_check("faults/%d-byte blocks" % bs, exe, "Wear", hs, FIELDS, tc, INV7, args=["0", str(bs), "1"])
    # data whose bytes (or words) all have the same sum
    for bs, style in ((40, -1), (200, -2), (1200, -2)):
        hs = [history(rng, b, rng.choice([0, 255, 254, 128]), 40 if ctx.quick else 150, 0.1, bs, True) for b in (2, 5)]
        ctx.trace_check("permuted data/%d-byte blocks" % bs, exe, "Wear", hs, FIELDS, tc, INV7, args=["0", str(bs), str(style)])
    # large blocks that differ in one place only
    for bs, pos in BIG if ctx.quick else BIG + BIG2:
        hs = [history(rng, b, rng.choice([0, 255, 254, 128]), 20 if ctx.quick else 60, 0.1, bs, True) for b in (2, 5)]
        ctx.trace_check("%d-byte blocks differing at %d" % (bs, pos), exe, "Wear", hs, FIELDS, tc, INV7, args=["0", str(bs), str(pos)])
    hs = [every_position(2, 250, 20), every_position(3, 0, 300), every_position(5, 77, 30), every_position(37, 250, 120),
          every_position(128, 255, 140), every_position(255, 3, 270), every_position(254, 0, 260)]
    if not ctx.quick:
        hs += [every_position(b, (b * 37) % 256, 530) for b in (2, 4, 8, 15, 100, 127, 129, 253, 254, 255)]
    ctx.trace_check("every position", exe, "Wear", hs, FIELDS, tc, INV7, args=["0", "4"])
    # an unreadable marker: reported, and never a wrong block if init nevertheless succeeds
    hs = []
    for b in (2, 3, 8, 100):
        h = [{"op": "virgin", "b": b, "m": 9}]
        for i in range(2 * b if b < 50 else b + 3):
            h.append({"op": "init", "err": 0, "bad": -1})
            h.append({"op": "write", "v": 1 + i % 300, "rerr": 0, "fault": "none", "werr": 0})
            for k in sorted({0, i % b, (i + 1) % b, (i + 2) % b, b - 1}):
                h.append({"op": "init", "err": rng.choice([-44, 1, 256, -1]), "bad": k})
        hs.append(h)
    ctx.trace_check("unreadable marker", exe, "Wear", hs, FIELDS, tc, INV7, args=["0", "4"])
    lengths(ctx, exe, "data")


def c08(ctx):
    exe = ctx.build("wear", SRC)
    inv = ["Even", "InSync"]
    ctx.assumptions += ["storage initially carries equal markers", "wear evenness is claimed for histories without storage faults"]
    tr = ctx.model_check("wear", "Wear", {"Mod": 256, "Proj": '"wear"'}, inv, ["RoundRobin", "OnlyWrites"],
                         subst={"Ops": ops("{2, 3}" if ctx.quick else "{1, 2, 3, 4}", 254, "{1, 2}")})
    for bs, style in (("4", "1"), ("300", "0"), ("1000", "1"), ("40", "-1")):
        ctx.replay_tours("wear/%s-byte blocks/style %s" % (bs, style), exe, tr, FIELDS, args=["1", bs, style])
    tr = ctx.model_check("wear_nofault", "Wear", {"Mod": 256, "Proj": '"wear"'}, inv, ["RoundRobin", "OnlyWrites"],
                         subst={"Ops": ops("{1, 4}" if ctx.quick else "{1, 4, 5}", 255, "{1, 2}", faults=False)})
    ctx.replay_tours("wear_nofault", exe, tr, FIELDS, args=["1", "8"])
    rng = ctx.rng("hist")
    tc = {"Mod": 256, "Proj": '"wearabs"', "Ops": "{}"}
    hs = []
    for b in [1, 2, 3, 5, 16, 64, 128, 254, 255]:
        hs.append(history(rng, b, rng.choice([0, 1, 255, 254, 128]), 60 if ctx.quick else 700, 0, 8))
        if b > 1:
            hs.append(history(rng, b, rng.choice([0, 1, 255, 254, 128]), 50 if ctx.quick else 500, 0.2, 8))
    hs += [every_position(1, 250, 12), every_position(3, 7, 30), every_position(128, 200, 140), every_position(255, 3, 270)]
    ctx.trace_check("wear", exe, "Wear", hs, FIELDS, tc, inv, args=["2", "8"], selftest=True, props=["RoundRobin"])
    for bs, style in ((40, -1), (200, -2)):
        hs = [history(rng, b, rng.choice([0, 255, 254, 128]), 40 if ctx.quick else 150, 0, bs, True) for b in (2, 5)]
        ctx.trace_check("permuted data/%d-byte blocks" % bs, exe, "Wear", hs, FIELDS, tc, inv, args=["2", str(bs), str(style)], props=["RoundRobin"])
    for bs, pos in BIG if ctx.quick else BIG + BIG2:
        hs = [history(rng, b, rng.choice([0, 255, 254, 128]), 20 if ctx.quick else 60, 0, bs, True) for b in (2, 5)]
        ctx.trace_check("%d-byte blocks differing at %d" % (bs, pos), exe, "Wear", hs, FIELDS, tc, inv, args=["2", str(bs), str(pos)], props=["RoundRobin"])
    lengths(ctx, exe, "wear")
