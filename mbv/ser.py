"""C23: serialiser."""
F = {"put": ["w", "at", "o", "m", "v"], "get": ["at", "w", "o", "s", "m"], "raw": ["at", "b"], "sweep": ["k", "h", "o"]}


def w(e):
    return dict(e, w=len(e["v"])) if e["op"] == "put" else e


def c23(ctx):
    props = ["RoundTrip", "OtherOrder", "NoOther"]
    rng = ctx.rng("s")
    exe = {}
    for size in (3, 8, 16):
        for opt in ("-O1", "-O2"):
            exe[size, opt] = ctx.build("ser_%d%s" % (size, opt), ["h_ser.c"], defs=["SIZE=%d" % size], flags=[opt])
    vals = "{<<5>>, <<200>>} \\cup {<<a, b>> : a \\in {1, 254}, b \\in {0, 129}}"
    ops = '{[op |-> "put", at |-> a, o |-> o, m |-> m, v |-> v] : a \\in 0..2, o \\in {"le", "be"}, m \\in {"f", "m"}, v \\in %s}' % vals
    ops += ' \\cup {[op |-> "get", at |-> a, w |-> w, o |-> o, s |-> s, m |-> m] : a \\in 0..2, w \\in 1..2, o \\in {"le", "be"}, s \\in {0, 1}, m \\in {"f", "m"}}'
    # the spec bounds the depth: from the fill pattern, one byte alphabet
    tr = ctx.model_check("bytes", "Serializer", {"Size": 3}, [], props, subst={"Ops": ops if not ctx.quick else ops.replace("a \\in {1, 254}", "a \\in {1}").replace("{<<5>>, <<200>>}", "{<<200>>}")})
    for opt in ("-O1", "-O2"):
        ctx.replay_tours("bytes " + opt, exe[3, opt], tr, F, scale=lambda o: dict(o, op=w(o["op"])))
    wide = "{<<1, 2, 3, 4>>, <<255, 0, 0, 128>>, <<17, 34, 51, 68, 85, 102, 119, 136>>, <<255, 255, 255, 255, 255, 255, 255, 127>>}"
    ops = '{[op |-> "put", at |-> a, o |-> o, m |-> "f", v |-> v] : a \\in {0, 3, 4}, o \\in {"le", "be"}, v \\in %s}' % wide
    ops += ' \\cup {[op |-> "get", at |-> a, w |-> w, o |-> o, s |-> s, m |-> "m"] : a \\in {0, 1, 4}, w \\in {4, 8}, o \\in {"le", "be"}, s \\in {0, 1}}'
    tr = ctx.model_check("wide", "Serializer", {"Size": 8}, [], props, subst={"Ops": ops}) 
    ctx.replay_tours("wide", exe[8, "-O1"], tr, F, scale=lambda o: dict(o, op=w(o["op"])))
    consts = {"Size": 16, "Ops": "{}"}
    # every 16-bit value, both orders, both signs, both ways of enumerating
    step = 1
    ev = [{"op": "sweep", "k": k, "h": h, "o": o} for o in ("le", "be") for k in (0, 1) for h in range(0, 256, 4 if k and ctx.quick else step)]
    for h, x in ((16, "-O1"), (8, "-O2")):
        ctx.trace_check("all 16-bit values " + x, exe[h, x], "Serializer", [ev], F, dict(consts, Size=h), chunk=1000)
    # every value of every byte of every width, decoded as both signs, on its own and on random backgrounds
    ev = []
    for width in (1, 2, 4, 8):
        for o in ("le", "be"):
            for i in range(width):
                for x in range(256):
                    if ctx.quick and (x * 7 + i) % (1 if width == 1 else width) and x not in (0, 1, 127, 128, 255):
                        continue
                    v = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(width)] if x % 2 else [0] * width
                    v[i] = x
                    at = rng.randrange(16 - width + 1)
                    ev += [{"op": "put", "at": at, "o": o, "m": "f", "v": v}, {"op": "get", "at": at, "w": width, "o": o, "s": x % 2, "m": "f"},
                           {"op": "get", "at": at, "w": width, "o": o, "s": 1 - x % 2, "m": rng.choice("fm")}]
    ctx.trace_check("every byte of every width", exe[16, "-O1"], "Serializer", [ev], F, consts, chunk=5000, props=props, cmd=w)
    # the values at powers of two, and their opposites
    ev = []
    for width in (2, 4, 8):
        for k in range(8 * width):
            for v in {1 << k, (1 << k) - 1, (1 << k) + 1, -1 << k, -(1 << k) - 1, 1 - (1 << k)}:
                v = list((v % (1 << 8 * width)).to_bytes(8 * width // 8, "little"))
                for o in ("le", "be"):
                    at = (k * 3 + v[0]) % (17 - width)
                    ev += [{"op": "put", "at": at, "o": o, "m": "mf"[k % 3 > 0], "v": v}, {"op": "get", "at": at, "w": width, "o": o, "s": k % 2, "m": "f"}]
                    if o == "be" or not ctx.quick:
                        ev.append({"op": "get", "at": at, "w": width, "o": "le" if ctx.quick else o, "s": 1 - k % 2, "m": "m"})
    ctx.trace_check("powers of two", exe[16, "-O1"], "Serializer", [ev], F, consts, chunk=5000, props=props, cmd=w)
    # random use of one buffer
    hs = []
    for _ in range(8 if ctx.quick else 80):
        ev = []
        for _ in range(200):
            width = rng.choice([1, 2, 4, 8])
            at, o = rng.randrange(16 - width + 1), rng.choice(["le", "be"])
            x = rng.random()
            if x < 0.45:
                ev.append({"op": "put", "at": at, "o": o, "m": rng.choice("fm"), "v": [rng.choice([0, 255, 128, 127, rng.randrange(256)]) for _ in range(width)]})
            elif x < 0.9:
                if ev and ev[-1]["op"] == "put" and rng.random() < 0.7:
                    at, width = ev[-1]["at"], len(ev[-1]["v"])
                ev.append({"op": "get", "at": at, "w": width, "o": o, "s": rng.randrange(2), "m": rng.choice("fm")})
            else:
                n = rng.randrange(1, 5)
                ev.append({"op": "raw", "at": rng.randrange(16 - n), "b": [rng.choice([0, 255, 128, 127, rng.randrange(256)]) for _ in range(n)]})
        hs.append(ev)
    for opt in ("-O1", "-O2"):
        ctx.trace_check("buffer " + opt, exe[16, opt], "Serializer", hs, F, consts, props=props, selftest=opt == "-O1", cmd=w)
