"""C27: optional values."""
F = {"ret": ["i", "v"], "nothing": ["i", "m"], "copy": ["i", "j"], "map": ["i", "j", "f"], "bind": ["i", "j", "f"], "is": ["i"], "default": ["i", "v"]}
KINDS = ["int", "char", "double", "pointer", "struct", "u64"]
MAPS, BINDS = ["inc", "zero", "same", "neg"], ["ret", "none", "half", "succ"]
V = 8


def c27(ctx):
    inv, props = ["Laws"], ["CallsOnce"]
    ops = '{[op |-> "ret", i |-> x, v |-> y] : x \\in 1..2, y \\in 0..7} \\cup {[op |-> "nothing", i |-> x, m |-> y] : x \\in 1..2, y \\in {0, 1}}'
    ops += ' \\cup {[op |-> "map", i |-> x, j |-> y, f |-> f] : x \\in 1..2, y \\in 1..2, f \\in {"inc", "zero", "same", "neg"}}'
    ops += ' \\cup {[op |-> "bind", i |-> x, j |-> y, f |-> f] : x \\in 1..2, y \\in 1..2, f \\in {"ret", "none", "half", "succ"}}'
    ops += ' \\cup {[op |-> "copy", i |-> 1, j |-> 2], [op |-> "is", i |-> 1], [op |-> "is", i |-> 2]} \\cup {[op |-> "default", i |-> 1, v |-> x] : x \\in 0..7}'
    tr = ctx.model_check("two", "Maybe", {"R": 3, "V": V}, inv, props, subst={"Ops": ops})
    rng = ctx.rng("m")
    hs = []
    for _ in range(6 if ctx.quick else 60):
        ev = []
        for _ in range(150):
            i, j, x = rng.randrange(1, 4), rng.randrange(1, 4), rng.random()
            if x < 0.25:
                ev.append({"op": "ret", "i": i, "v": rng.randrange(V)})
            elif x < 0.32:
                ev.append({"op": "nothing", "i": i, "m": rng.randrange(2)})
            elif x < 0.55:
                ev.append({"op": "map", "i": i, "j": j, "f": rng.choice(MAPS)})
            elif x < 0.8:
                ev.append({"op": "bind", "i": i, "j": j, "f": rng.choice(BINDS)})
            elif x < 0.85:
                ev.append({"op": "copy", "i": i, "j": j})
            elif x < 0.9:
                ev.append({"op": "is", "i": i})
            else:
                ev.append({"op": "default", "i": i, "v": rng.randrange(V)})
        hs.append(ev)
    for k, name in enumerate(KINDS):
        for opt in ("-O1", "-O2"):
            exe = ctx.build("maybe_%d%s" % (k, opt), ["h_maybe.c"], defs=["KIND=%d" % k], flags=[opt])
            ctx.replay_tours("two of %s %s" % (name, opt), exe, tr, F)
        ctx.trace_check("chains of " + name, exe, "Maybe", hs, F, {"R": 3, "V": V, "Ops": "{}"}, inv, props=props, selftest=k == 0)
