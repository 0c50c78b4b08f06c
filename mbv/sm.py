"""C25: state machine."""
import json

F = {"send": ["i", "p", "ev", "res", "sub"], "table": ["i", "t"], "state": ["i", "s"]}
KINDS = {0: "int", 1: "struct", 2: "pointer", 3: "char"}


def c25(ctx):
    inv, props = ["InRange"], ["Once", "NegativeStays", "OtherMoves"]
    res = "{-1, 0, 1, 2}"
    # none, one to either machine, two in a row, one within the other
    sub = "({<<>>} \\cup {<<<<x, 5, r, <<>>>>>> : x \\in 1..2, r \\in {-1, 1}} \\cup {<<<<1, 5, 2, <<>>>>, <<2, 6, 1, <<>>>>>>, <<<<1, 5, -1, <<<<2, 6, 2, <<>>>>>>>>>>, <<<<2, 5, 0, <<<<1, 6, 1, <<>>>>>>>>>>})"
    ops = '{[op |-> "send", i |-> x, p |-> q, ev |-> v, res |-> r, sub |-> s] : x \\in 1..2, q \\in 0..1, v \\in {0, 3}, r \\in %s, s \\in %s}' % (res, sub)
    ops += ' \\cup {[op |-> "table", i |-> x, t |-> y] : x \\in 1..2, y \\in 0..1}'
    tr = ctx.model_check("pair", "StateMachine", {"M": 2, "NS": 3}, inv, props, subst={"Ops": ops})
    for k in KINDS:
        for opt in ("-O1", "-O2"):
            exe = ctx.build("sm_%d%s" % (k, opt), ["h_sm.c"], defs=["KIND=%d" % k, "NS=3"], flags=[opt])
            ctx.replay_tours("pair, %s events %s" % (KINDS[k], opt), exe, tr, F)
    # more states than a byte (and two) can count; extreme events and results
    for ns in (6, 300, 70000):
        for k in KINDS:
            rng = ctx.rng("%d%d" % (ns, k))
            exe = ctx.build("smt_%d_%d" % (ns, k), ["h_sm.c"], defs=["KIND=%d" % k, "NS=%d" % ns])
            good = list(range(6)) + [ns - 1] + [x for x in (127, 128, 255, 256, 32767, 32768, 65535, 65536) if x < ns]
            hs = []
            for _ in range(4 if ctx.quick else 40):
                ev = []
                e = lambda: rng.choice([0, 1, -1, 127, -128] + ([2147483647, -2147483647, 300] if k != 3 else []))
                r = lambda: rng.choice(good + good + [-1, -1, -2, -128, -256, -65536, -2147483647])
                subs = lambda d: [[rng.choice([1, 2]), e(), r(), subs(d + 1)] for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2, 3]) if d < 3 else 0)]
                for _ in range(100):
                    i = rng.choice([1, 2])
                    x = rng.random()
                    if x < 0.1:
                        ev.append({"op": "table", "i": i, "t": rng.randrange(2)})
                    elif x < 0.15:
                        ev.append({"op": "state", "i": i, "s": rng.choice(good)})
                    else:
                        t = subs(0)
                        while len(json.dumps(t)) > 220:     # at most some 12 events in all
                            t = subs(1)
                        ev.append({"op": "send", "i": i, "p": rng.randrange(3), "ev": e(), "res": r(), "sub": t})
                hs.append(ev)
            ctx.trace_check("%d states, %s events" % (ns, KINDS[k]), exe, "StateMachine", hs, F, {"M": 2, "NS": ns, "Ops": "{}"}, inv, props=props, selftest=ns == 6 and k == 0)
