"""C26: struct updates."""
import json, subprocess
F = {"poke": ["i", "b"], "field": ["u", "f"], "array": ["u", "f", "n"], "conv": ["u", "f", "v"], "raw": ["u", "at", "off", "n"], "apply": ["u", "i"], "free": ["u"]}


def setup(ctx, name, defs, ups, insts):
    exe = ctx.build(name, ["h_su.c", "gel/data_structures/struct_update.c"], defs=defs + ["UPS=%d" % ups, "INSTS=%d" % insts])
    size, lay = json.loads(subprocess.run([exe, "layout"], capture_output=True, text=True).stdout)
    t = lambda i: "<<%s>>" % ", ".join(str(x[i]) for x in lay)
    return exe, size, lay, {"Size": size, "Insts": insts, "Ups": ups, "Off": t(0), "Len_": t(1), "Elem": t(2)}


def c26(ctx):
    ctx.assumptions += ["memory allocation succeeds; array updates stay within their field"]
    props = ["Snapshot", "OnlyField", "OnlyApply"]
    exe, size, lay, consts = setup(ctx, "su_small", ["SMALL=1"], 2, 1)
    nf = 2
    ops = '{[op |-> "poke", i |-> x, b |-> y] : x \\in {0, 3}, y \\in {<<1, 2>>, <<0, 0>>}} \\cup {[op |-> o, u |-> x, i |-> 1] : o \\in {"apply"}, x \\in 1..2} \\cup {[op |-> "free", u |-> x] : x \\in 1..2}'
    ops += ' \\cup {[op |-> "conv", u |-> 1, f |-> x, v |-> 258] : x \\in 1..2}'
    ops += ' \\cup {[op |-> "field", u |-> 1, f |-> x] : x \\in 1..2} \\cup {[op |-> "array", u |-> 2, f |-> x, n |-> y] : x \\in {4}, y \\in %s}' % ("{2}" if ctx.quick else "{1, 2}")
    tr = ctx.model_check("small", "StructUpdate", consts, [], props, subst={"Ops": ops})
    ctx.replay_tours("small", exe, tr, F)
    exe, size, lay, consts = setup(ctx, "su", ["SMALL=0"], 4, 3)
    nf = 10
    rng = ctx.rng("u")
    hs = []
    for _ in range(10 if ctx.quick else 100):
        ev, live = [], set()
        for _ in range(120):
            x = rng.random()
            u = rng.randrange(1, 5)
            if x < 0.2:
                i = rng.randrange(size)
                ev.append({"op": "poke", "i": i, "b": [rng.randrange(256) for _ in range(min(size - i, rng.choice([1, 2, 8, size])))]})
            elif x < 0.6 and u not in live:
                k = rng.randrange(10)
                if k < 2:
                    ev.append({"op": "conv", "u": u, "f": rng.choice([1, 2, 3, 4, 6, 10]), "v": rng.choice([0, 1, -1, 255, 256, -128, 127, 65535, 65536, 2147483647, -2147483647, rng.randrange(-100000, 100000)])})
                elif k < 5:
                    ev.append({"op": "field", "u": u, "f": rng.randrange(nf) + 1})
                elif k < 8:
                    f = rng.randrange(nf, len(lay))
                    ev.append({"op": "array", "u": u, "f": f + 1, "n": rng.randrange(0, lay[f][1] // lay[f][2] + 1)})
                else:
                    n = rng.choice([0, 1, 2, 3, 7, 8, 16, size])
                    ev.append({"op": "raw", "u": u, "at": rng.randrange(size - n + 1), "off": rng.randrange(size - n + 1), "n": n})
                live.add(u)
            elif live and x < 0.9:
                ev.append({"op": "apply", "u": rng.choice(sorted(live)), "i": rng.randrange(1, 4)})
            elif live:
                u = rng.choice(sorted(live))
                live.discard(u)
                ev.append({"op": "free", "u": u})
        hs.append(ev)
    ctx.trace_check("records", exe, "StructUpdate", hs, F, dict(consts, Ops="{}"), [], props=props, selftest=True)
    # structures of 8 cells of equal size: offsets and sizes at and beyond 8 and 16 bits
    for cell in [20011, 128, 255, 32768, 65535] + ([] if ctx.quick else [127, 256, 32767, 65536]):
        cells(ctx, rng, cell, props)


def cells(ctx, rng, cell, props):
    exe = ctx.build("su_big%d" % cell, ["h_su.c", "gel/data_structures/struct_update.c"], defs=["SMALL=1", "CELL=%d" % cell, "UPS=2", "INSTS=2"])
    hs = []
    for _ in range(2 if ctx.quick else 10):
        ev, live = [{"op": "poke", "i": 0, "b": list(range(1, 9))}], set()
        for n, at, off in [(1, 0, 1), (1, 1, 1), (2, 1, 2), (2, 0, 1), (1, 5, 4), (4, 1, 2)]:      # every size and offset of 1, 2 and 4 cells
            ev += [{"op": "poke", "i": 0, "b": [rng.randrange(256) for _ in range(8)]}, {"op": "raw", "u": 1, "at": at, "off": off, "n": n}, {"op": "apply", "u": 1, "i": 1}, {"op": "free", "u": 1}]
        for _ in range(40):
            u = rng.randrange(1, 3)
            if u in live and rng.random() < 0.3:
                live.discard(u)
                ev.append({"op": "free", "u": u})
            elif u in live and rng.random() < 0.7:
                ev.append({"op": "apply", "u": u, "i": rng.randrange(1, 3)})
            elif u not in live:
                n = rng.choice([1, 2, 4, 5, 8])
                live.add(u)
                ev.append({"op": "raw", "u": u, "at": rng.randrange(9 - n), "off": rng.randrange(9 - n), "n": n})
            else:
                i = rng.randrange(8)
                ev.append({"op": "poke", "i": i, "b": [rng.randrange(256) for _ in range(8 - i)]})
        hs.append(ev)
    e = "<<>>"
    ctx.trace_check("large structure" + (" of cells of %d" % cell if cell != 20011 else ""), exe, "StructUpdate", hs, F, {"Size": 8, "Insts": 2, "Ups": 2, "Off": e, "Len_": e, "Elem": e, "Ops": "{}"}, [], props=props)
