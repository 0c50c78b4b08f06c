"""C24: CRC-16/CCITT and CRC-32."""
F = {"init": ["v"], "block": ["m"], "gen": ["a", "b", "i", "j"], "whole": []}
KINDS = {16: ("<<16, 33>>", 2), 32: ("<<4, 193, 29, 183>>", 4)}


def c24(ctx):
    ctx.assumptions += ["block lengths below 2^20"]
    for w, (poly, k) in KINDS.items():
        rng = ctx.rng(str(w))
        exe = ctx.build("crc%d" % w, ["h_crc.c", "gel/crc/crc16-ccitt.c", "gel/crc/crc32.c"])
        ini = "{%s}" % ", ".join("<<%s>>" % ", ".join(str(x) for x in t) for t in ([0] * k, [255] * k, [128] + [0] * (k - 2) + [1]))
        ops = '{[op |-> "init", v |-> x] : x \\in %s} \\cup {[op |-> "whole"]}' % ini
        ops += ' \\cup {[op |-> "block", m |-> x] : x \\in UNION {[1..n -> %s] : n \\in 0..2}}' % ("{0, 1, 129, 255}" if ctx.quick else "{0, 1, 2, 16, 128, 129, 254, 255}")
        keep = 3 if ctx.quick else 4
        tr = ctx.model_check("w%d" % w, "Crc", {"Poly": poly, "Keep": keep}, ["IsRemainder"], ["EmptyPiece", "WholeIsPieces"], subst={"Ops": ops}, dump=ctx.quick)
        if ctx.quick:
            ctx.replay_tours("w%d" % w, exe, tr, F, args=(str(w),))
        # every single byte after every kind of initial value: all 256 table entries; every byte of the register
        ev = []
        for x in range(256):
            ev += [{"op": "init", "v": [0] * k}, {"op": "block", "m": [x]}]
        for x in range(0, 256, 1):
            ev += [{"op": "init", "v": [x] + [rng.randrange(256) for _ in range(k - 1)]}, {"op": "block", "m": [rng.randrange(256)]}, {"op": "block", "m": []}]
        for i in range(8 * k):
            v = [0] * k
            v[i // 8] = 1 << (i % 8)
            ev += [{"op": "init", "v": v}, {"op": "block", "m": []}, {"op": "block", "m": [0]}, {"op": "block", "m": [0, 0, 0, 0, 0]}]
        # registers, before and after a byte, that are zero but for a run of bits
        for x in [1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]:
            if x < 1 << 8 * k:
                v = list(x.to_bytes(k, "big"))
                ev += [{"op": "init", "v": v}, {"op": "block", "m": []}, {"op": "block", "m": [rng.randrange(256)]}, {"op": "init", "v": v}, {"op": "block", "m": [0, 255, 0]}]
        consts = {"Poly": poly, "Keep": 0, "Ops": "{}"}
        ctx.trace_check("all bytes w%d" % w, exe, "Crc", [ev], F, consts, args=(str(w),), selftest=True, props=["EmptyPiece"])
        # random splits of messages, restarted whole
        hs = []
        for _ in range(10 if ctx.quick else 60):
            ev = [{"op": "init", "v": rng.choice([[0] * k, [255] * k, [rng.randrange(256) for _ in range(k)]])}]
            for _ in range(8):
                ln = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, rng.randrange(64)])
                ev.append({"op": "block", "m": [rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(ln)]})
                ev.append({"op": "whole"})
            hs.append(ev)
        ctx.trace_check("splits w%d" % w, exe, "Crc", hs, F, dict(consts, Keep=100000), args=(str(w),), props=["EmptyPiece", "WholeIsPieces"])
        # long blocks, around powers of two
        hs = []
        for ln in ([127, 128, 129, 255, 256, 257, 511, 4096, 32767, 32768, 65535, 65536, 65537, 70001] if ctx.quick else [255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131073, 200000]):
            a, b, st = rng.randrange(1, 256), rng.randrange(256), rng.randrange(1000)
            cut = rng.randrange(ln)
            ev = [{"op": "init", "v": [rng.randrange(256) for _ in range(k)]}, {"op": "gen", "a": a, "b": b, "i": st, "j": st + ln - 1}]
            ev += [{"op": "init", "v": ev[0]["v"]}, {"op": "gen", "a": a, "b": b, "i": st, "j": st + cut - 1}, {"op": "gen", "a": a, "b": b, "i": st + cut, "j": st + ln - 1}]
            hs.append(ev)
        ctx.trace_check("long w%d" % w, exe, "Crc", hs, F, consts, args=(str(w),))
