"""C02: the ring under every interleaving of one producer and one consumer."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from .core import CheckError, HARN, REPO, other_objects, tail
PUTS, PUTC, SIZE, EMPTY, FULL, GETS, GETC, PEEK, DROP, GETC0 = 0, 1, 2, 3, 4, 10, 11, 12, 13, 14
GRAPH = """---- MODULE %(stem)s ----
EXTENDS RingSPSC, Json, IOUtils
\\* the state graph of the real code: edge <<from, to, event>>, grouped by source (First[n]..First[n+1]-1)
Edges == ndJsonDeserialize(IOEnv.EDGES)
First == JsonDeserialize(IOEnv.FIRST)
VARIABLE node
GInit == Init /\\ node = 0
Out(n) == First[n + 1] .. First[n + 2] - 1
GNext == \\E k \\in Out(node) : Step(Edges[k][3]) /\\ node' = Edges[k][2]
GSpec == GInit /\\ [][GNext]_<<vars, node>>
GView == <<View, node>>
Refines == \\A k \\in Out(node) : Legal(Edges[k][3]) \\/ (PrintT(<<"ILLEGAL", k>>) /\\ FALSE)
====
"""


def build(ctx):
    o, exe = os.path.join(ctx.out, "ring.o"), os.path.join(ctx.out, "spsc")
    inc = ["-I" + os.path.join(HARN, "conf"), "-I" + HARN, "-I" + REPO, "-I" + os.path.join(REPO, "gel")]
    comp = ["clang", "-O0", "-g", "-w", "-fsanitize=thread"] + inc
    src = os.path.join(REPO, "gel/collections/circular_buffer.c")
    link = ["clang", "-O1", "-g", "-w"] + inc + [os.path.join(HARN, "h_spsc.c"), o]
    for cmd in (comp + ["-c", src, "-o", o], link + ["-o", exe]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and "undefined reference" in r.stderr:
            r = subprocess.run(link + other_objects(comp, [src], exe + ".d") + ["-o", exe], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return exe


def prog(ops):
    return "%d %s" % (len(ops), " ".join("%d %d" % o for o in ops))


def explore(ctx, exe, tag, cmds, spoil=False):
    """Executes the configurations on the real code, and lets TLC check that their graph refines RingSPSC.
    spoil: falsify one recorded result first; it must be rejected (the binding's self-test)."""
    t = time.time()
    r = subprocess.run([exe], input="\n".join(cmds) + "\n", capture_output=True, text=True, timeout=600)
    lines = r.stdout.split("\n")[:-1]
    if r.returncode == 97:
        raise CheckError("harness: " + r.stderr[-500:])
    if r.returncode != 0:
        ctx.violate("schedules " + tag + ": the code does not return", cmds[-3:], "returns", "crash(%d)" % r.returncode)
    edges = [json.loads(x) for x in lines]
    edges.sort(key=lambda e: e[0])
    n = max(max(e[0], e[1]) for e in edges) + 1
    first, k = [], 0
    for v in range(n + 1):
        while k < len(edges) and edges[k][0] < v:
            k += 1
        first.append(k + 1)
    if spoil:
        k = ctx.rng("spoil").choice([i for i, e in enumerate(edges) if e[2]["op"] == "ret"])
        edges[k][2]["r"] += 1
    ef = ctx.tmp(".ndjson")
    ff, stem = ef[:-6] + "json", "GR_" + os.path.basename(ef)[:-7]
    with open(ef, "w") as f:
        for e in edges:
            f.write(json.dumps(e) + "\n")
    json.dump(first, open(ff, "w"))
    mod, cfg = os.path.join(ctx.out, stem + ".tla"), os.path.join(ctx.out, stem + ".cfg")
    open(mod, "w").write(GRAPH % {"stem": stem})
    invs = ["Refines", "Fifo", "Bounded", "SpareCell"]
    ctx.write_cfg(cfg, spec="GSpec", consts={"Ops": "{}"}, invs=invs, view="GView")
    rc, o, e = ctx.tlc(mod, cfg, workers=4, env={"EDGES": ef, "FIRST": ff}, timeout=800, heap="8g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", o)
    bad = re.findall(r'"ILLEGAL", (\d+)', o)
    if spoil:
        if not bad:
            raise CheckError("binding self-test failed: a falsified result was accepted")
        ctx.parts.append({"part": "binding self-test " + tag, "corrupted_event": json.dumps(edges[k][2]), "rejected": True})
        return
    if bad or "is violated" in o:
        path = [int(x) for x in re.findall(r"/\\ node = (\d+)", o)]
        ev = []
        for a, b in zip(path, path[1:]):
            ev += [x[2] for x in edges[first[a] - 1:first[a + 1] - 1] if x[1] == b][:1]
        inv = re.search(r"Invariant (\w+) is violated", o)
        what = inv.group(1) if inv else "?"
        last = path[-1] if path else 0
        cand = [x[2] for x in edges[first[last] - 1:first[last + 1] - 1]]
        ill = [edges[int(k) - 1][2] for k in bad if edges[int(k) - 1][0] == last]
        ctx.violate("schedules " + tag, [json.dumps(x) for x in ev] + [json.dumps(ill[0])] if ill else [json.dumps(x) for x in ev],
                    "one of the steps RingSPSC allows here" if what == "Refines" else "invariant " + what, ill[0] if ill else cand)
    if rc != 0 or not m:
        raise CheckError("TLC failed on graph %s (rc %d)\n%s\n%s" % (tag, rc, tail(o), tail(e)))
    ctx.states += int(m.group(2))
    ctx.transitions += int(m.group(1))
    ctx.steps += len(edges)
    ctx.traces += len(cmds)
    for x in edges:
        ctx.count(x[2]["op"] + (" " + x[2]["f"] if x[2]["op"] == "call" else ""))
    ctx.parts.append({"part": "state graph of the real code refines RingSPSC: " + tag, "configurations": len(cmds), "edges": len(edges), "nodes": n,
                      "product_states": int(m.group(2)), "wall_s": round(time.time() - t, 1)})
    ctx.samples.append({"kind": "graph " + tag, "commands": cmds[:3], "observed": edges[1:4]})
    for p in (ef, ff):
        os.unlink(p)
    ctx.log("graph %s: %d configurations, %d edges, %s product states, %.1fs" % (tag, len(cmds), len(edges), m.group(2), time.time() - t))


def configs(ctx):
    """Groups of graph commands: (tag, commands)."""
    out = {}
    def g(tag, n, h, f, p, c):
        out.setdefault(tag, []).append("graph %d %d %d %s %s" % (n, h, f, prog(p), prog(c)))
    rng = ctx.rng("configs")
    big = not ctx.quick
    for n in (2, 3, 4) if not big else (2, 3, 4, 5):
        for h in range(n):
            for f in range(n):
                for p in ([(PUTS, 1)], [(PUTS, 2)], [(PUTS, n + 1)], [(PUTC, 0), (PUTC, 0)]):
                    for c in ([(GETS, 1)], [(GETS, 2)], [(GETS, n + 1)], [(GETC, 0), (GETC, 0)], [(PEEK, n)], [(DROP, 2)], [(GETC0, 0)]):
                        if not big and n == 4 and rng.random() < 0.7:
                            continue
                        g("one call each, %d cells" % n, n, h, f, p, c)
                # the observers, from both sides
                for o in (SIZE, EMPTY, FULL):
                    g("observers, %d cells" % n, n, h, f, [(PUTS, 2)], [(o, 0)])
                    g("observers, %d cells" % n, n, h, f, [(o, 0)], [(GETS, 2)])
                    g("observers, %d cells" % n, n, h, f, [(o, 0), (PUTC, 0), (o, 0)], [(GETC, 0), (o, 0), (DROP, 1)])
    # several calls in a row
    P = [(PUTS, 1), (PUTS, 2), (PUTS, 3), (PUTC, 0), (SIZE, 0)]
    C = [(GETS, 1), (GETS, 2), (GETS, 3), (GETC, 0), (PEEK, 2), (DROP, 1), (DROP, 3), (GETC0, 0), (SIZE, 0)]
    for i in range(40 if ctx.quick else 400):
        n = rng.choice((2, 3, 3, 4)) if not big else rng.choice((2, 3, 4, 5, 6))
        k = 2 if ctx.quick else rng.choice((2, 2, 3))
        g("several calls %d" % (i // 150), n, rng.randrange(n), rng.randrange(n), [rng.choice(P) for _ in range(k)], [rng.choice(C) for _ in range(k)])
    if big:
        for n in (7, 8):
            for h in range(n):
                for f in (0, 1, n // 2, n - 2, n - 1):
                    g("longer transfers, %d cells" % n, n, h, f, [(PUTS, n)], [(GETS, n)])
                    g("longer transfers, %d cells" % n, n, h, f, [(PUTS, n - 1), (PUTC, 0)], [(PEEK, n), (DROP, n)])
    return out


def runs(ctx):
    """Random schedules of long histories on larger rings."""
    rng, out = ctx.rng("runs"), []
    for n, count, most in ((5, 8, 8), (16, 8, 20), (64, 4, 80), (300, 2, 320)) if ctx.quick else ((5, 60, 8), (16, 60, 20), (64, 40, 80), (300, 16, 320)):
        for _ in range(count):
            ln = lambda: rng.choice((0, 1, 2, rng.randint(0, most), n - 2, n - 1, n, most))
            P = lambda: rng.choice(((PUTS, ln()), (PUTS, ln()), (PUTS, ln()), (PUTC, 0), (PUTC, 0), (SIZE, 0), (EMPTY, 0), (FULL, 0)))
            C = lambda: rng.choice(((GETS, ln()), (GETS, ln()), (GETC, 0), (GETC0, 0), (PEEK, ln()), (DROP, ln()), (SIZE, 0), (EMPTY, 0), (FULL, 0)))
            k = rng.randint(10, 60) if n < 64 else 12
            out.append("run %d %d %d %d %d %s %s" % (rng.randrange(1 << 30), rng.choice((1, 2, 4, 12, 60)), n, rng.randrange(n), rng.choice((0, n - 1, rng.randrange(n))),
                                                     prog([P() for _ in range(k)]), prog([C() for _ in range(k)])))
    # long transfers that follow a slow partner: many chunks in one call, with indices beyond a byte
    for i in range(6 if ctx.quick else 40):
        h = rng.choice((256, 261, 270, 284))
        burst = rng.choice((1, 2, 3, 6))
        if i % 2:
            out.append("run %d %d 300 %d %d %s %s" % (rng.randrange(1 << 30), burst, h, 300 - 1 - rng.choice((0, 1, 3)), prog([(PUTS, 60), (PUTS, 40)]), prog([rng.choice(((GETC, 0), (GETC, 0), (GETS, 2), (DROP, 1))) for _ in range(70)])))
        else:
            out.append("run %d %d 300 %d %d %s %s" % (rng.randrange(1 << 30), burst, h, rng.choice((0, 1, 3)), prog([rng.choice(((PUTC, 0), (PUTC, 0), (PUTS, 2))) for _ in range(70)]), prog([(GETS, 60), (PEEK, 9), (GETS, 40)])))
    return out


ALPHABET = """LET n == %d
  IN {[op |-> "start", n |-> n, h |-> h, k |-> k, c |-> [i \\in 1..n |-> 200 + i]] : h \\in 0..n-1, k \\in 0..n-1}
     \\cup {[op |-> "call", t |-> 0, f |-> f, n |-> Len(d), d |-> d] : f \\in {"puts", "size"}, d \\in {<<1>>, <<2, 3>>}}
     \\cup {[op |-> "call", t |-> 1, f |-> f, n |-> m, d |-> <<>>] : f \\in {"gets", "peek", "drop", "empty"}, m \\in 1..2}
     \\cup {[op |-> "step", t |-> t, h |-> h, k |-> k, b |-> 0, c |-> c] : t \\in 0..1, h \\in 0..n-1, k \\in 0..n-1, c \\in {<<>>} \\cup {<<<<i, v>>>> : i \\in 0..n-1, v \\in 1..3}}
     \\cup {[op |-> "ret", t |-> t, r |-> r, d |-> d] : t \\in 0..1, r \\in 0..2, d \\in {<<>>} \\cup {<<a>> : a \\in 1..3}}"""


def c02(ctx):
    # the rules of RingSPSC themselves keep the ring a FIFO, whatever legal steps the two threads take
    for n in (2,) if ctx.quick else (2, 3):
        ctx.model_check("rules_%d" % n, "RingSPSC", {}, ["Fifo", "Bounded", "SpareCell"], dump=False, subst={"Ops": ALPHABET % n}, cons="Small")
    exe = build(ctx)
    jobs = list(configs(ctx).items())
    jobs.append(("random schedules", runs(ctx)))
    with ThreadPoolExecutor(3) as pool:
        for f in [pool.submit(explore, ctx, exe, tag, cmds) for tag, cmds in jobs]:
            f.result()
    explore(ctx, exe, "self-test", ["graph 3 1 1 1 0 2 1 10 2"], spoil=True)
