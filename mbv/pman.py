"""C22: page manager."""
F = {"init": [], "change": ["p", "d", "x", "m"], "swap": ["p", "d", "x", "m"], "rebase": ["p", "d", "x", "m"], "back": ["m"], "resetto": ["id", "m"], "event": ["ev", "m"], "update": ["m"]}
NAMES = {"c": "create", "o": "open", "k": "close", "d": "destroy", "u": "update"}


def build(ctx, pages, depth, upd, ptypes, ndebug):
    defs = ['VERIF_EXTRA_CONF="pman_types.h"', "VERIF_PMAN_TYPES", "PTYPES=%d" % ptypes, "PMAN_NAVIGATION_DEPTH=%d" % depth,
            'GEL_PAGEMANAGER_CONFIGURATION_HEADER="gel_conf.h"', "PAGES=" + ",".join('{%d,"%s"}' % p for p in pages)]
    if upd:
        defs.append("GEL_PAGEMANAGER_UPDATE_CALLBACK")
    if ndebug:
        defs.append("NDEBUG")
    return ctx.build("pman_%d" % len(ctx.parts + [0]) + "_%d%d%d%d_%s" % (depth, upd, ptypes, ndebug, "".join(c for _, c in pages)), ["h_pman.c", "gel/pagemanager/page_manager.c"], defs=defs)


def consts(pages, depth, upd):
    return {"Depth": depth, "Cb": "<<%s>>" % ", ".join("{%s}" % ", ".join('"%s"' % NAMES[c] for c in cb) for _, cb in pages),
            "Id": "<<%s>>" % ", ".join(str(i) for i, _ in pages), "Upd": "TRUE" if upd else "FALSE"}


def history(rng, pages, depth, n):
    ev, st, nd = [], [], 1
    for _ in range(n):
        x, m = rng.random(), rng.randrange(1, 5)
        new = lambda o: {"op": o, "p": rng.randrange(1, len(pages) + 1), "d": nd, "x": rng.choice([0, 0, 5, 6]), "m": m}
        if x < 0.42 and (not st or len(st) <= depth):
            e = new("change")
            st.append(e["p"])
            nd += 1
        elif x < 0.52:
            e = new("swap")
            st = st[:-1] + [e["p"]]
            nd += 1
        elif x < 0.56:
            e = new("rebase")
            st = [e["p"]]
            nd += 1
        elif x < 0.6:
            e = {"op": "resetto", "id": rng.choice([p[0] for p in pages] + [12345]), "m": m}
            ks = [k for k in range(len(st) - 1) if pages[st[k] - 1][0] == e["id"]]
            st = st[:ks[-1] + 1] if ks else []
        elif x < 0.605:
            e = {"op": "init"}
            st = []
        elif st and x < 0.8:
            e = {"op": "back", "m": m}
            if len(st) > 1:
                st.pop()
        elif st and x < 0.9:
            e = {"op": "event", "ev": rng.choice([0, 1, -1, 100]), "m": m}
        elif st:
            e = {"op": "update", "m": m}
        else:
            continue
        ev.append(e)
    return ev


def c22(ctx):
    ctx.assumptions += ["callbacks do not call the page manager; event, back and update are called only while there is a page, and no change beyond the navigation depth (the code asserts both)"]
    ctx.probe("the page manager compiles", "#include \"gel/pagemanager/page_manager.h\"\npman_view_t f(page_manager_t *p, pman_model_t m, pman_page_t g) { pman_init(p); return pman_change_page(p, m, g); }\n",
              defs=['VERIF_EXTRA_CONF="pman_types.h"', "VERIF_PMAN_TYPES", "PTYPES=0", "PMAN_NAVIGATION_DEPTH=2", 'GEL_PAGEMANAGER_CONFIGURATION_HEADER="gel_conf.h"'])
    inv, props = ["Lives", "NoPageNoStack", "Bounded"], ["BackIsInverse", "LastStays"]
    full = [(1, "cokdu"), (2, "cokdu")]
    cfgs = [("full", full, 2, 1, 0, 0), ("noupd", full, 1, 0, 1, 0), ("part", [(1, "cokdu"), (-7, "okd"), (1, "c")], 1, 1, 0, 1)]
    if not ctx.quick:
        cfgs += [("deep", full, 3, 1, 1, 1), ("part2", [(3, "ck"), (3, "du"), (0, "od"), (9, "")], 1, 1, 1, 0)]
    for tag, pages, depth, upd, pt, nd in cfgs:
        ds = depth + 2
        n = len(pages)
        ops = '{[op |-> o, p |-> p, d |-> d, x |-> x, m |-> 1] : o \\in {"change", "swap", "rebase"}, p \\in 1..%d, d \\in 1..%d, x \\in %s}' % (n, ds, "{0, 5}" if depth == 1 else "{5}")
        ops += ' \\cup {[op |-> o, m |-> 2] : o \\in {"back", "update"}} \\cup {[op |-> "event", ev |-> 3, m |-> 2], [op |-> "init"]}'
        ops += ' \\cup {[op |-> "resetto", id |-> x, m |-> 2] : x \\in {%s}}' % ", ".join(sorted({str(p[0]) for p in pages} | {"77"}))
        tr = ctx.model_check(tag, "PageManager", consts(pages, depth, upd), inv, props, subst={"Ops": ops})
        for q, w in {(pt, nd), (1 - pt, 1 - nd)}:
            ctx.replay_tours("%s types %d ndebug %d" % (tag, q, w), build(ctx, pages, depth, upd, q, w), tr, F)
    k = 0
    for pages, depth, upd, pt, nd in [([(1, "cokdu"), (2, "cokdu"), (1, "cokdu"), (-3, "cokdu")], 5, 1, 0, 0), (full, 20, 1, 1, 1), ([(1, "cok"), (2, "du"), (3, "cd"), (300, "oku")], 4, 1, 0, 0),
                                      ([(1, "cokd"), (2, "cd"), (2, ""), (70000, "ok")], 3, 0, 0, 1)]:
        rng = ctx.rng("t%d" % k)
        hs = [history(rng, pages, depth, 150) for _ in range(6 if ctx.quick else 60)]
        ctx.trace_check("depth %d pages %s" % (depth, " ".join(p[1] for p in pages)), build(ctx, pages, depth, upd, pt, nd), "PageManager", hs, F,
                        dict(consts(pages, depth, upd), Ops="{}"), inv, props=props, selftest=k == 0)
        k += 1
    # page numbers at the edges of the integer types
    ids = [127, 128, -128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, -2147483647, -1, -2]
    pages, depth = [(i, "cokdu") for i in ids], 4
    h, nd = [], 1
    for k in range(len(ids)):
        for o in ("change", "change", "swap"):
            h.append({"op": o, "p": (k + len(h)) % len(ids) + 1, "d": nd, "x": 5, "m": 1})
            nd += 1
        h.append({"op": "change", "p": k + 1, "d": nd, "x": 0, "m": 2})
        h += [{"op": "event", "ev": min(ids[k], 1 << 30), "m": 1}, {"op": "change", "p": (k + 3) % len(ids) + 1, "d": nd + 1, "x": 0, "m": 2}, {"op": "resetto", "id": ids[k], "m": 3},
              {"op": "event", "ev": min(ids[-k], 1 << 30), "m": 1}, {"op": "back", "m": 1}, {"op": "rebase", "p": k + 1, "d": nd + 2, "x": 6, "m": 4}, {"op": "update", "m": 2}]
        nd += 3
    ctx.trace_check("page numbers", build(ctx, pages, depth, 1, 0, 0), "PageManager", [h], F, dict(consts(pages, depth, 1), Ops="{}"), inv, props=props)
    # deep navigation
    depth = 300 if ctx.quick else 1000
    pages = [(-2000000000, "cokdu"), (256, "cokdu"), (0, "cd"), (3, "okdu")]
    h, nd = [], 1
    for i in range(depth + 1):
        h.append({"op": "change", "p": 1 if i == 3 else 2 if i == depth - 5 else 3 + i % 2, "d": nd, "x": 5, "m": 1})
        nd += 1
    h += [{"op": "event", "ev": 1, "m": 2}] + [{"op": "back", "m": 3}] * 3 + [{"op": "resetto", "id": 256, "m": 1}, {"op": "event", "ev": 4, "m": 2}]
    h += [{"op": "change", "p": 4, "d": nd + i, "x": 0, "m": 1} for i in range(5)]
    h += [{"op": "resetto", "id": -2000000000, "m": 4}, {"op": "event", "ev": 0, "m": 2}] + [{"op": "back", "m": 3}] * 5
    h += [{"op": "change", "p": 2, "d": 7, "x": 0, "m": 1}, {"op": "resetto", "id": 1, "m": 1}, {"op": "swap", "p": 1, "d": 9, "x": 6, "m": 1}]
    ctx.trace_check("depth %d" % depth, build(ctx, pages, depth, 1, 0, 0), "PageManager", [h], F, dict(consts(pages, depth, 1), Ops="{}"), inv, props=props)
