"""C05: intrusive lists."""
FIELDS = {"init": ["l"], "add": ["l", "x"], "addt": ["l", "x"], "del": ["l", "x"]}


def ops(nl, ne):
    return ('{[op |-> "init", l |-> a] : a \\in 1..%d} \\cup {[op |-> o, l |-> a, x |-> b] : o \\in {"add", "addt", "del"}, '
            'a \\in 1..%d, b \\in 1..%d}' % (nl, nl, ne))


def history(rng, nl, ne, g, steps):
    lists = {l: [] for l in range(1, nl + 1)}
    ev = [{"op": "init", "l": l} for l in rng.sample(range(1, nl + 1), nl)]
    grow = 0.7
    for _ in range(steps):
        if rng.random() < 0.05:
            grow = rng.choice([0.3, 0.5, 0.8])
        l = rng.randrange(1, nl + 1)
        x = rng.randrange(1, ne + 1)
        free = all(x not in lists[m] for m in lists if m % g == l % g)
        if rng.random() < 0.01:
            lists[l] = []
            ev.append({"op": "init", "l": l})
        elif rng.random() < grow:
            if not free:
                continue
            if rng.random() < 0.5:
                lists[l].insert(0, x)
                ev.append({"op": "add", "l": l, "x": x})
            else:
                lists[l].append(x)
                ev.append({"op": "addt", "l": l, "x": x})
        elif lists[l]:
            k = rng.choice([0, len(lists[l]) - 1, rng.randrange(len(lists[l]))])
            ev.append({"op": "del", "l": l, "x": lists[l].pop(k)})
    return ev


def c05(ctx):
    exe = ctx.build("list", ["h_list.c"])
    # links that lie deep inside large structures
    far = {n: ctx.build("list_%d" % n, ["h_list.c"], defs=["FAR=%d" % n]) for n in (40, 120, 9000, 40000)}
    invs = ["Refines", "Distinct"]
    for tag, nl, ne, g in [("one group", 2, 3 if ctx.quick else 4, 1), ("two groups", 2, 2, 2), ("three links", 3, 2, 3)] + \
            ([] if ctx.quick else [("three lists", 3, 3, 1)]):
        tr = ctx.model_check(tag.replace(" ", "_"), "List", {"NL": nl, "NE": ne, "G": g}, invs, ["Local"],
                             subst={"Ops": ops(nl, ne)})
        ctx.replay_tours(tag, exe, tr, FIELDS, args=[str(nl), str(ne), str(g)])
        if g > 1:
            for n, x in far.items():
                ctx.replay_tours("%s, links %d bytes deep" % (tag, n), x, tr, FIELDS, args=[str(nl), str(ne), str(g)])
    rng = ctx.rng("hist")
    for nl, ne, g in [(4, 12, 1), (5, 10, 3), (2, 40, 2)]:
        hs = [history(rng, nl, ne, g, 120 if ctx.quick else 500) for _ in range(2 if ctx.quick else 6)]
        ctx.trace_check("random_%d_%d_%d" % (nl, ne, g), exe, "List", hs, FIELDS,
                        {"NL": nl, "NE": ne, "G": g, "Ops": "{}"}, invs, args=[str(nl), str(ne), str(g)], selftest=nl == 4)
        if g == 3:
            ctx.trace_check("random, far links", far[9000], "List", hs, FIELDS,
                            {"NL": nl, "NE": ne, "G": g, "Ops": "{}"}, invs, args=[str(nl), str(ne), str(g)])
