"""C05: protocol model, and recorded histories of overlapping updates."""


def cfg(nr, nu, delivery, same, design, live=True):
    return (
        f'SPECIFICATION Spec\nCONSTANTS NR = {nr} NU = {nu} Delivery = "{delivery}" '
        f'SameOrder = {same} Design = "{design}"\nINVARIANTS Right Clean\n'
        + ("PROPERTY Progress\n" if live else "")
    )


def consts(max_l, phases, fields, deliveries, same):
    return (
        f"MaxL = {max_l} MaxPhases = {phases} MaxFields = {fields} "
        f"Deliveries = {{{deliveries}}} SameOrder = {same}"
    )


def run(ctx):
    ctx.design("HaloAsync", cfg(3, 2, "eager", "FALSE", "ok"), "HaloAsync eager")
    ctx.design("HaloAsync", cfg(3, 2, "rendezvous", "TRUE", "ok"), "HaloAsync rendezvous")
    if ctx.thorough:
        ctx.design("HaloAsync", cfg(3, 3, "eager", "FALSE", "ok", False), "HaloAsync eager 3 updates")
        ctx.design("HaloAsync", cfg(4, 3, "rendezvous", "TRUE", "ok", False), "HaloAsync rendezvous 4 ranks")
    ctx.mutant("HaloAsync", cfg(3, 2, "rendezvous", "TRUE", "sametag"), "one tag for all updates")
    ctx.mutant("HaloAsync", cfg(3, 2, "rendezvous", "TRUE", "sendfirst"), "sends completed before receiving")
    ctx.mutant("HaloAsync", cfg(3, 2, "rendezvous", "TRUE", "nosends"), "sends not completed by wait")
    # the known limit of the design, see known_findings.json
    ctx.mutant("HaloAsync", cfg(3, 2, "rendezvous", "FALSE", "ok"), "different wait orders under rendezvous")
    n = ctx.size(24, 300)
    sc = ctx.generate("HaloAsyncGen", consts(1, 3, 4, '"eager"', "FALSE"), n, 40, "e")
    sc += ctx.generate("HaloAsyncGen", consts(1, 3, 4, '"rendezvous", "mixed"', "TRUE"), n, 40, "r", 1)
    sc += ctx.generate("HaloAsyncGen", consts(2, 2, 3, '"eager"', "FALSE"), n // 3, 40, "E", 2)
    sc += ctx.generate("HaloAsyncGen", consts(2, 2, 3, '"rendezvous"', "TRUE"), n // 3, 40, "R", 3)
    # starts, waits and collectives in alternation
    mix = "MaxL = {} MaxOps = {} MaxFields = 4 Deliveries = {{{}}} SameOrder = {} Timers = FALSE"
    sc += ctx.generate("HaloMixGen", mix.format(1, 20, '"eager"', "FALSE"), 2 * n, 60, "x", 7)
    sc += ctx.generate("HaloMixGen", mix.format(1, 16, '"rendezvous", "mixed"', "TRUE"), n, 60, "X", 8)
    sc += ctx.generate("HaloMixGen", mix.format(2, 10, '"eager"', "FALSE"), n // 4, 60, "y", 9)
    sc += ctx.generate("HaloMixGen", mix.format(2, 10, '"rendezvous"', "TRUE"), n // 4, 60, "Y", 10)
    # very many updates outstanding at once
    m = ctx.size(3, 10)
    many = 'Counts = {{{}}} Deliveries = {{{}}} SameOrder = {}'
    counts = "37, 67, 131, 257"
    sc += ctx.generate("HaloManyGen", many.format(counts, '"eager"', "FALSE"), m, 5, "m", 4)
    sc += ctx.generate("HaloManyGen", many.format(counts, '"rendezvous", "mixed"', "TRUE"), m, 5, "M", 5)
    sc += ctx.generate("HaloManyGen", many.format("257", '"rendezvous"', "TRUE"), 1, 5, "W", 6)
    sc.append(finding())
    ctx.conform("halo_async", "HaloAsyncTrace", sc, chunk=120)


def finding():
    """waits in different orders on different ranks, when sends complete only on receipt"""
    Q = [
        {"axis": "y", "iface": 0, "origin": 1, "extent": 1, "shape": 3},
        {"axis": "x", "iface": 0, "origin": 1, "extent": 1, "shape": 3},
    ]
    f = {"kind": "scalar", "mem": "C", "qs": [Q]}
    up = [{"field": 1, "kind": "scalar", "npts": 1}, {"field": 2, "kind": "scalar", "npts": 1}]
    return {
        "id": "wait-orders-differ", "L": 1, "n": 1, "seed": 1, "delivery": "rendezvous",
        "policy": "rr", "dtype": "float64", "fields": [f, f], "nf": 2, "np": 1,
        "phases": [
            {
                "starts": up, "waits": [[1, 2], [2, 1], [1, 2], [2, 1], [1, 2], [2, 1]],
                "writes": [[0, 0]] * 6,
            }
        ],
    }
