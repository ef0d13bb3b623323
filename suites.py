"""What each property's check runs: design models, and scenarios for the conformance harness."""

PROPS = {}

def lines(test):
    return [" ".join(str(x) for x in op) for op in test]

def amplify(scns, suite, rng, straight=False):
    """Has some of the scenarios played much louder or quieter, and with gains as much larger or smaller (see set_scale in harness/src/util.rs)."""
    if suite not in ("dev", "graph", "simple", "block", "chan", "fmt", "misc"):
        return
    lo, hi = (-55, 30) if suite == "block" else (-90, 60)
    some = [-90, -60, -40, -24, -12, -6, 8, 16, 30, 60]
    for s in scns:
        if rng.random() < 0.4:
            k = max(lo, min(hi, rng.choice(some)))
            if any(x.startswith("lerp f32") for x in s):
                k = max(-30, min(45, k))   # so that products of differences don't overflow, in whichever order
            g = h = 0
            if rng.random() < 0.6:
                # Where samples come by the input gain as often as by the output gain.
                if suite == "simple" or suite == "graph" and straight:
                    g = max(lo - k, min(hi - k, rng.choice(some)))
                if suite in ("simple", "chan", "dev") or suite == "graph" and straight:
                    h = max(lo - k - g, min(hi - k - g, rng.choice(some)))
            s.insert(0, "loud %d %d %d" % (k, g, h))

def thorough(tier):
    return tier == "thorough"

# ------------------------------------------------------------- complex sounds

def graph_tests(n, want=None):
    """A sample of the design model's transitions, as scripts."""
    def make(tests, rng, tier):
        if want:
            tests = [t for t in tests if any(op[0] in want for op in t)]
        k = n if tier == "quick" else 20 * n
        pick = tests if len(tests) <= k else rng.sample(tests, k)
        return [["new 1 1"] + lines(t) for t in pick]
    return make

def every_graph(rng, tier):
    """Walks through every graph of the gains and two blocks of which the
    connections out of the output gain and into the input gain are left out
    in the quick tier (they don't constrain the order), an edge per step."""
    nodes = 4
    pairs = [(a, b) for a in range(nodes) for b in range(nodes)]
    if tier == "quick":
        pairs = [(a, b) for a, b in pairs if a != 1 and b != 0]
    r = []
    fixed = pairs[:3]
    free = pairs[3:]
    rng.shuffle(free)
    for m in range(8):
        s = ["new 1 1", "blk raw 2 1", "blk mod 3 2"]
        s += ["con %d %d" % p for i, p in enumerate(fixed) if m >> i & 1]
        on = set()
        for g in range(1, 1 << len(free)):
            e = (g & -g).bit_length() - 1
            p = free[e]
            s.append(("dis" if e in on else "con") + " %d %d" % p)
            on ^= {e}
            if rng.random() < 0.1:
                s.append("proc %d" % rng.randint(0, 9))
            elif rng.random() < 0.05:
                absent = [q for i, q in enumerate(free) if i not in on]
                s.append(rng.choice(["pause", "mute"] + ["dis %d %d" % q for q in absent[:2]]))
        r.append(s)
    return r

def dags5(rng, tier):
    """Graphs without cycles, each grown edge by edge in random order: no edit may break the order of an earlier one."""
    r = []
    for _ in range(60 if tier == "quick" else 600):
        n = rng.randint(3, 9)
        s = ["new 1 1"] + ["blk %s %d %d" % (rng.choice(["raw", "mod"]), rng.randint(1, 9), rng.randint(1, 9)) for _ in range(n)]
        rank = list(range(2, n + 2))
        rng.shuffle(rank)
        rank = [0] + rank + [1]
        es = [(rank[i], rank[j]) for i in range(n + 2) for j in range(i + 1, n + 2)]
        rng.shuffle(es)
        es = es[:rng.randint(n, min(len(es), 4 * n))]
        still = rng.choice([0, 0, 0.1, 0.4])
        for e in es:
            if rng.random() < still:
                s.append(rng.choice(["pause", "mute"]))
            s.append("con %d %d" % e)
            if rng.random() < 0.2:
                s.append("proc %d" % rng.randint(0, 9))
            if rng.random() < 0.15:
                s.append("dis %d %d" % rng.choice(es))
            if rng.random() < 0.1:
                # The other way around there's nothing to remove.
                s.append("dis %d %d" % rng.choice(es)[::-1])
        s += ["proc 3", "proc 1"]
        r.append(s)
    return r

def random_graphs(edits, procs, toggles=0.0, count=60, big=10):
    def make(rng, tier):
        r = []
        for _ in range(count if tier == "quick" else 10 * count):
            gain = rng.choice([(1, 1), (1, 1), (-1, 1), (1, 0), (1, -1), (0, 1), (2, 1), (1, 2), (0.5, 1), (2, 0.5)])
            feedback = all(abs(g) in (0, 1) for g in gain)
            s = ["new %g %g" % gain]
            n = 2
            on = []
            dense = rng.random()
            loop = rng.choice([(0, 0), (1, 1), (1, 0)])  # more than one of these and samples grow beyond what's exact
            for _ in range(rng.randint(15, edits)):
                x = rng.random()
                if n < 4 or (x < 0.2 and n < rng.randint(4, big)):
                    s.append("blk %s %d %d" % (rng.choice(["raw", "raw", "mod", "gen"]), rng.randint(1, 9), rng.randint(1, 50)))
                    n += 1
                elif x < 0.35 and on and rng.random() > dense * 0.7:
                    e = rng.choice(on)
                    if rng.random() < 0.9:
                        on.remove(e)
                    else:
                        e = (rng.randrange(n), rng.randrange(n))
                        if e in on:
                            on.remove(e)
                    s.append("dis %d %d" % e)
                elif x < 0.75:
                    a, b = rng.randrange(n), rng.randrange(n)
                    if rng.random() < 0.3:
                        b = 1
                    if not feedback and (b == 0 or a == 1) or (a, b) in [(0, 0), (1, 1), (1, 0)] and (a, b) != loop:
                        continue
                    s.append("con %d %d" % (a, b))
                    if (a, b) not in on:
                        on.append((a, b))
                elif x < 0.78:
                    s.append(rng.choice(["reg %d" % rng.randint(0, 999), "unreg"]))
                if rng.random() < toggles:
                    s.append(rng.choice(["pause", "mute"]))
                if rng.random() < 0.04:
                    s.append(rng.choice(["copy", "twin %d %d" % (rng.randrange(n), rng.randrange(n))]))
                if rng.random() < procs:
                    s += ["proc %d" % rng.choice([rng.randint(-9, 9), rng.randint(-9, 9), 0])] * rng.choice([1, 1, 1, 3])
            r.append(s + ["proc 5", "proc 0"])
        return r
    return make

def large_graphs(order):
    """Stars, long chains, and blocks by the dozen."""
    def make(rng, tier):
        r = []
        raw = lambda: "blk %s %d %d" % (rng.choice(["raw", "raw", "mod", "gen"]), rng.randint(1, 9), rng.randint(1, 50))
        procs = ["proc 3", "proc -2", "proc 0"]
        for n in (12, 20, 36, 45, 70, 90) if tier == "quick" else (12, 20, 36, 70, 140, 200, 300):
            ids = range(2, n + 2)
            # one to all to one; block by block
            r.append(["new 1 1"] + [x for i in ids for x in (raw(), "con 0 %d" % i, "con %d 1" % i)] + procs)
            # all from one block, in a random order, cut back again
            es = ["%d %d" % (2, i) for i in ids if i > 2] + ["%d 1" % i for i in ids]
            rng.shuffle(es)
            r.append(["new 1 1"] + [raw() for _ in ids] + ["con " + e for e in es] + procs + ["dis " + e for e in es[::3]] + procs)
            # a chain, connected in a random order
            c = list(ids)
            rng.shuffle(c)
            es = list(zip([0] + c, c + [1]))
            rng.shuffle(es)
            r.append(["new 1 1"] + [raw() for _ in ids] + ["con %d %d" % e for e in es] + procs)
            # unconnected ones
            r.append(["new 1 1"] + [raw() for _ in ids] + procs)
            # at random
            es = [(rng.choice(ids), rng.choice(ids)) for _ in range(2 * n)]
            r.append(["new 1 1"] + [raw() for _ in ids] + ["con %d %d" % e for e in es] + procs + ["dis %d %d" % e for e in es[:n]] + procs)
        # more than a byte counts
        c = list(range(2, 272))
        rng.shuffle(c)
        r.append(["new 1 1"] + [raw() for _ in c] + ["con %d %d" % e for e in zip([0] + c, c + [1])][::-1] + procs)
        return r
    return make

def long_graphs(rng, tier):
    """Thousands of passes muted, paused and neither."""
    r = []
    for _ in range(12):
        k = rng.randint(1, 5)
        s = ["new 1 1"] + ["blk %s %d %d" % (rng.choice(["raw", "mod", "gen"]), rng.randint(1, 9), rng.randint(1, 50)) for _ in range(k)]
        rank = [0] + rng.sample(range(2, k + 2), k) + [1]
        s += ["con %d %d" % (rank[i], rank[j]) for i in range(k + 2) for j in range(i + 1, k + 2) if rng.random() < 0.6 or j == i + 1]
        for _ in range(rng.randint(3, 6)):
            s += [rng.choice(["mute", "pause", "reg 3", "copy"]), "run %d %d" % (rng.choice([10, 1000, rng.randint(1, 70000 if tier == "quick" else 10**6)]), rng.randint(-5, 5)), rng.choice(["mute", "pause", "unreg"]), "proc %d" % rng.randint(-9, 9), "proc 1"]
        r.append(s)
    return r

def long_simple(rng, tier):
    r = []
    for _ in range(12):
        kind = lambda: "%s %d %d" % (rng.choice(["raw", "raw", "mod", "gen"]), rng.randint(0, 9), rng.randint(1, 50))
        s = ["new 1 1 " + kind()] + ["add " + kind() for _ in range(rng.randint(0, 3))]
        for _ in range(rng.randint(3, 6)):
            s += [rng.choice(["mute", "pause", "reg 3", "og 2"]), "run %d %d" % (rng.choice([10, 1000, rng.randint(1, 70000 if tier == "quick" else 10**6)]), rng.randint(-5, 5)), rng.choice(["mute", "pause", "unreg", "ig 2"]), "proc %d" % rng.randint(-9, 9), "proc 1"]
        r.append(s)
    for k in (66000, 140000):
        kind = lambda: "%s %d %d" % (rng.choice(["raw", "mod", "gen"]), rng.randint(0, 9), rng.randint(1, 50))
        r.append(["new 1 1 " + kind(), "add " + kind(), "run %d 1" % (k + rng.randint(0, 9)), "proc 1", "proc 2", "og 2", "proc 3", "run 400 1", "proc 1"])
    return r

def long_chains(rng, tier):
    """Modifiers by the dozen."""
    r = []
    for n in (9, 17, 33, 40, 65, 130, 300):
        kind = lambda: "%s %d %d" % (rng.choice(["raw", "mod"]), rng.randint(1, 9), rng.randint(1, 50))
        s = ["new 1 1 " + kind()]
        while n > 0:
            k = rng.choice([1, 1, 5, n])
            s.append("ext " + " ".join(kind() for _ in range(min(k, n))))
            n -= k
            s.append("proc %d" % rng.randint(-9, 9))
        r.append(s + ["proc 1", "add " + kind(), "proc 2", "mute", "proc 2", "mute", "proc 2"])
    return r

MG = dict(cfg="MC_Graph.cfg", module="MC_Graph", workers=4)
MGE = dict(cfg="MC_Graph_Emit.cfg", module="MC_Graph", emit=True)
MGT = dict(cfg="MC_Graph_Big.cfg", module="MC_Graph", workers=6, tiers=("thorough",))
ORDER, FLOW = dict(CHECK="order"), dict(CHECK="flow")

PROPS["C01"] = dict(
    models=[MG, MGE, MGT],
    parts=[
        dict(name="transitions", suite="graph", trace="Trace_Graph", env=ORDER, emit="MC_Graph_Emit.cfg", make=graph_tests(3000)),
        dict(name="every_graph", suite="graph", trace="Trace_Graph", env=ORDER, make=every_graph),
        dict(name="dags", suite="graph", straight=True, trace="Trace_Graph", env=ORDER, make=dags5),
        dict(name="random", suite="graph", trace="Trace_Graph", env=ORDER, make=random_graphs(90, 0.2, 0.08)),
        dict(name="large", suite="graph", straight=True, trace="Trace_Graph", env=ORDER, make=large_graphs(True)),
    ],
    assumptions=["get_nodes reports the order of the next pass", "blocks are the harness's own (their runs are recorded)"])
PROPS["C02"] = dict(
    models=[MG, MGE, MGT],
    parts=[
        dict(name="transitions", suite="graph", trace="Trace_Graph", env=FLOW, emit="MC_Graph_Emit.cfg", make=graph_tests(3000, {"proc"})),
        dict(name="dags", suite="graph", straight=True, trace="Trace_Graph", env=FLOW, make=dags5),
        dict(name="random", suite="graph", trace="Trace_Graph", env=FLOW, make=random_graphs(90, 0.6, count=80)),
        dict(name="large", suite="graph", straight=True, trace="Trace_Graph", env=FLOW, make=large_graphs(False)),
        dict(name="long", suite="graph", trace="Trace_Graph", env=FLOW, make=long_graphs),
        dict(name="toggled", suite="graph", trace="Trace_Graph", env=FLOW, make=random_graphs(60, 0.6, 0.4, count=40)),
    ],
    assumptions=["which of the allowed orders is in force is read from the sound (C01 decides that it is one)",
                 "samples are small multiples of 1/4, on which f32 arithmetic is exact"])

# ------------------------------------------------------------- simple sounds

def simple_tests(n, want=None):
    def make(tests, rng, tier):
        if want:
            tests = [t for t in tests if any(op[0] in want for op in t)]
        pick = tests if len(tests) <= n or tier != "quick" else rng.sample(tests, n)
        return [["new 1 1 raw 2 1"] + lines(t) + (["proc 1"] if k % 3 == 0 else []) for k, t in enumerate(pick)]
    return make

def random_simple(toggles, count):
    def make(rng, tier):
        r = []
        gains = [1, 1, 2, 0.5, 0, -1, -2, 512, -1024]
        inputs = lambda: rng.choice([rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-9, 9), 0, rng.randint(-999, 999)])
        for _ in range(count if tier == "quick" else 10 * count):
            kind = lambda: "%s %d %d" % (rng.choice(["raw", "raw", "mod", "gen"]), rng.randint(0, 9), rng.randint(1, 50))
            s = ["new %g %g %s" % (rng.choice(gains), rng.choice(gains), kind())]
            n = 1
            for _ in range(rng.randint(10, 60)):
                x = rng.random()
                if x < 0.12 and n < 9:
                    s.append("add " + kind())
                    n += 1
                elif x < 0.18 and n < 7:
                    k = rng.randint(0, 3)
                    s.append("ext " + " ".join(kind() for _ in range(k)) if k else "ext")
                    n += k
                elif x < 0.30:
                    s.append("ig %g" % rng.choice(gains))
                elif x < 0.40:
                    s.append("og %g" % rng.choice(gains))
                elif x < 0.44:
                    s.append(rng.choice(["reg %d" % rng.randint(0, 999), "unreg"]))
                elif x < 0.44 + toggles:
                    s.append(rng.choice(["pause", "mute"]))
                elif x < 0.48 + toggles:
                    s.append(rng.choice(["copy", "twin %g %g" % (rng.choice(gains), rng.choice(gains))]))
                else:
                    s.append("proc %d" % inputs())
            r.append(s)
        return r
    return make

MS = dict(cfg="MC_Simple.cfg", module="MC_Simple")
MSE = dict(cfg="MC_Simple_Emit.cfg", module="MC_Simple", emit=True)
PROPS["C03"] = dict(
    models=[MG, MGE, MS, MSE],
    parts=[
        dict(name="complex_transitions", suite="graph", trace="Trace_Graph", env=FLOW, emit="MC_Graph_Emit.cfg", make=graph_tests(2000, {"pause", "mute"})),
        dict(name="complex_random", suite="graph", trace="Trace_Graph", env=FLOW, make=random_graphs(60, 0.6, 0.4, count=50)),
        dict(name="simple_transitions", suite="simple", trace="Trace_Simple", emit="MC_Simple_Emit.cfg", make=simple_tests(3000, {"pause", "mute"})),
        dict(name="simple_random", suite="simple", trace="Trace_Simple", make=random_simple(0.3, 60)),
        dict(name="complex_long", suite="graph", trace="Trace_Graph", env=FLOW, make=long_graphs),
        dict(name="simple_long", suite="simple", trace="Trace_Simple", make=long_simple),
    ],
    assumptions=["that nothing inside advances shows in the harness's blocks, whose output depends on how often they ran"])
PROPS["C04"] = dict(
    models=[MS, MSE],
    parts=[
        dict(name="transitions", suite="simple", trace="Trace_Simple", emit="MC_Simple_Emit.cfg", make=simple_tests(4000)),
        dict(name="random", suite="simple", trace="Trace_Simple", make=random_simple(0.08, 150)),
        dict(name="long", suite="simple", trace="Trace_Simple", make=long_simple),
        dict(name="chains", suite="simple", trace="Trace_Simple", make=long_chains),
    ],
    assumptions=["samples are small multiples of 1/4, on which f32 arithmetic is exact"])

# ------------------------------------------------------------- blocks

def block_tests(tests, rng, tier):
    pick = tests if tier != "quick" or len(tests) < 6000 else rng.sample(tests, 6000)
    return [lines(t) for t in pick]

def random_blocks(rng, tier):
    r = []
    for _ in range(150 if tier == "quick" else 1500):
        k = rng.choice(["new", "new", "new", "gen", "mod"])
        it = rng.choice(["def", "gp", "mp", "own"])
        s = ["new %d %d %d %s" % (rng.randint(1, 9), rng.randint(1, 50), rng.randint(1, 50), it)] if k == "new" else \
            ["gen %d" % rng.randint(1, 50)] if k == "gen" else ["mod %d %d" % (rng.randint(1, 9), rng.randint(1, 50))]
        for _ in range(rng.randint(10, 50)):
            x = rng.random()
            if x < 0.4:
                s.append("prime %g" % rng.choice([rng.randint(-20, 20), rng.randint(-40, 40) / 4]))
            elif x < 0.8:
                s.append("proc")
            elif x < 0.84 and k != "mod":
                s.append(rng.choice(["swapg %d" % rng.randint(1, 50), "callg"]))
            elif x < 0.88 and k != "gen":
                s.append(rng.choice(["swapm %d %d" % (rng.randint(1, 9), rng.randint(1, 50)), "callm %d" % rng.randint(0, 20)]))
            elif x < 0.9:
                s.append("same")
        r.append(s)
    return r

def crowded_blocks(rng, tier):
    """Blocks primed by the hundred between two runs."""
    r = []
    for n in (9, 17, 33, 70, 130, 300, 1100, 3000):
        k = rng.choice(["new", "mod"])
        s = ["new %d %d %d %s" % (rng.randint(1, 9), rng.randint(1, 50), rng.randint(1, 50), rng.choice(["def", "mp", "own"]))] if k == "new" else \
            ["mod %d %d" % (rng.randint(1, 9), rng.randint(1, 50))]
        r.append(s + ["prime %g" % (rng.randint(-40, 80) / 4) for _ in range(n)] + ["proc", "prime 3", "proc", "proc"])
    return r

def endless_blocks(rng, tier):
    """Tens of thousands of runs."""
    r = []
    for n in [300, 2000, 66000, 70000, 140000] * (1 if tier == "quick" else 4):
        for k in ("new", "mod", "gen"):
            s = [{"new": "new %d %d %d %s" % (rng.randint(1, 9), rng.randint(1, 50), rng.randint(1, 50), rng.choice(["def", "gp", "mp", "own"])),
                  "mod": "mod %d %d" % (rng.randint(1, 9), rng.randint(1, 50)), "gen": "gen %d" % rng.randint(1, 50)}[k]]
            r.append(s + ["prime 5", "run %d %d" % (n + rng.randint(0, 9), rng.randint(0, 9)), "proc", "prime 2", "prime 3", "proc", "run %d 1" % rng.randint(2, 2000), "proc"])
    return r

PROPS["C05"] = dict(
    models=[dict(cfg="MC_Block.cfg", module="MC_Block", emit=True)],
    parts=[
        dict(name="transitions", suite="block", trace="Trace_Block", emit="MC_Block.cfg", make=block_tests),
        dict(name="random", suite="block", trace="Trace_Block", make=random_blocks),
        dict(name="crowded", suite="block", trace="Trace_Block", make=crowded_blocks),
        dict(name="endless", suite="block", trace="Trace_Block", make=endless_blocks),
    ],
    assumptions=["samples are small multiples of 1/4, on which f32 arithmetic is exact"])

# ------------------------------------------------------------- channels

def chan_tests(tests, rng, tier):
    last = [t for t in tests if t[-1][0] == "proc"]
    rest = [t for t in tests if t[-1][0] != "proc"]
    if tier == "quick":
        last, rest = rng.sample(last, min(len(last), 2000)), rng.sample(rest, min(len(rest), 1500))
    return [lines(t) + (["proc"] if k % 4 == 0 and ["time", 0, 62500] in t else []) for k, t in enumerate(last + rest)]

def random_channels(edits, count):
    def make(rng, tier):
        r = []
        for k in range(count if tier == "quick" else 10 * count):
            sf = rng.choice(["mono", "stereo"])
            s = ["new %s %g" % (sf, rng.choice([1, 1, 2, 0.5, 0, -1]))]
            n, live = 0, []
            if rng.random() < 0.8:
                s.append("time 0 %d" % rng.choice([0, 20833, 20834, 41666, 41667, 62500, 104166, 104167, 500000]))
            for _ in range(rng.randint(8, edits)):
                x = rng.random()
                if x < 0.3 and n < 12:
                    n += 1
                    keep = rng.random() < 0.25
                    kind = rng.choice(["test", "simple", "complex"])
                    st = rng.choice([0, 0, 0, 1, 2, 3])
                    if kind != "test" and rng.random() < 0.3:
                        # Made apart, played and toggled, in and out, in again.
                        s.append("make %s %d %d %d" % (kind, n, rng.randint(1, 100), st))
                        fiddle = lambda: s.extend(rng.choice([["solo %d" % n], ["solo %d" % n] * 3, ["tog %d %d" % (n, rng.randint(1, 3))], ["id %d" % n]]) if reg else rng.choice([["solo %d" % n], ["tog %d %d" % (n, rng.randint(1, 3))]]))
                        reg = True
                        # Someone else's id: one of this channel's, before or to come, or any.
                        foreign = lambda: s.append("regs %d %d" % (n, rng.choice([-1, 0, 1, 5, 1000] + [rng.randint(0, n + 5) for _ in range(6)])))
                        for _ in range(rng.randint(0, 3)):
                            fiddle()
                            if rng.random() < 0.3:
                                foreign()
                        for _ in range(rng.choice([0, 0, 1, 2, 3])):
                            s += ["join %d 1" % n, "id %d" % n, "rem s %d" % n]
                            if rng.random() < 0.3:
                                s += ["rem o %d" % n]
                            reg = False
                            if rng.random() < 0.4:
                                foreign()
                            for _ in range(rng.randint(0, 3)):
                                fiddle()
                        s.append("join %d 0" % n)
                        if not reg and rng.random() < 0.3:
                            s.append("rem o %d" % n)    # an id of the past
                        live.append(n)
                        continue
                    s.append("add %s %d %d %d %d" % (kind, n, rng.randint(1, 100), keep, st))
                    live.append(n)
                    if keep:
                        k = n
                        s.append("id %d" % k)
                        if rng.random() < 0.5:
                            n += 1
                            live.append(n)
                            s += ["add test %d %d 0" % (n, rng.randint(1, 9)), "id %d" % k]
                        s.append("drop %d" % k)
                elif x < 0.45 and n:
                    m = rng.choice(live) if live and rng.random() < 0.75 else rng.randint(1, n)
                    s.append("rem s %d" % m)
                    if m in live:
                        live.remove(m)
                elif x < 0.5:
                    s.append("rem i %d" % rng.choice([1000, 10**6, 2**30 - 1]))
                elif x < 0.6:
                    s.append("gain %g" % rng.choice([1, 2, 0.5, 0, -1, 3, 512 if sf == "mono" else 8]))
                elif x < 0.66:
                    s.append("time %d %d" % (0, rng.choice([0, 20833, 20834, 41666, 41667, 62500, 104166, 229166, 1000000])))
                elif x < 0.7:
                    s.append("copy")
                    if s[-2] == "proc":
                        s.append("out")
                else:
                    s.append("proc")
                    if rng.random() < 0.3:
                        s.append("out")
            r.append(s + ["proc"])
        return r
    return make

def two_channel_tests(tests, rng, tier):
    tests = [t for t in tests if any(o[0] == "open" for o in t)]
    if tier == "quick":
        tests = rng.sample(tests, min(len(tests), 1200))
    return [lines(t) + ["proc"] for t in tests]

def several_channels(rng, tier):
    """Channels side by side, with sounds of their own under the same ids, and sounds that go from one to another."""
    r = []
    for _ in range(60 if tier == "quick" else 600):
        s = ["new %s %g" % (rng.choice(["mono", "stereo"]), rng.choice([1, 2, 0.5]))]
        live, ran, cur, n = {0: []}, {}, 0, 0
        s.append("time 0 %d" % rng.choice([20834, 41667, 62500]))
        def add():
            nonlocal n
            n += 1
            kind = rng.choice(["test", "simple", "complex"])
            s.append("add %s %d %d 0 %d" % (kind, n, rng.randint(1, 100), rng.choice([0, 0, 0, 1, 2, 3])))
            live[cur].append(n)
        def turn():
            nonlocal cur
            # What goes around is in no channel that's run.
            ran[cur] = s[-1] == "proc"
            cur = rng.choice(list(live))
            s.append("on %d" % cur)
            if ran.get(cur):
                s.append("out")     # still what its last pass left
        for _ in range(rng.randint(10, 40)):
            x = rng.random()
            if x < 0.12 and len(live) < 4:
                cur = len(live)
                live[cur] = []
                s.append("open %d %s %g" % (cur, rng.choice(["mono", "stereo"]), rng.choice([1, 2, 0.5, 0])))
                s.append("time 0 %d" % rng.choice([0, 20834, 41667, 62500, 104166]))
                for _ in range(rng.randint(0, 3)):
                    add()
            elif x < 0.3:
                turn()
            elif x < 0.45 and n < 14:
                add()
            elif x < 0.55 and n < 14:
                # One that goes from channel to channel before it stays.
                n += 1
                s.append("make %s %d %d %d" % (rng.choice(["simple", "complex"]), n, rng.randint(1, 100), rng.choice([0, 0, 1, 2])))
                for _ in range(rng.randint(1, 4)):
                    s += ["join %d 1" % n, "id %d" % n]
                    here = cur
                    if rng.random() < 0.5:
                        turn()
                        if cur != here:
                            s.append("proc")
                        # The same number in another channel is another sound, or none.
                        cur = here
                        s.append("on %d" % here)
                    s.append("rem s %d" % n)
                    if rng.random() < 0.6:
                        s.append("solo %d" % n)
                    turn()
                s.append("join %d 0" % n)
                live[cur].append(n)
            elif x < 0.65 and live[cur]:
                m = rng.choice(live[cur])
                live[cur].remove(m)
                s.append("rem s %d" % m)
            elif x < 0.7:
                s.append("rem i %d" % rng.randint(1000, 9999))
            elif x < 0.76:
                s.append("gain %g" % rng.choice([1, 2, 0.5, 3]))
            elif x < 0.8:
                s.append("time 0 %d" % rng.choice([0, 20834, 41667, 62500]))
            elif x < 0.83:
                s.append("copy")
            else:
                s.append("proc")
        for k in live:
            s += ["on %d" % k, "proc"]
        r.append(s)
    return r

def long_channels(rng, tier):
    """Process times up to seconds, and the 10 ms a channel starts with."""
    r = []
    for sec, ns in [(None, 0), (0, 9999999), (0, 10000000), (0, 999999999), (1, 0), (1, 20833), (2, 999999999)]:
        s = ["new %s 1" % rng.choice(["mono", "stereo"]), "add test 1 3 0", "add simple 2 5 0"]
        if sec is not None:
            s.append("time %d %d" % (sec, ns))
        r.append(s + ["proc", "gain 2", "rem s 1", "proc", "out"])
    return r

def many_ids(rng, tier):
    r = []
    for _ in range(3):
        s = ["new mono 1", "time 0 62500"]
        live = []
        for n in range(1, 160):
            s.append("add test %d %d 0" % (n, n % 100 + 1))
            live.append(n)
            while len(live) > rng.randint(0, 6):
                m = live.pop(rng.randrange(len(live)))
                s.append("rem s %d" % m)
                if rng.random() < 0.2:
                    s.append("rem s %d" % m)
            if rng.random() < 0.2:
                s.append("proc")
        r.append(s)
    return r

def crowds(rng, tier):
    """Sounds by the dozen."""
    r = []
    for k in (17, 33, 65, 129, 257):
        s = ["new %s 1" % rng.choice(["mono", "stereo"]), "time 0 %d" % rng.choice([20834, 41667])]
        live = []
        for n in range(1, k + 1):
            s.append("add %s %d %d 0" % (rng.choice(["test", "simple", "complex"]), n, rng.randint(1, 100)))
            live.append(n)
        s += ["proc", "gain 2", "proc"]
        for n in rng.sample(live, k // 2):
            s.append("rem s %d" % n)
        r.append(s + ["proc", "proc"])
    return r

def endless_channels(rng, tier):
    """Tens of thousands of passes, and sounds that come and go between them."""
    r = []
    for k in [300, 2000, 66000, 140000] * (1 if tier == "quick" else 4):
        s = ["new %s 1" % rng.choice(["mono", "mono", "stereo"]), "time 0 %d" % rng.choice([20834, 41667]), "add test 1 7 0", "passes %d" % (k + rng.randint(0, 9)),
             "proc", "add simple 2 %d 0 %d" % (rng.randint(1, 100), rng.choice([0, 0, 2])), "gain 2", "passes %d" % rng.randint(1, 1000), "rem s 1", "proc", "add complex 3 11 0", "passes 7", "out"]
        r.append(s)
    return r

def churns(rng, tier):
    """So many ids that one of 8 or 16 bits would come around."""
    r = []
    for k in ([255, 256, 300, 1000, 66000] if tier == "quick" else [255, 256, 65535, 65536, 200000]):
        s = ["new %s 1" % rng.choice(["mono", "stereo"]), "time 0 41667", "add test 1 7 0", "add simple 2 9 0", "proc", "churn %d" % k, "proc"]
        s += ["add complex 3 11 0", "add test 4 3 0", "proc", "rem s 2", "churn 3", "proc", "rem s 1", "rem s 3", "proc"]
        r.append(s)
    return r

MC = dict(cfg="MC_Channel.cfg", module="MC_Channel")
MCE = dict(cfg="MC_Channel_Emit.cfg", module="MC_Channel", emit=True)
MC2 = dict(cfg="MC_Channel_Two.cfg", module="MC_Channel")
MC2E = dict(cfg="MC_Channel_TwoEmit.cfg", module="MC_Channel", emit=True)
TWO = [dict(name="two", suite="chan", trace="Trace_Channel", emit="MC_Channel_TwoEmit.cfg", make=two_channel_tests),
       dict(name="several", suite="chan", trace="Trace_Channel", make=several_channels)]
PROPS["C06"] = dict(
    models=[MC, MCE, MC2, MC2E],
    parts=[
        dict(name="transitions", suite="chan", trace="Trace_Channel", emit="MC_Channel_Emit.cfg", make=chan_tests),
        dict(name="random", suite="chan", trace="Trace_Channel", make=random_channels(40, 150)),
        dict(name="long", suite="chan", trace="Trace_Channel", make=long_channels),
        dict(name="crowds", suite="chan", trace="Trace_Channel", make=crowds),
        dict(name="endless", suite="chan", trace="Trace_Channel", make=endless_channels),
        *TWO,
    ],
    known={"held": ("chan", "Trace_Channel", {}, ["new mono 1", "add test 1 3 1", "proc"])},
    assumptions=["samples are small integers, on which mono mixing is exact; stereo within 1/256",
                 "the channel holds the only handle of its sounds while it processes (see known_findings.txt)"])
PROPS["C07"] = dict(
    models=[MC, MCE, MC2, MC2E],
    parts=[
        dict(name="transitions", suite="chan", trace="Trace_Channel", emit="MC_Channel_Emit.cfg", make=chan_tests),
        dict(name="random", suite="chan", trace="Trace_Channel", make=random_channels(60, 150)),
        dict(name="many", suite="chan", trace="Trace_Channel", make=many_ids),
        dict(name="churns", suite="chan", trace="Trace_Channel", make=churns),
        *TWO,
        dict(name="complex_ids", suite="graph", trace="Trace_Graph", env=FLOW, make=random_graphs(60, 0.1, count=20)),
        dict(name="simple_ids", suite="simple", trace="Trace_Simple", make=random_simple(0.08, 20)),
    ],
    known={"held": ("chan", "Trace_Channel", {}, ["new mono 1", "add simple 1 3 1", "rem s 1", "id 1"])},
    assumptions=["the channel holds the only handle of a sound it removes (see known_findings.txt)"])

import suites_dev
suites_dev.install(PROPS)
import suites_io
suites_io.install(PROPS)

NOT_APPLICABLE = {}
