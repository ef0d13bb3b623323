"""Scenarios for generators, modifiers and sample players (suite "dev")."""
import math

S = 1 << 24
OSC = ["sine", "saw", "square", "tri"]
PLAYERS = ["resam", "wavt", "wav"]
KINDS = OSC + ["noise", "zero", "gain", "pass", "delay", "echo", "generic", "lp", "hp", "bp", "bpc", "env", "adsr"] + PLAYERS

def q(rng):
    """A quick or a thorough number of something."""
    return lambda tier, n, m=10: n if tier == "quick" else m * n

def sample(rng):
    return rng.choice([0, S, -S, S // 2, -S // 4, 1, -1, rng.randint(-S, S), rng.randint(-S, S), rng.randint(-4 * S, 4 * S) // 4 * 4])

def ins(rng, n):
    return " ".join(str(sample(rng)) for _ in range(n))

def fins(rng, n):
    """Inputs of filters, which may amplify a lot."""
    return " ".join(str(max(-S, min(S, sample(rng))) // 2) for _ in range(n))

def logint(rng, lo, hi):
    return min(hi, max(lo, int(round(math.exp(rng.uniform(math.log(lo), math.log(hi)))))))

def freq(rng):
    return rng.choice([lambda: rng.choice([1, 1000, 440000, 12000000, 24000000, 23999999, 16000000, 8000000, 6000000, 3000000, 48000, 125]),
                       lambda: logint(rng, 1, 24000000), lambda: rng.randint(1, 24000000),
                       lambda: 48000000 // rng.randint(2, 4000)])()

def dur(rng, big=200):
    """Seconds and nanoseconds of up to so many samples, often around the middle between two."""
    n = rng.randint(0, big)
    x = rng.random()
    if x < 0.25:   # ties: odd multiples of 31250/3 ns which are whole
        ns = 31250 * (2 * (n // 3) + 1)
    elif x < 0.5:
        ns = int((n + 0.5) * 62500 / 3) + rng.choice([-1, 0, 1, 2])
    elif x < 0.75:
        ns = int(n * 62500 / 3) + rng.choice([0, 1])
    else:
        ns = rng.randint(0, big * 62500 // 3)
    return "%d %d" % (ns // 10**9, ns % 10**9)

def terms(rng, wild=False):
    big = rng.random() < 0.2
    def some(k, total):
        return [(rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, 12)]), rng.choice([rng.randint(-S, S), S, -S, S // 2])) for _ in range(k)] if k else []
    z = some(rng.choice([0, 1, 1, 2, 3, 5]), 4)
    if big and not wild:
        z = [(i, c * rng.choice([1, 3, 8])) for i, c in z]
    p = some(rng.choice([0, 0, 1, 2, 3]), 1)
    if p and not wild:
        w = sum(abs(c) for _, c in p)
        p = [(i, int(c * 0.95 * S / w)) for i, c in p]
    rng.shuffle(z)
    return " ".join(str(v) for v in [len(z)] + [v for t in z + p for v in t])

def weak(terms):
    """The same with half the poles."""
    t = [int(v) for v in terms.split()]
    for k in range(1 + 2 * t[0] + 1, len(t), 2):
        t[k] //= 2
        t[k] += t[k] < 0
    return " ".join(map(str, t))

def corner(rng):
    return rng.choice([logint(rng, 2000, 23900000), rng.choice([20000, 100000, 1000000, 12000000, 23000000])])

def quality(rng):
    return rng.choice([S, S // 2, S * 707 // 1000, 2 * S, 10 * S, 50 * S, S // 100, logint(rng, S // 100, 50 * S)])

def track(rng, n):
    v = [rng.choice([S, -S, 0, rng.randint(-S, S), rng.randint(-S, S)]) for _ in range(n)]
    x = rng.random()
    if n and x < 0.3:   # silence or a level at the start, at the end or in the middle
        a, b = sorted((rng.choice([0, rng.randint(0, n)]), rng.choice([n, rng.randint(0, n)])))
        v[a:b] = [rng.choice([0, 0, 0, S, rng.randint(-S, S)])] * (b - a)
    elif x < 0.4:       # quiet
        v = [a // 4096 for a in v]
    elif x < 0.5:       # loud
        v = [a * rng.choice([1, 2, 4]) for a in v]
    return " ".join(map(str, v))

def qrate(rng):
    """In quarters of Hz."""
    return rng.choice([4 * rate(rng), 4 * rate(rng), 4 * rate(rng) + rng.randint(0, 3), rng.randint(0, 2000), 0 if rng.random() < 0.3 else 192000])

def rate(rng):
    return rng.choice([48000, 48000, 44100, 22050, 96000, 24000, 192000, 8000, 11025, 32000, 1, 47999, 48001, 384000, 768000, 192001, rng.randint(1, 200000), rng.randint(1, 200000), rng.randint(200000, 2000000), rng.choice([4800000, 1 << 24, 1 << 28, (1 << 29) - 1])])

def codes(rng, bits, n):
    lo, hi = {8: (0, 255), 16: (-32768, 32767), 24: (-(1 << 23), (1 << 23) - 1)}[bits]
    v = [rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), 0]) for _ in range(n)]
    if n and rng.random() < 0.3:
        a, b = sorted((rng.choice([0, rng.randint(0, n)]), rng.choice([n, rng.randint(0, n)])))
        v[a:b] = [128 if bits == 8 else 0] * (b - a)
    return " ".join(map(str, v))

def loop(rng, n):
    s, e = rng.choice([(0, 0), (0, rng.randint(0, n + 3)), (rng.randint(1, n + 3), rng.randint(1, n + 3)), (rng.randint(1, n + 3), rng.randint(1, n + 3)),
                       (rng.choice([0, rng.randint(0, n + 3)]), logint(rng, n + 3, 1 << 30)), (logint(rng, n + 3, 1 << 30), rng.randint(1, n + 3))])
    return "%d %d" % (s, e)

def speed(rng):
    """In units of 1/3780."""
    return rng.choice([0, 1, 945, 1890, 3780, 3780, 5670, 7560, 1260, 540, 378, 2520, 21735, 37800, 378000, rng.randint(0, 3780) * 945, rng.randint(0, 15120), rng.randint(0, 75600),
                       rng.choice([logint(rng, 1, 10**9), 3780 * 10**rng.randint(1, 5)])])

def new(rng, kind, i):
    p = {
        "gain": lambda: str(sample(rng)),
        "delay": lambda: dur(rng, 40), "echo": lambda: dur(rng, 40) + " %d" % rng.choice([S // 2, -S // 2, S * 9 // 10, rng.randint(-S, S), 0]),
        "generic": lambda: terms(rng),
        "lp": lambda: "%d %d" % (cut(rng), reso(rng)), "hp": lambda: "%d %d" % (cut(rng), reso(rng)),
        "bp": lambda: "%d %d" % centre(rng), "bpc": lambda: "%d %d" % two_corners(rng),
        "env": lambda: "%d %d" % (envf(rng), envf(rng)),
        "adsr": lambda: "%d %d %d %d" % (stage(rng, 20), stage(rng, 20), level(rng), stage(rng, 20)),
        "resam": lambda: player(rng), "wavt": lambda: "%d L %s" % (qrate(rng), track(rng, rng.randint(0, 12))), "wav": lambda: wav(rng),
        "noise": lambda: "", "zero": lambda: "", "pass": lambda: "",
    }.get(kind, lambda: str(freq(rng)))()
    return ("new %d %s %s" % (i, kind, p)).strip()

def player(rng, n=None):
    n = rng.randint(0, 12) if n is None else n
    return ("%d %s L %s" % (qrate(rng), loop(rng, n), track(rng, n))).strip()

def wav(rng, n=None):
    b, c = rng.choice([8, 16, 24]), rng.choice([1, 1, 2, 3, 6])
    n = rng.randint(0, 12) if n is None else n
    return ("%d %d %d %s" % (b, c, rate(rng), codes(rng, b, n * c))).strip()

def cut(rng):
    return rng.choice([1000000, 440000, 12000000, 24000000, 30000000, 100000, 20000, logint(rng, 20000, 24000000), rng.randint(1000000, 24000000)])

def reso(rng):
    return rng.choice([0, S, S // 2, -S, 2 * S, S + 1, -1, rng.randint(0, S), rng.randint(0, S)])

def centre(rng):
    """Centre and quality with both corners in range."""
    while True:
        f, qq = corner(rng), quality(rng)
        h = f / (2 * qq / S)
        r = math.hypot(f, h)
        if f * f / (r + h) > 2000 and r + h < 23990000:
            return f, qq

def two_corners(rng):
    while True:
        a, b = corner(rng), corner(rng)
        if abs(a - b) * 50 > math.sqrt(a * b):
            return a, b

def envf(rng):
    return rng.choice([20000, 200000, 5000000, 12000000, logint(rng, 1000, 23000000), logint(rng, 1000, 12000000)])

def stage(rng, n):
    """A stage's time in microseconds, of up to so many samples."""
    return rng.choice([0, 21, 42, rng.randint(0, n * 1000 // 48), rng.randint(0, n * 1000 // 48)])

def level(rng):
    return rng.choice([-6000, -12000, 0, 3000, -60000, -200000, -100000, -rng.randint(90000, 120000), -1000, -rng.randint(0, 96000)])

def use(rng, kind, i, n):
    if kind in OSC + ["noise", "zero"] + PLAYERS:
        return "g %d %d" % (i, n)
    if kind == "adsr":
        return "p %d " % i + " ".join([str(rng.choice([S, S, S, S // 2, -S]))] * n)
    return "p %d %s" % (i, (fins if kind in ("lp", "hp", "bp", "bpc") else ins)(rng, n))

SETTERS = {"gain": "a", "lp": "fr", "hp": "fr", "bp": "fqc", "bpc": "fqc", "adsr": "R"}
SETTERS.update({k: "f" for k in OSC})
SETTERS.update({k: "s" for k in PLAYERS})

def sets(rng, kind, i, bp=None):
    """A change of one setting, and a look at it; bp tracks a band pass's settings to keep its corners in range."""
    w = rng.choice(SETTERS.get(kind, "-"))
    if w == "-":
        return []
    if w == "R":
        return ["set %d rel" % i]
    if kind in ("bp", "bpc"):
        return ["set %d c %d %d" % ((i,) + two_corners(rng)), "get %d c" % i, "get %d f" % i, "get %d q" % i]
    v = {"a": lambda: sample(rng), "f": lambda: cut(rng) if kind in ("lp", "hp") else freq(rng), "r": lambda: reso(rng), "s": lambda: speed(rng)}[w]()
    return ["set %d %s %d" % (i, w, v)] + (["get %d %s" % (i, w)] if rng.random() < 0.5 else [])

# ---------------------------------------------------------------- C08

def lifecycle_tests(tests, rng, tier):
    r = []
    cl = [t for t in tests if any(o[0] == "clone" for o in t)]
    for kind in KINDS:
        for t in rng.sample(cl, 40 if tier == "quick" else 600):
            s = [new(rng, kind, 0)]
            n = rng.choice([1, 2, 5, 17])
            for o in t:
                if o[0] == "use":
                    s.append(use(rng, kind, o[1], n))
                elif o[0] == "set":
                    s += sets(rng, kind, o[1])
                else:
                    s.append(" ".join(map(str, o)))
            live = {0} | {o[2] for o in t if o[0] == "clone"}
            live -= {o[1] for o in t if o[0] == "drop"}
            s += [use(rng, kind, i, 12) for i in sorted(live)]
            r.append(s)
    return r

def random_lives(rng, tier):
    r = []
    for kind in KINDS * (3 if tier == "quick" else 30):
        s = [new(rng, kind, 0)]
        live, n = [0], 1
        for _ in range(rng.randint(8, 25)):
            x, i = rng.random(), rng.choice(live)
            if x < 0.5:
                s.append(use(rng, kind, i, rng.randint(1, 20)))
            elif x < 0.65:
                s += sets(rng, kind, i)
            elif x < 0.9 and n < 8:
                s.append("clone %d %d" % (i, n))
                live.append(n)
                n += 1
            elif len(live) > 1:
                s.append("drop %d" % i)
                live.remove(i)
        s += [use(rng, kind, i, 30) for i in live]
        r.append(s)
    return r

def long_lives(rng, tier):
    """Clones of long lines and tracks, of filters of many terms, and of objects much used."""
    r = []
    for k in range(10 if tier == "quick" else 60):
        n = [48001, 72000, 130000, rng.randint(48000, 200000)][k % 4]
        ech = k % 2
        s = ["new 0 %s %s%s" % ("echo" if ech else "delay", samples_ns(n), " %d" % (S // 2) if ech else ""), "p 0 %d %d" % (S, S // 4), "skip 0 %d 0" % rng.choice([3, n - 5, n // 2]), "p 0 5 6"]
        s += ["clone 0 1", "clone 1 2", "drop 0", "p 1 %d 0 7" % -S, "skip 1 %d 0" % (n - 5), "p 1 0 0 0 0 0 0", "p 2 9", "skip 2 %d 0" % (n - 3), "p 2 0 0 0 0"] + ([] if ech else ["get 1 d", "get 2 d"])
        r.append(s)
    for k in range(12 if tier == "quick" else 60):
        n = rng.choice([100, 1000, 70000, 200000])
        s = [rng.choice(["new 0 wavt %d F %d %d" % (4 * rng.choice([48000, 44100, 8000]), n, k), "new 0 resam %d %s F %d %d" % (4 * rng.choice([48000, 44100, 96000]), loop(rng, n), n, k)])]
        s += ["g 0 5", "set 0 s %d" % speed(rng), "skip 0 %d 0" % rng.randint(1, 3000), "clone 0 1", "get 1 s", "g 1 20", "set 1 s %d" % rng.choice([3780, 37800]), "clone 1 2", "g 2 10", "skip 2 %d 0" % rng.randint(1, 3000), "g 2 5", "g 0 5", "g 1 5", "get 0 s", "get 1 s"]
        r.append(s)
    for k in range(10 if tier == "quick" else 60):
        r.append(["new 0 generic %s" % terms(rng), "p 0 " + ins(rng, 40), "clone 0 1", "p 1 " + ins(rng, 30), "clone 1 2", "p 0 " + ins(rng, 5), "p 2 " + ins(rng, 30)])
        n = rng.choice([20, 50])
        z = [(rng.randint(0, 60), rng.randint(-S, S) // n) for _ in range(n)]
        r.append(["new 0 generic %d %s" % (n // 2, " ".join("%d %d" % x for x in z)), "p 0 " + ins(rng, 10), "clone 0 1", "p 1 " + ins(rng, 70)])
    for kind in OSC + ["lp", "hp", "bp", "bpc", "env", "noise", "gain", "pass", "zero", "adsr"]:
        for k in range(2 if tier == "quick" else 10):
            long = "skip 0 %d %d" % (rng.choice([50000, 400000]), 0 if kind in OSC + ["noise", "zero"] else S)
            # a second of an envelope goes by in any case
            s = [new(rng, kind, 0), long] + sets(rng, kind, 0) + [use(rng, kind, 0, 3), "clone 0 1", use(rng, kind, 1, 30), use(rng, kind, 0, 3), "clone 1 2", "drop 1", use(rng, kind, 2, 30)]
            r.append(s)
    return r

# ---------------------------------------------------------------- C09, C10

def osc_tests(tests, rng, tier):
    pick = tests if tier != "quick" else rng.sample(tests, min(1200, len(tests)))
    r = []
    for n, t in enumerate(pick):
        for kind in (OSC if tier != "quick" else rng.sample(OSC, 2)):
            s = []
            for o in t:
                s.append("g 0 1" if o[0] == "g" else {"new": "new 0 %s %%d" % kind, "skip": "skip 0 %d 0", "f": "set 0 f %d"}[o[0]] % o[-1])
            r.append(s + ["g 0 9", "get 0 f"])
    return r

def osc_random(rng, tier):
    r = []
    for kind in OSC * (15 if tier == "quick" else 150):
        s = ["new 0 %s %d" % (kind, freq(rng))]
        for _ in range(rng.randint(3, 15)):
            s.append("g 0 %d" % rng.choice([1, 2, 3, rng.randint(1, 120)]))
            x = rng.random()
            if x < 0.5:
                s.append("set 0 f %d" % freq(rng))
            elif x < 0.65:
                s.append("skip 0 %d 0" % logint(rng, 1, 100000))
            elif x < 0.8:
                s.append("get 0 f")
        r.append(s)
    return r

def osc_periods(rng, tier):
    """Whole periods sample by sample at frequencies of every sort, from 3 to hundreds of samples a turn."""
    r = []
    for kind in OSC:
        for f in [440000, 24000000, 23999999, 16000000, 12000000, 9600000, 125000, 48000000 // 7, 1000000, 5000001]:
            r.append(["new 0 %s %d" % (kind, f), "g 0 %d" % min(500, 3 * 48000000 // f + 3), "get 0 f"])
    return r

def osc_sweeps(rng, tier):
    """Frequencies that glide: hundreds of changes, each as slight as one in a million or as much as a tenth, up, down or to and fro."""
    r = []
    for kind in OSC:
        for _ in range(8 if tier == "quick" else 60):
            f = freq(rng)
            step = 10 ** rng.uniform(-6, -1)
            s = ["new 0 %s %d" % (kind, f)]
            style, n = rng.choice(["up", "down", "wave", "any"]), rng.choice([1, 1, 2, 5])
            for k in range(150):
                x = {"up": 1, "down": -1, "wave": math.sin(k / 10), "any": rng.uniform(-1, 1)}[style]
                f = max(1, min(24000000, round(f * (1 + x * step) + (0 if f * step > 1 else x))))
                s.append("set 0 f %d" % f)
                s.append("g 0 %d" % n if rng.random() < 0.9 else "skip 0 %d 0" % logint(rng, 1, 10000))
            r.append(s + ["get 0 f", "g 0 3"])
    return r

def osc_long(rng, tier):
    r = []
    n = 2 * 10**6 if tier == "quick" else 10**8
    for kind in OSC:
        for f in [freq(rng), 24000000, logint(rng, 100, 10000), 23999999]:
            s = ["new 0 %s %d" % (kind, f)]
            for _ in range(3):
                s += ["skip 0 %d 0" % rng.randint(n // 20, n // 4), "g 0 20", "set 0 f %d" % freq(rng)]
            r.append(s + ["g 0 5"])
    return r

def noise(rng, tier):
    r = []
    for _ in range(6):
        r.append(["new 0 noise", "g 0 50", "skip 0 %d 0" % rng.choice([100, 1000, 10**5]), "skip 0 %d 0" % (10**6 if tier == "quick" else 10**8),
                  "new 1 zero", "g 1 20", "skip 1 %d 0" % 10**5, "g 1 5"])
    return r

# ---------------------------------------------------------------- C11

def adsr_tests(tests, rng, tier):
    k = 5000 if tier == "quick" else len(tests)
    # The longest of each group tell the most; a test says all its prefixes do.
    pick = rng.sample(tests, min(k, len(tests)))
    r = []
    for t in pick:
        x = rng.choice([S, S, -S, S // 2])
        s = ["new 0 adsr %s" % " ".join(map(str, t[0][1:]))]
        for o in t[1:]:
            s.append("p 0 %d" % x if o[0] == "p" else "set 0 rel")
        r.append(s + ["p 0" + " %d" % x * 3])
    return r

def adsr_every_release(rng, tier):
    r = []
    for _ in range(6 if tier == "quick" else 60):
        a, d, rel, l = stage(rng, 12), stage(rng, 12), stage(rng, 12), level(rng)
        for k in range(0, (a + d) * 48 // 1000 + 6):
            s = ["new 0 adsr %d %d %d %d" % (a, d, l, rel)]
            if k:
                s.append("p 0" + (" %d" % S) * k)
            s.append("set 0 rel")
            m = rel * 48 // 1000 + 4
            if rng.random() < 0.5:
                s.append("p 0" + (" %d" % S) * (m // 2 + 1))
                s.append("set 0 rel")
            r.append(s + ["p 0" + (" %d" % S) * m])
    return r

def adsr_random(rng, tier):
    r = []
    for _ in range(120 if tier == "quick" else 1500):
        a, d, rel = stage(rng, 60), stage(rng, 60), stage(rng, 60)
        s = ["new 0 adsr %d %d %d %d" % (a, d, level(rng), rel)]
        style = rng.random()
        def inputs(n):
            if style < 0.5:
                return [S] * n
            if style < 0.8:
                return [rng.choice([S, -S, S // 2, -S // 8, 0]) for _ in range(n)]
            return [rng.choice([S, 0]) if rng.random() < 0.2 else S for _ in range(n)]
        for _ in range(rng.randint(1, 3)):
            s.append("p 0 " + " ".join(map(str, inputs(rng.randint(1, 80)))))
        s.append("set 0 rel")
        for _ in range(rng.randint(1, 3)):
            s.append("p 0 " + " ".join(map(str, inputs(rng.randint(1, 60)))))
            if rng.random() < 0.5:
                s.append("set 0 rel")
        r.append(s)
    return r

def adsr_long(rng, tier):
    r = []
    for a, d, l, rel in [(1000000, 1000000, -6000, 1000000), (10000, 500000, -12000, 250000), (999999, 0, 0, 1), (0, 1000000, -96000, 1000000), (500, 700000, 5000, 333333)]:
        s = ["new 0 adsr %d %d %d %d" % (a, d, l, rel), "p 0" + (" %d" % S) * 200]
        s += ["skip 0 %d %d" % (120000, S), "p 0" + (" %d" % S) * 20, "set 0 rel", "p 0" + (" %d" % S) * 200, "skip 0 60000 %d" % S, "set 0 rel", "skip 0 1000 %d" % S]
        r.append(s)
        # released early in a long attack or decay
        r.append(["new 0 adsr %d %d %d %d" % (a, d, l, rel), "p 0" + (" %d" % S) * rng.randint(1, 400), "set 0 rel", "p 0" + (" %d" % S) * 300, "skip 0 100000 %d" % S, "p 0 %d" % S])
    return r

def adsr_slow(rng, tier):
    """Stages of many seconds, and decays of next to nothing."""
    r = []
    one = "p 0" + (" %d" % S) * 3
    for k in range(8 if tier == "quick" else 40):
        a, d, rel = ([5000000, 12000000, 20000000][k % 3] if k < 3 else rng.randint(1, 20000000) for _ in range(3))
        if k >= 3:
            a, d, rel = rng.choice([(a, rng.choice([0, 1000]), rel), (a, d, 100), (1000, d, rel), (a, d, rel)])
        l = rng.choice([-6000, -60, -10, -1, -rng.randint(1, 3000), -rng.randint(3000, 90000)])
        s = ["new 0 adsr %d %d %d %d" % (a, d, l, rel), one]
        # along the attack and the decay, then through them from a new one
        m = int(a * 0.048 * 0.98) - 10
        if m > 100:
            s += ["skip 0 %d %d" % (m // 3, S), one, "skip 0 %d %d" % (m - m // 3 - 10, S), one]
        if rng.random() < 0.4 and m > 100:
            q = int(rel * 0.048 * 0.98) // 2 - 10
            s += ["set 0 rel", one] + (["skip 0 %d %d" % (q, S), one, "skip 0 %d %d" % (q - 20, S)] if q > 100 else []) + ["skip 0 %d %d" % (int(rel * 0.049) + 2000, S)]
            r.append(s)
            continue
        s = ["new 0 adsr %d %d %d %d" % (a, d, l, rel), "skip 0 %d %d" % (int((a + d) * 0.0485) + 10, S), one, "set 0 rel", one]
        q = int(rel * 0.048 * 0.98) // 2 - 10
        s += (["skip 0 %d %d" % (q, S), one, "skip 0 %d %d" % (q - 20, S)] if q > 100 else []) + ["skip 0 %d %d" % (int(rel * 0.049) + 2000, S), one]
        r.append(s)
    for l in (-1, -3, -10, -40, -100):
        for d in (0, 30, 1000, 100000, 1000000):
            r.append(["new 0 adsr 0 %d %d 1000" % (d, l), "p 0" + (" %d" % S) * 40, "skip 0 %d %d" % (int(d * 0.0485) + 10, S), one, "set 0 rel", "p 0" + (" %d" % S) * 60])
    return r

# ---------------------------------------------------------------- C12, C13, C14

def samples_ns(n):
    """A duration of n samples."""
    ns = -(-n * 62500 // 3)
    return "%d %d" % (ns // 10**9, ns % 10**9)

def line_tests(kind):
    def make(tests, rng, tier):
        seen, r = set(), []
        for d, p, xs in tests:
            key = (tuple(p) if kind == "generic" else d, tuple(xs))
            if key in seen:
                continue
            seen.add(key)
            head = "new 0 generic %s" % " ".join(map(str, p)) if kind == "generic" else "new 0 delay " + samples_ns(d) if kind == "delay" else "new 0 echo %s %d" % (samples_ns(d), S // 2)
            r.append([head, "p 0 " + " ".join(map(str, xs)), "p 0 0 0 0 0"])
        return r if tier != "quick" or len(r) <= 1500 else rng.sample(r, 1500)
    return make

def random_lines(kind):
    def make(rng, tier):
        r = []
        for _ in range(200 if tier == "quick" else 2000):
            s = ["new 0 %s %s" % (kind, dur(rng, rng.choice([3, 20, 80])))]
            g = rng.choice([S // 2, -S // 2, S, -S, 0, 3 * S // 2, rng.randint(-S, S), rng.randint(-S, S)])
            if kind == "echo":
                s[0] += " %d" % g
            for _ in range(rng.randint(1, 6)):
                if kind == "delay" and rng.random() < 0.4:
                    s.append("get 0 d")
                s.append("p 0 " + ins(rng, rng.randint(1, 60)))
            r.append(s)
        return r
    return make

def rounding(kind):
    """Every duration around the middles between two lengths."""
    def make(rng, tier):
        r = []
        for n in list(range(0, 12)) + [100, 479, 480]:
            mid = (2 * n + 1) * 31250 / 3
            for ns in sorted({int(mid) - 1, int(mid), int(mid) + 1, int(mid) + 2, n * 62500 // 3, n * 62500 // 3 + 1}):
                if ns < 0:
                    continue
                s = ["new 0 %s 0 %d" % (kind, ns) + (" %d" % (S // 2) if kind == "echo" else "")]
                if kind == "delay":
                    s.append("get 0 d")
                r.append(s + ["p 0 %d %d" % (S, S // 4), "p 0 " + " ".join(["0"] * min(n + 4, 30))] + (["skip 0 %d 0" % max(1, n - 40), "p 0 " + " ".join(["0"] * 60)] if n > 30 else []))
        return r
    return make

def long_delays(rng, tier):
    r = []
    for sec, ns in [(0, 250000000), (1, 0), (2, 500000000 + rng.randint(0, 10**8)), (0, 999999999), (10, 20833), (25, 5), (200, 0)] + ([(120, 12345)] if tier != "quick" else []):
        d = sec * 48000 + ns * 48 // 10**6
        s = ["new 0 delay %d %d" % (sec, ns), "get 0 d", "p 0 %d %d" % (S, S // 3)]
        s += ["skip 0 %d 0" % (d - 20), "get 0 d", "p 0 " + " ".join(["0"] * 30), "p 0 %d" % (S // 5), "skip 0 %d 0" % (d - 3), "p 0 " + ins(rng, 20)]
        r.append(s)
        if d < 60000:
            r.append(["new 0 delay %d %d" % (sec, ns), "pf 0 %d %d" % (d // 2, 3), "get 0 d", "pf 0 %d 3" % (d // 2 + 300)])
    return r

def long_echoes(rng, tier):
    r = []
    for sec, ns in [(0, 250000000), (1, 0), (2, 600000000), (0, 999999999), (30, 7)]:
        d = sec * 48000 + ns * 48 // 10**6
        s = ["new 0 echo %d %d %d" % (sec, ns, rng.choice([S // 2, -S // 2, S])), "p 0 %d %d" % (S, S // 3)]
        s += ["skip 0 %d 0" % (d - 20), "p 0 " + " ".join(["0"] * 30), "p 0 %d" % (S // 5), "skip 0 %d 0" % (d - 40), "p 0 " + ins(rng, 60), "skip 0 %d 0" % (d // 2)]
        r.append(s)
    return r

def random_generic(rng, tier):
    r = []
    for _ in range(250 if tier == "quick" else 2500):
        wild = rng.random() < 0.15
        s = ["new 0 generic %s" % terms(rng, wild)]
        for _ in range(1 if wild else rng.randint(1, 3)):
            s.append("p 0 " + ins(rng, 8 if wild else rng.randint(1, 50)))
        r.append(s)
    for k in range(12 if tier == "quick" else 120):
        s = ["new 0 generic %s" % weak(terms(rng)), "p 0 " + ins(rng, 20)]
        for _ in range(3):
            s += ["skip 0 %d %d" % (rng.choice([20000, 80000, 140000 if k < 3 else 66000]), rng.choice([0, S, rng.randint(-S, S)])), "p 0 " + ins(rng, 20)]
        r.append(s)
    for nz, np in [(17, 3), (33, 0), (40, 20), (0, 40), (70, 70), (130, 1)]:
        t = [(rng.randint(0, 60), rng.randint(-S, S) // (2 * nz)) for _ in range(nz)] + [(rng.randint(0, 60), rng.randint(-S, S) // (2 * np)) for _ in range(np)]
        r.append(["new 0 generic %d %s" % (nz, " ".join("%d %d" % x for x in t)), "p 0 " + ins(rng, 90)])
    for i, j in [(100, 0), (0, 100), (300, 299), (1000, 1500)]:
        r.append(["new 0 generic 2 0 %d %d %d %d %d" % (S, i, S // 2, j, S // 4), "p 0 " + ins(rng, max(i, j) + 20)])
    return r

# ---------------------------------------------------------------- C15, C16, C17

def filters(kind):
    def make(rng, tier):
        r = []
        for _ in range(60 if tier == "quick" else 600):
            s = ["new 0 %s %d %d" % (kind, cut(rng), reso(rng)), "get 0 f", "get 0 r", rng.choice(["pf 0 60 %d" % rng.randint(0, 999), "p 0 " + fins(rng, 40)])]
            for _ in range(rng.randint(0, 5)):
                x = rng.random()
                if x < 0.35:
                    s += ["set 0 f %d" % cut(rng), "get 0 f", "get 0 r"]
                elif x < 0.6:
                    s += ["set 0 r %d" % reso(rng), "get 0 r", "get 0 f"]
                elif x < 0.75:
                    s.append("skip 0 %d %d" % (rng.choice([5, 100, 50000, 400000]), rng.choice([S, 0, -S, S // 2])))
                s.append("p 0 " + fins(rng, rng.randint(1, 40)))
            r.append(s)
        return r
    return make

def filter_grid(kind):
    """A step and an impulse through cutoffs and resonances of every sort, unchanged."""
    def make(rng, tier):
        r = []
        for f in [20000, 50000, 440000, 1000000, 5000000, 11999000, 12000000, 20000000, 23999000, 24000000, 48000000]:
            for z in [0, S // 4, S // 2, 3 * S // 4, S, -5, 2 * S]:
                r.append(["new 0 %s %d %d" % (kind, f, z), "get 0 f", "get 0 r", "p 0 %d" % S + " 0" * 15, "p 0" + (" %d" % S) * 15,
                          "skip 0 %d %d" % (1000000 if f < 50000 else 300000, S), "pf 0 12 1"])
        return r
    return make

def low(rng):
    return rng.choice([1000, 2000, 5000, 19999, rng.randint(1000, 20000)])

def low_cutoffs(kind):
    """From 1 Hz up: outputs stay finite and settle."""
    def make(rng, tier):
        r = []
        for _ in range(30 if tier == "quick" else 300):
            # below 20 Hz, from the start and by a change
            s = ["new 0 %s %d %d" % (kind, rng.choice([low(rng), cut(rng)]), reso(rng)), "p 0 %d" % S + " 0" * 5 + (" %d" % S) * 5, "pf 0 %d %d" % (rng.randint(1, 60), rng.randint(0, 99))]
            for _ in range(rng.randint(1, 3)):
                s += ["set 0 f %d" % low(rng), "get 0 f", "get 0 r", "p 0" + (" %d" % rng.choice([S, -S, S // 2])) * rng.randint(1, 30), "p 0 " + fins(rng, rng.randint(1, 20))]
                if rng.random() < 0.4:
                    s.append("set 0 r %d" % reso(rng))
            r.append(s)
        for f in [1000, 2000, 5000, 10000, 16000]:
            for z in [0, S // 2, S]:
                r.append(["new 0 %s %d %d" % (kind, f, z), "get 0 f", "skip 0 10 %d" % S, "p 0 " + fins(rng, 5), "pf 0 200 %d" % rng.randint(0, 99), "skip 0 100000 %d" % S, "skip 0 %d %d" % (3 * 10**6 if tier == "quick" else 2 * 10**7, S // 2)])
        return r
    return make

def rapid(kind):
    """A change before every sample."""
    def make(rng, tier):
        r = []
        for _ in range(12 if tier == "quick" else 200):
            s = ["new 0 %s %d %d" % (kind, cut(rng), reso(rng))]
            for _ in range(40):
                if rng.random() < 0.7:
                    s.append("set 0 f %d" % rng.randint(1000000, 20000000))
                if rng.random() < 0.7:
                    s.append("set 0 r %d" % reso(rng))
                s.append("p 0 " + fins(rng, 1))
            r.append(s + ["get 0 f", "get 0 r"])
        return r
    return make

def glide(rng):
    """Small relative steps, all in one direction or to and fro."""
    step, style = 10 ** rng.uniform(-5, -1.5), rng.choice([1, -1, 0])
    return [step * (style or rng.uniform(-1, 1)) for _ in range(rng.choice([1, 3, 30]))]

def retuned(kind):
    """Slight changes one after the other, then what they've led to, from rest."""
    def make(rng, tier):
        r = []
        for _ in range(40 if tier == "quick" else 400):
            f, z = logint(rng, 200000, 20000000), rng.randint(0, S)
            s = ["new 0 %s %d %d" % (kind, f, z)]
            which = rng.choice(["f", "r", "fr"])
            for x in glide(rng):
                if "f" in which:
                    f = max(100000, min(24000000, round(f * (1 + x))))
                    s.append("set 0 f %d" % f)
                if "r" in which:
                    z = max(0, min(S, z + int(x * S)))
                    s.append("set 0 r %d" % z)
                if rng.random() < 0.3:
                    s.append("p 0 " + fins(rng, rng.randint(1, 3)))
            r.append(s + ["get 0 f", "get 0 r", "skip 0 %d 0" % (300000 if f < 10**6 else 60000), "p 0 %d" % S + " 0" * 20 + (" %d" % S) * 20, "p 0 " + fins(rng, 20)])
        return r
    return make

def retuned_bandpasses(rng, tier):
    r = []
    for _ in range(60 if tier == "quick" else 600):
        a, b = two_corners(rng)
        a, b = max(20000, min(a, b)), max(40000, max(a, b))
        f, q = math.sqrt(a * b), math.sqrt(a * b) / (b - a)
        which = rng.choice(["f", "q", "fq", "c", "fc", "qc", "fqc"])
        if which == "c":
            s = ["new 0 bpc %d %d" % (a, b)]
        else:
            f, q = round(f), round(q * S) / S
            s = ["new 0 bp %d %d" % (f, round(q * S))]
        for x in glide(rng):
            k = rng.choice(which)
            f2, q2 = f * (1 + x), q * (1 + x)
            if k == "f":
                q2 = q
            elif k == "q":
                f2 = f
            lo, hi = corners_of(f2, q2 * S)
            if lo < 20000 or hi > 23900000 or hi - lo < 2000 or not 0.001 < q2 < 100:
                continue
            # as it's told
            if k == "f":
                s.append("set 0 f %d" % round(f2)); f = round(f2)
            elif k == "q":
                s.append("set 0 q %d" % round(q2 * S)); q = round(q2 * S) / S
            else:
                a, b = round(lo), round(hi)
                s.append("set 0 c %d %d" % ((a, b) if rng.random() < 0.5 else (b, a)))
                f, q = math.sqrt(a * b), math.sqrt(a * b) / (b - a)
            if rng.random() < 0.3:
                s.append("p 0 " + fins(rng, rng.randint(1, 3)))
        r.append(s + ["get 0 f", "get 0 q", "get 0 c", "skip 0 600000 0", "p 0 %d" % S + " 0" * 20 + (" %d" % S) * 20, "p 0 " + fins(rng, 20)])
    return r

def corners_of(f, qq):
    h = f / (2 * qq / S)
    r = math.hypot(f, h)
    return f * f / (r + h), r + h

def bandpasses(rng, tier):
    r = []
    gets = ["get 0 f", "get 0 q", "get 0 c"]
    for _ in range(90 if tier == "quick" else 900):
        if rng.random() < 0.5:
            f, qq = centre(rng)
            s = ["new 0 bp %d %d" % (f, qq)]
        else:
            a, b = two_corners(rng)
            f, qq = int(math.sqrt(a * b)), int(S * math.sqrt(a * b) / abs(a - b))
            s = ["new 0 bpc %d %d" % (a, b)]
        s += gets + ["pf 0 %d %d" % (rng.randint(1, 60), rng.randint(0, 99))]
        for _ in range(rng.randint(0, 6)):
            x = rng.random()
            if x < 0.25:
                g = corner(rng)
                lo, hi = corners_of(g, qq)
                if lo > 2000 and hi < 23990000:
                    f = g
                    s += ["set 0 f %d" % f] + gets
            elif x < 0.5:
                g = quality(rng)
                lo, hi = corners_of(f, g)
                if lo > 2000 and hi < 23990000:
                    qq = g
                    s += ["set 0 q %d" % qq] + gets
            elif x < 0.8:
                a, b = two_corners(rng)
                f, qq = int(math.sqrt(a * b)), int(S * math.sqrt(a * b) / abs(a - b))
                s += ["set 0 c %d %d" % (a, b)] + gets
            else:
                s.append("skip 0 %d %d" % (rng.choice([4, 100, 100000, 400000]), rng.choice([S, -S, S // 2, 0])))
            s.append("p 0 " + fins(rng, rng.randint(1, 30)))
        r.append(s)
    return r

def related_bandpasses(rng, tier):
    """Settings that keep something of what they were: the quality, the centre, a corner, or all."""
    r = []
    gets = ["get 0 f", "get 0 q", "get 0 c"]
    for _ in range(60 if tier == "quick" else 600):
        a, b = sorted(2 * (max(40000, c) // 2) for c in two_corners(rng))
        if b - a < 4000:
            continue
        s = ["new 0 bpc %d %d" % (a, b)] + gets
        for _ in range(rng.randint(3, 9)):
            n, d = rng.choice([(1, 2), (2, 1), (3, 2), (1, 3), (3, 1), (5, 4), (1, 1), (1, 1)])
            c, e = rng.choice([(a * n // d, b * n // d), (a * d // n, b * n // d), (a, b * n // d), (a * n // d, b), (b, b * b // a), (a * a // b, a)])
            if rng.random() < 0.2:
                # the centre or the quality there is, for another
                f, q = math.sqrt(a * b), math.sqrt(a * b) / (b - a)
                f2, q2 = rng.choice([(round(f), None), (None, round(q * S)), (round(f) * n // d, None), (None, round(q * S) * n // d)])
                c, e = corners_of(f2 or f, q2 or q * S)
                if c < 20000 or e > 23900000 or e - c < 2000 or (q2 or S) < S // 100:
                    continue
                s += ["set 0 f %d" % f2 if f2 else "set 0 q %d" % q2] + gets + ["p 0 " + fins(rng, rng.randint(1, 12))]
                c, e = round(c), round(e)
            if min(c, e) < 20000 or max(c, e) > 23900000 or abs(c - e) < 2000 or abs(c - e) * 90 < math.sqrt(c * e):
                continue
            a, b = sorted((c, e))
            s += ["set 0 c %d %d" % ((a, b) if rng.random() < 0.6 else (b, a))] + gets + ["p 0 " + fins(rng, rng.randint(1, 12))]
        r.append(s + ["skip 0 600000 0", "p 0 %d" % S + " 0" * 20 + (" %d" % S) * 10])
    return r

def bandpass_grid(rng, tier):
    r = []
    fs = [2000, 20000, 100000, 440000, 1000000, 5000000, 12000000, 20000000, 23900000]
    for a in fs:
        for b in fs:
            if a != b:
                r.append(["new 0 bpc %d %d" % (a, b), "get 0 c", "get 0 f", "get 0 q", "p 0 %d" % S + " 0" * 10, "p 0" + (" %d" % S) * 10,
                          "skip 0 %d %d" % (2000000 if min(a, b) < 20000 else 300000, S), "pf 0 10 2"])
    return r

def envelopes(rng, tier):
    r = []
    for _ in range(120 if tier == "quick" else 1200):
        s = ["new 0 env %d %d" % (envf(rng), envf(rng))]
        for _ in range(rng.randint(1, 6)):
            s.append(rng.choice([lambda: "pf 0 %d %d" % (rng.randint(1, 60), rng.randint(0, 99)), lambda: "p 0 " + fins(rng, rng.randint(1, 30)),
                                 lambda: "skip 0 %d %d" % (rng.choice([10, 300, 200000]), rng.choice([S, -S, 0, S // 3])),
                                 lambda: "p 0 " + " ".join([str(rng.choice([S, -S, S // 9]))] * rng.randint(1, 20))])())
        r.append(s)
    return r

def env_grid(rng, tier):
    r = []
    fs = [1000, 20000, 440000, 5000000, 11999000, 12000000, 20000000, 23000000]
    for a in fs:
        for b in fs:
            r.append(["new 0 env %d %d" % (a, b), "p 0" + (" %d" % S) * 8 + (" %d" % -S) * 4 + " 0" * 10 + " %d 0 %d 0" % (S // 2, -S // 2), "skip 0 %d %d" % (500000 if min(a, b) > 1000 else 2000000, -S), "p 0 0 0 %d" % S])
    return r

def env_low(rng, tier):
    """Down to a hundredth of a Hz."""
    r = []
    for f in [10, 30, 100, 300, 500, 999, rng.randint(10, 1000)]:
        n = int(12 * 48000 / (math.pi * f / 1000)) + 2000
        for a, b in ((f, f), (f, 440000), (200000, f)):
            x = rng.choice([S, -S, S // 3, 5 * S])
            r.append(["new 0 env %d %d" % (a, b), "pf 0 40 %d" % rng.randint(0, 99), "skip 0 %d %d" % (n, x), "p 0 %d 0 0 %d" % (x, x), "skip 0 1000 0", "pf 0 30 3", "skip 0 %d %d" % (n, x // 2)])
    return r

# ---------------------------------------------------------------- C18, C19, C30

TRACK4 = [4 * S, 8 * S, -4 * S, 0]
def player_tests(looping):
    def make(tests, rng, tier):
        r = []
        for t in tests:
            _, ls, le, n = t[0]
            loops = min(ls, le) < min(max(ls, le), n)
            if loops != looping:
                continue
            s = [("new 0 resam 192000 %d %d L %s" % (ls, le, " ".join(map(str, TRACK4[:n])))).strip()]
            for o in t[1:]:
                s.append("set 0 s %d" % o[1] if o[0] == "s" else "g 0 1" if o[0] == "g" else "skip 0 %d 0" % o[1])
            r.append(s + ["g 0 2"])
        return r if tier != "quick" or len(r) < 3500 else rng.sample(r, 3500)
    return make

def players(looping, kinds=("resam",), count=150):
    def make(rng, tier):
        r = []
        for _ in range(count if tier == "quick" else 10 * count):
            kind = rng.choice(kinds)
            n = rng.choice([0, 1, 2, 3, rng.randint(0, 30), rng.randint(0, 60)])
            if kind == "resam":
                lp = "0 0"
                if looping:
                    lp = loop(rng, max(n, 1))
                s = [("new 0 resam %d %s L %s" % (qrate(rng), lp, track(rng, n))).strip()]
            elif kind == "wavt":
                s = [("new 0 wavt %d L %s" % (qrate(rng), track(rng, n))).strip()]
            else:
                s = ["new 0 wav " + wav(rng, n)]
            s.append("get 0 s")
            for _ in range(rng.randint(1, 6)):
                s.append("g 0 %d" % rng.choice([1, 3, 10, rng.randint(1, 40)]))
                if rng.random() < 0.6:
                    s += ["set 0 s %d" % speed(rng), "get 0 s"]
                if rng.random() < 0.15:
                    s.append("skip 0 %d 0" % rng.choice([5, 100, 10000]))
            r.append(s)
        return r
    return make

def glides(looping):
    """Speeds that glide."""
    def make(rng, tier):
        r = []
        for _ in range(16 if tier == "quick" else 200):
            n = rng.randint(3, 60)
            s = ["new 0 resam %d %s L %s" % (qrate(rng), loop(rng, n) if looping else "0 0", track(rng, n))]
            v, style = rng.choice([378, 3780, 7560]), rng.choice([1, -1, 0])
            for _ in range(150):
                v = max(0, v + (style or rng.choice([-1, 1])) * rng.choice([1, 1, 1, 2, 5, 40]))
                s += ["set 0 s %d" % v, "g 0 1"]
            r.append(s + ["get 0 s", "g 0 3"])
        return r
    return make

def fast_players(rng, tier):
    """Short loops in huge steps."""
    r = []
    for _ in range(80 if tier == "quick" else 800):
        n = rng.randint(2, 9)
        a = rng.randint(0, n - 2)
        b = rng.randint(a + 1, n)
        s = ["new 0 resam %d %s L %s" % (4 * rng.choice([48000, 44100, 192000, 1]), rng.choice(["%d %d" % (a, b), "%d %d" % (b, a) if a else "%d %d" % (a, b)]), track(rng, n)), "g 0 3"]
        for _ in range(rng.randint(1, 4)):
            s += ["set 0 s %d" % rng.choice([3780 * rng.choice([500, 1000, 2000, 5001, 10**4 + rng.randint(0, 9), 10**5 + rng.randint(0, 9), 264550, rng.randint(1, 264550)]), logint(rng, 3780 * 100, 10**9)]), "g 0 %d" % rng.randint(1, 6), "set 0 s %d" % rng.choice([0, 3780, 1890]), "g 0 %d" % rng.randint(1, 5)]
        r.append(s)
    return r

def long_players(looping, kind="resam"):
    def make(rng, tier):
        r = []
        for n, rt in [(100000, 44100), (1 << 20, 96000), ((1 << 24) + 1000, 48000), ((1 << 25) + 77 if tier != "quick" else 3 << 20, 44100)]:
            for _ in range(2):
                if looping:
                    e = rng.choice([n, n - rng.randint(1, n // 3), n + 5])
                    st = rng.choice([0, rng.randint(1, n // 2), n - 50])
                    lp = rng.choice(["%d %d" % (st, e), "%d %d" % (e, st) if st else "%d %d" % (st, e)])
                else:
                    lp = "0 0"
                seed = rng.randint(0, 99)
                head = "new 0 resam %d %s F %d %d" % (4 * rt, lp, n, seed) if kind == "resam" else "new 0 wavt %d F %d %d" % (4 * rt, n, seed)
                # jump close to the end at a high speed, and go slowly from there
                k = n * 48000 // rt
                big = 3780 * 64
                s = [head, "g 0 10", "set 0 s %d" % big, "skip 0 %d 0" % max(1, (k - 3000) // 64), "set 0 s 3780", "g 0 10", "skip 0 %d 0" % (2900 - rng.randint(0, 63)), "g 0 20",
                     "set 0 s %d" % rng.randint(1100, 5500), "g 0 150", "skip 0 3000 0", "g 0 10"]
                if looping:
                    s += ["set 0 s %d" % (3780 * 1000), "skip 0 20000 0", "g 0 20", "set 0 s 2600", "g 0 20"]
                r.append(s)
        return r
    return make

def wav_codes(rng, tier):
    """Every depth through its codes, at the engine's rate, so that each comes out as decoded."""
    r = []
    for n in range(0, 256, 64):
        r.append(["new 0 wav 8 1 48000 " + " ".join(str(c) for c in range(n, n + 64)), "g 0 66"])
    for b in (16, 24):
        for c in (1, 2, 5):
            r.append(["new 0 wav %d %d 48000 %s" % (b, c, codes(rng, b, 60 * c)), "g 0 62"])
    # silence before, after and within
    for b in (8, 16, 24):
        for c in (1, 2):
            v = ["128" if b == 8 else "0"] * rng.randint(1, 90) * c
            x = codes(rng, b, 10 * c).split()
            for w in (v + x, x + v, x + v + x, v):
                r.append(["new 0 wav %d %d 48000 %s" % (b, c, " ".join(w)), "g 0 %d" % (len(w) // c + 2)])
    # more frames than 16 bits count
    for b, n in ((16, 66000), (8, 33000), (24, 70001)) if tier == "quick" else ((16, 140000), (8, 300000), (24, 140000)):
        s = ["new 0 wav %d 1 48000 %s" % (b, " ".join(str(128 * (b == 8) + k * k % 127) for k in range(n)))]
        at = 0
        for k in (32760, 65530, n - 10):
            if at <= k < n:
                s += ["skip 0 %d 0" % (k - at), "g 0 12"]
                at = k + 12
        r.append(s)
    for c in (1, 2, 3, 8, 255):
        for b in (8, 16, 24):
            n = rng.randint(0, 5)
            r.append(["new 0 wav %d %d %d %s" % (b, c, rng.choice([8000, 44100, 48000, 96000]), codes(rng, b, n * c)), "g 0 40", "get 0 s"])
    return r

def wav_rates(rng, tier):
    """Sources of all usual rates, of a few frames and of hundreds."""
    r = []
    for rt in (8000, 11025, 16000, 22050, 24000, 32000, 37800, 44056, 44100, 47250, 48000, 50000, 64000, 88200, 96000, 176400, 192000, 352800, 384000):
        for n in (rng.randint(1, 40), rng.randint(41, 150), rng.randint(151, 1500)):
            b, c = rng.choice([8, 16, 16, 24]), rng.choice([1, 1, 2, 3])
            s = ["new 0 wav %d %d %d %s" % (b, c, rt, codes(rng, b, n * c)), "get 0 s", "g 0 12"]
            k = n * 48000 // rt - 24
            if k > 0:
                s.append("skip 0 %d 0" % k)
            r.append(s + ["g 0 20"])
            r.append(["new 0 wavt %d L %s" % (4 * rt, track(rng, min(n, 100))), "g 0 30"])
    return r

# ---------------------------------------------------------------- C31

def stateless(rng, tier):
    r = []
    for _ in range(120 if tier == "quick" else 1200):
        s = ["new 0 gain %d" % sample(rng), "new 1 pass"]
        live = [0, 1]
        for _ in range(rng.randint(5, 25)):
            x = rng.random()
            i = rng.choice(live)
            if x < 0.6:
                s.append("p %d %s" % (i, ins(rng, rng.randint(1, 10))))
            elif x < 0.8:
                s += ["set 0 a %d" % rng.choice([sample(rng), rng.randint(-64 * S, 64 * S) // 64 * 64]), "get 0 a"]
            elif len(live) < 6:
                s.append("clone %d %d" % (i, len(live)))
                live.append(len(live))
            else:
                s.append("skip %d %d %d" % (i, rng.choice([1000, 1000, 30000]), sample(rng)))
        r.append(s)
    for i in (0, 1):
        r.append(["new 0 gain %d" % sample(rng), "new 1 pass", "skip %d 3000000 %d" % (i, S), "p %d %s" % (i, ins(rng, 10)), "clone %d 2" % i, "skip 2 70000 %d" % S, "p 2 " + ins(rng, 10)])
    return r

def install(PROPS):
    T = dict(suite="dev", trace="Trace_Dev")
    def part(name, make, **kw):
        return dict(T, name=name, make=make, **kw)
    def m(cfg, module, **kw):
        return dict(cfg=cfg + ".cfg", module=module, **kw)
    LIFE = [m("MC_Lifecycle", "MC_Lifecycle"), m("MC_Lifecycle_Emit", "MC_Lifecycle", emit=True)]
    OSCM = [m("MC_Osc", "MC_Osc"), m("MC_Osc_Emit", "MC_Osc", emit=True)]
    LINES = [m("MC_Lines", "MC_Lines", emit=True)]
    FILT = [m("MC_Filters", "MC_Filters"), m("MC_Filters_Dense", "MC_Filters"), m("MC_Filters_Long", "MC_Filters", tiers=("thorough",))]
    RES = [m("MC_Resampler", "MC_Resampler"), m("MC_Resampler_Emit", "MC_Resampler", emit=True), m("MC_Resampler_Big", "MC_Resampler", workers=6, tiers=("thorough",))]
    fixed = "outputs are compared at a resolution of 2^-24 with tolerances for rounding given in the specification"
    PROPS["C08"] = dict(models=LIFE, parts=[part("lifecycles", lifecycle_tests, emit="MC_Lifecycle_Emit.cfg"), part("random", random_lives), part("long", long_lives)],
        assumptions=[fixed, "of two noise generators nothing but their range can be compared"])
    PROPS["C09"] = dict(models=OSCM, parts=[part("transitions", osc_tests, emit="MC_Osc_Emit.cfg"), part("random", osc_random), part("sweeps", osc_sweeps), part("periods", osc_periods), part("long", osc_long)],
        assumptions=[fixed, "frequencies are whole mHz", "next to a jump of a waveform either side is accepted unless the phase is a binary fraction"])
    PROPS["C10"] = dict(models=OSCM, parts=[part("random", osc_random), part("sweeps", osc_sweeps), part("periods", osc_periods), part("long", osc_long), part("noise", noise)],
        assumptions=[fixed, "a noise generator favours neither side if within six standard deviations"])
    PROPS["C11"] = dict(models=[m("MC_Adsr", "MC_Adsr"), m("MC_Adsr_Gains", "MC_Adsr"), m("MC_Adsr_Emit", "MC_Adsr", emit=True)],
        parts=[part("transitions", adsr_tests, emit="MC_Adsr_Emit.cfg"), part("every_release", adsr_every_release), part("random", adsr_random), part("long", adsr_long), part("slow", adsr_slow)],
        assumptions=[fixed, "stage times of up to 20 seconds, to within a sample or one percent"])
    PROPS["C12"] = dict(models=LINES, parts=[part("transitions", line_tests("delay"), emit="MC_Lines.cfg"), part("random", random_lines("delay")), part("rounding", rounding("delay")), part("long", long_delays)],
        assumptions=["a duration in the middle between two lengths may be rounded to either"])
    PROPS["C13"] = dict(models=LINES, parts=[part("transitions", line_tests("echo"), emit="MC_Lines.cfg"), part("random", random_lines("echo")), part("rounding", rounding("echo")), part("long", long_echoes)],
        assumptions=[fixed, "a duration in the middle between two lengths may be rounded to either"])
    PROPS["C14"] = dict(models=LINES, parts=[part("transitions", line_tests("generic"), emit="MC_Lines.cfg"), part("random", random_generic)], assumptions=[fixed])
    PROPS["C15"] = dict(models=FILT, parts=[part(k + n, f(k)) for k in ("lp", "hp") for n, f in (("_random", filters), ("_grid", filter_grid), ("_low", low_cutoffs), ("_rapid", rapid), ("_retuned", retuned))],
        assumptions=[fixed, "cutoffs below 20 Hz are only checked to stay finite, settle and follow the recurrence"])
    PROPS["C16"] = dict(models=FILT, parts=[part("random", bandpasses), part("grid", bandpass_grid), part("retuned", retuned_bandpasses), part("related", related_bandpasses)], assumptions=[fixed])
    PROPS["C17"] = dict(models=FILT, parts=[part("random", envelopes), part("grid", env_grid), part("low", env_low)], assumptions=[fixed])
    PROPS["C18"] = dict(models=RES, parts=[part("transitions", player_tests(False), emit="MC_Resampler_Emit.cfg"), part("random", players(False)), part("glides", glides(False)), part("long", long_players(False))],
        assumptions=[fixed, "rates are multiples of 1/4 Hz, speeds of 1/3780"])
    PROPS["C19"] = dict(models=RES, parts=[part("transitions", player_tests(True), emit="MC_Resampler_Emit.cfg"), part("random", players(True)), part("glides", glides(True)), part("fast", fast_players), part("long", long_players(True))],
        assumptions=[fixed, "rates are multiples of 1/4 Hz, speeds of 1/3780", "a loop from a sample other than 0 to sample 0 isn't described"])
    PROPS["C30"] = dict(models=RES, parts=[part("random", players(False, ("wavt", "wav", "wav"))), part("codes", wav_codes), part("rates", wav_rates), part("long", long_players(False, "wavt"))], assumptions=[fixed])
    PROPS["C31"] = dict(models=LIFE, parts=[part("random", stateless)], assumptions=[fixed])
