"""Scenarios for WAV input and output (suite "wav"), codes and formats ("fmt"), utilities ("misc") and bin2str."""
S, S28, S29 = 1 << 24, 1 << 28, 1 << 29
DEPTHS = (8, 16, 24)
WHOLE = 1 << 20

def words(v):
    return " ".join(str(x) for x in v)

def times(tier, n, m=10):
    return n if tier == "quick" else m * n

# ---------------------------------------------------------------- WAV

def lo_hi(bits):
    return {8: (0, 255), 16: (-32768, 32767), 24: (-(1 << 23), (1 << 23) - 1)}[bits]

def samples28(rng, n):
    """Samples in range, many of them exactly on codes, ends and small values."""
    def one():
        x = rng.random()
        if x < 0.2:
            return rng.choice([0, S28, -S28, 1, -1, S28 // 2, -S28 // 2, 32, -32, S28 - 32, 32 - S28])
        if x < 0.5:
            b = rng.choice(DEPTHS)
            lo, hi = lo_hi(b)
            c = rng.choice([lo + 1, hi, rng.randint(lo + 1, hi)])
            return round((c - 128) / 128 * S28) if b == 8 else round(c / hi * S28)
        if x < 0.6:
            return rng.randint(-(1 << 14), 1 << 14)
        return rng.randint(-S28, S28)
    return words(one() for _ in range(n))

def shapes(rng):
    ch = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, rng.randint(1, 16)])
    return ch, rng.choice([0, 1, 2, 3, 5, 8, rng.randint(0, 40)])

def roundtrips(rng, tier):
    r = []
    for b in DEPTHS:
        for ch in (1, 2, 3, 4, 5, 6, 7, 8):
            for n in (0, 1, 2, 3):
                r.append(["track " + samples28(rng, n) for _ in range(ch)] + ["write %d %d" % (b, rng.randint(0, 1)), "read -1"])
    for _ in range(times(tier, 120)):
        ch, n = shapes(rng)
        s = ["track " + samples28(rng, n) for _ in range(ch)]
        for b in rng.sample(DEPTHS, rng.randint(1, 3)):
            s += ["write %d %d" % (b, rng.randint(0, 1)), rng.choice(["read -1", "vread -1"])]
        if rng.random() < 0.3:
            s += ["clear", "track " + samples28(rng, n + 1), "write %d 0" % rng.choice(DEPTHS), "read -1"]
        r.append(s)
    for ch in (255, 256, 300) if tier == "quick" else (255, 256, 257, 1000, 4096):
        r.append(["track " + samples28(rng, 2) for _ in range(ch)] + ["write %d 0" % rng.choice(DEPTHS), "read -1"])
    return r

def every_level(rng, tier):
    """Every 8-bit code and many of the others as samples and back."""
    r = []
    for b in DEPTHS:
        lo, hi = lo_hi(b)
        cs = list(range(256)) if b == 8 else sorted({lo + 1, hi, 0, 1, -1} | {s * 2 ** k + d for k in range(b - 1) for s in (1, -1) for d in (-1, 0, 1) if lo < s * 2 ** k + d <= hi} | {rng.randint(lo + 1, hi) for _ in range(times(tier, 150))})
        v = [round((c - 128) / 128 * S28) if b == 8 else round(c / hi * S28) for c in cs]
        for k in range(0, len(v), 64):
            r.append(["track " + words(v[k:k + 64]), "write %d 0" % b, "read -1", "write %d 1" % b, "read -1"])
    return r

def codes(rng, bits, n):
    lo, hi = lo_hi(bits)
    return words(rng.choice([lo, hi, 0, -1 if bits != 8 else 127, rng.randint(lo, hi), rng.randint(lo, hi)]) for _ in range(n))

RATES = [0, 1, 8000, 11025, 22050, 44100, 47999, 48000, 88200, 96000, 192000, 1 << 20, (1 << 30) - 1]
def foreign(rng, tier):
    """Files of other rates and depths, by this and other programs."""
    r = []
    for b in DEPTHS:
        for ch in (1, 2, 3, 6):
            for rate in RATES:
                r.append(["file %d %d %d %s" % (b, ch, rate, codes(rng, b, ch * rng.choice([0, 1, 2, 5, 9]))), "read -1"])
    lists = [s for s in r[::3]]
    for s in list(lists):
        r.append([s[0], "vread -1"])
    # every 8-bit code, and every byte at each place of the larger ones
    r.append(["file 8 1 44100 " + words(range(256)), "read -1"])
    for b in (16, 24):
        for k in range(b // 8):
            r.append(["file %d 1 44100 %s" % (b, words((lambda c: c - (1 << b) if c >= 1 << (b - 1) else c)((x << (8 * k)) | (rng.getrandbits(b) & ~(255 << (8 * k)))) for x in range(256))), "read -1"])
    for _ in range(times(tier, 80)):
        b = rng.choice(DEPTHS)
        ch = rng.choice([1, 2, rng.randint(1, 20)])
        r.append(["file %d %d %d %s" % (b, ch, rng.randint(1, 200000), codes(rng, b, ch * rng.randint(0, 12))), rng.choice(["read -1", "vread -1"])])
    for _ in range(times(tier, 60)):
        r.append(["bytes " + words(container(rng)), "read -1"])
    return r

def le(n, w):
    return list((n & ((1 << (8 * w)) - 1)).to_bytes(w, "little"))

def chunk(tag, body):
    return list(tag.encode()) + le(len(body), 4) + body + [0] * (len(body) % 2)

def container(rng, before=(), after=None, fmt_extra=None, bits=None, ch=None, n=None):
    """The bytes of a WAV file with chunks of other kinds around."""
    b = bits or rng.choice(DEPTHS)
    c = ch or rng.choice([1, 2, 3])
    n = rng.randint(0, 6) if n is None else n
    rate = rng.choice(RATES[:-2])
    body = [rng.randint(0, 255) for _ in range(n * c * b // 8)]
    fx = rng.choice([[], [], [0, 0], [rng.randint(0, 255) for _ in range(rng.choice([2, 4, 6, 24]))]]) if fmt_extra is None else fmt_extra
    f = le(1, 2) + le(c, 2) + le(rate, 4) + le(rate * c * b // 8, 4) + le(c * b // 8, 2) + le(b, 2) + fx
    if after is None:
        after = [chunk(rng.choice(["junk", "fact", "cue ", "bext"]), [rng.randint(0, 255) for _ in range(rng.randint(0, 9))]) for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < 0.4:
            after.append(list(b"LIST") + le(4 + 8 + 6, 4) + list(b"INFOISFT") + le(5, 4) + list(b"abcde\0"))
    chunks = []
    for x in before:
        chunks += x
    chunks += chunk("fmt ", f) + chunk("data", body)
    for x in after:
        chunks += x
    return list(b"RIFF") + le(4 + len(chunks), 4) + list(b"WAVE") + chunks

WIDEST = {8: 65535, 16: 32767, 24: 21845}   # channels in a frame of 16 bits
def widest(rng, tier):
    """As many channels as the header can tell of, and more."""
    r = []
    for b in DEPTHS:
        for ch in (WIDEST[b], WIDEST[b] + 1, 65536, 65537, 65536 + rng.randint(1, 20000), 131072 + rng.randint(0, 2)):
            r.append(["long %d %d %d %d %d 0" % (b, ch, 0 if ch > 65535 and rng.random() < 0.3 else 1, rng.randint(0, 999), rng.randint(0, 1))])
    return r

def long_trips(rng, tier):
    r = []
    for b in DEPTHS:
        for ch, n in ((1, 70001), (2, 70001), (3, 10001), (8, 4097)):
            r.append(["long %d %d %d %d 0 0" % (b, ch, n, rng.randint(0, 999))])
        for ch in (64, 127, 128, 255, 256, 257, 1000, 8191, 21845):
            r.append(["long %d %d %d %d %d 0" % (b, ch, rng.choice([1, 2, 3]), rng.randint(0, 999), rng.randint(0, 1))])
    if tier != "quick":
        for b in DEPTHS:
            r.append(["long %d 2 %d %d 0 0" % (b, 48000 * 120 + 1, rng.randint(0, 999))])
            r.append(["long %d 32 %d %d 1 0" % (b, 48000, rng.randint(0, 999))])
    return r

# ---------------------------------------------------------------- faults

def schedules(rng, fail):
    """A schedule of calls."""
    s = []
    for _ in range(rng.randint(1, 8)):
        s += [rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 44, rng.randint(1, 60), WHOLE])] * rng.choice([1, 1, 2, 5])
        if rng.random() < 0.5:
            s += [-1] * rng.choice([1, 1, 3, 20])
    if fail:
        s = s[:rng.randint(0, len(s))] + [rng.choice([-2, -2, 0])]
    else:
        s.append(rng.choice([1, 2, 3, 13, WHOLE]))
    return words(s)

def fault_tests(tests, rng, tier):
    """The model's schedules, for writing and for reading."""
    out = []
    setup = ["track %s" % samples28(rng, 3), "write 16 0"]
    for t in tests:
        side, s = t[0], list(t[1:])
        last = [] if s[-1] in (0, -2) else [WHOLE]
        if side == "w":
            out.append(setup + ["sched " + words(s + last), "write 16 0"])
        else:
            if s[-1] in (0, -2):
                # where a source that stops makes the riff crate panic is a known finding
                p = sum(x for x in s[:-1] if x > 0)
                pos = fed(s[:-1])
                if pos in PANICS or p >= 50:
                    continue
            out.append(setup + ["sched " + words(s + last), "read -1"])
    return out

# Lengths after which the riff crate panics because a length field is cut: bytes 5 to 8 of the file, the format chunk and the data chunk.
PANICS = [4, 5, 6, 7, 16, 17, 18, 19, 40, 41, 42, 43]
FIELDS = [4, 4, 4, 4, 4, 16, 4, 4]   # how the riff crate asks for the first 44 bytes
def fed(s):
    """How far the crate has got after these calls, when it reads field by field."""
    pos, need, fields = 0, 0, list(FIELDS)
    for e in s:
        if need == 0:
            need = fields.pop(0) if fields else WHOLE
        if e > 0:
            k = min(e, need)
            pos, need = pos + k, need - k
    return pos

def write_faults(rng, tier):
    r = []
    # every point of failure of a small file, byte by byte, by error and by refusing
    for b, ch, n in ((8, 1, 3), (16, 2, 2), (24, 1, 1)):
        size = 44 + (ch * n * b // 8 + 1) // 2 * 2
        head = ["track " + samples28(rng, n) for _ in range(ch)] + ["write %d 0" % b]
        for k in range(size + 1):
            for bad in (-2, 0):
                r.append(head + ["sched " + words([k, bad] if k else [bad]), "write %d 0" % b])
            if k % 3 == 0:
                r.append(head + ["sched " + words([1] * k + [-2]), "write %d 0" % b, "sched %d" % WHOLE, "write %d 0" % b, "read -1"])
    for _ in range(times(tier, 150)):
        ch, n = shapes(rng)
        b, clip = rng.choice(DEPTHS), rng.randint(0, 1)
        s = ["track " + samples28(rng, n) for _ in range(ch)] + ["write %d %d" % (b, clip)]
        for _ in range(rng.randint(1, 4)):
            s += ["sched " + schedules(rng, rng.random() < 0.5), "write %d %d" % (b, clip)]
        s += ["sched %d" % WHOLE, "write %d %d" % (b, clip), "read -1"]
        r.append(s)
    # a bigger file through a slow destination
    for b in DEPTHS:
        s = ["ftrack 300 %d" % rng.randint(0, 99), "ftrack 300 %d" % rng.randint(0, 99), "write %d 0" % b]
        r.append(s + ["sched 1", "write %d 0" % b])
        r.append(s + ["sched 512 -1 511 700 -2", "write %d 0" % b])
    return r

def read_faults(rng, tier):
    r = []
    for b, ch, n in ((8, 1, 3), (16, 2, 2), (24, 1, 1), (8, 1, 0)):
        lo, hi = lo_hi(b)
        f = "file %d %d 44100 %s" % (b, ch, codes(rng, b, ch * n))
        size = 44 + (ch * n * b // 8 + 1) // 2 * 2
        s = [f]
        for k in range(size + 1):
            if k in PANICS:
                continue
            # cut off; failing; ending
            s += ["read %d" % k, "vread %d" % k]
            if k < size:
                s += ["sched " + words([1] * k + [-2]), "read -1", "sched " + words([1] * k + [0]), "read -1", "sched " + words([1] * k + [-1] * 3 + [1]), "read -1", "sched %d" % WHOLE]
        for k in range(0, len(s) - 1, 40):
            r.append([f] + [x for x in s[1:] if 1][k:k + 40])
    fixed = []
    for s in r:  # groups start with the usual schedule
        fixed.append([s[0], "sched %d" % WHOLE] + s[1:])
    r = fixed
    for _ in range(times(tier, 150)):
        b = rng.choice(DEPTHS)
        ch = rng.choice([1, 2, 3, 5])
        n = rng.randint(0, 12)
        s = ["file %d %d %d %s" % (b, ch, rng.choice(RATES), codes(rng, b, ch * n))]
        for _ in range(rng.randint(1, 4)):
            s += ["sched " + schedules(rng, False), "read -1"]
        size = 44 + (ch * n * b // 8 + 1) // 2 * 2
        k = rng.randint(44, size)
        s += ["sched " + schedules(rng, False), "read %d" % k, "sched " + words([1] * k + [rng.choice([0, -2])]), "read -1"]
        r.append(s)
    return r

def clips(rng, tier):
    """In-range and out-of-range samples, and what cannot be written."""
    r = []
    INF = 1 << 62
    def wild():
        return rng.choice([S28, -S28, S28 + 32, -S28 - 32, 2 * S28, -2 * S28, INF, -INF, 100 * S28, -100 * S28, 0, rng.randint(-S28, S28), rng.randint(-4 * S28, 4 * S28), S28 - 16, 16 - S28])
    for _ in range(times(tier, 150)):
        ch, n = shapes(rng)
        b = rng.choice(DEPTHS)
        s = ["track " + words(wild() for _ in range(n)) for _ in range(ch)]
        s += ["write %d 1" % b, "read -1"]
        if rng.random() < 0.3:
            s.append("write %d 0" % b)
        if rng.random() < 0.3:
            s += ["clear"] + ["track " + samples28(rng, n) for _ in range(ch)] + ["write %d 0" % b, "write %d 1" % b, "read -1"]
        r.append(s)
    # one wild sample anywhere among tame ones
    for ch in (1, 2, 3):
        for n in (1, 2, 4):
            for k in range(ch * n):
                v = [[rng.randint(-S28, S28) for _ in range(n)] for _ in range(ch)]
                v[k // n][k % n] = rng.choice([1, -1]) * rng.choice([S28 + 32, 3 * S28, INF])
                r.append(["track " + words(t) for t in v] + ["write %d 1" % rng.choice(DEPTHS), "read -1"])
    # refusals
    for b in (0, 1, 4, 7, 9, 12, 15, 17, 23, 25, 32, 64, 8 + 256, 16 + 256, 65535):
        for c in (0, 1):
            r.append(["track " + samples28(rng, 2), "write %d %d" % (b, c)])
            r.append(["track", "write %d %d" % (b, c)])
    for b in DEPTHS:
        for c in (0, 1):
            r.append(["write %d %d" % (b, c)])
            for lens in ((1, 2), (2, 1), (0, 1), (1, 0), (3, 3, 2), (2, 3, 3), (3, 2, 3), (0, 0, 1), (4, 4, 4, 5), tuple([2] * 15 + [1])):
                r.append(["track " + words(wild() for _ in range(n)) for n in lens] + ["write %d %d" % (b, c), "clear", "track 0 1", "write %d %d" % (b, c)])
    r.append(["write 12 1", "write 0 0"])
    # a sample beyond full scale now and then in long tracks
    for b in DEPTHS:
        for ch, n, every in ((1, 70001, 1000), (2, 66000, 65537), (2, 20000, 1), (5, 5000, 77)) if tier == "quick" else ((1, 1000001, 9999), (2, 500000, 65537), (16, 70000, 7)):
            r.append(["long %d %d %d %d 1 %d" % (b, ch, n, rng.randint(0, 999), every)])
    return r

def vec_reader(rng, tier):
    r = []
    for n in (0, 1, 2, 3, 5):
        for a in range(n + 3):
            for b in range(n + 3):
                r.append(["bytes " + words(rng.randint(0, 255) for _ in range(n)), "vr %d %d %d %d" % (a, b, rng.randint(0, 4), n + 1)])
    for _ in range(times(tier, 150)):
        n = rng.choice([0, 1, 7, 64, rng.randint(0, 300)])
        r.append(["bytes " + words(rng.randint(0, 255) for _ in range(n)),
                  "vr " + words(rng.choice([0, 1, 2, n // 2, n, n + 1, rng.randint(0, n + 5)]) for _ in range(rng.randint(1, 12)))])
    n = 3000
    r.append(["bytes " + words(rng.randint(0, 255) for _ in range(n)), "vr " + words([1000, 0, 1, 999, 5000, 1, 0, 10])])
    for n in (70001, 140000) if tier == "quick" else (70001, 140000, 300000, 1 << 20):
        r.append(["bytes " + words(rng.randint(0, 255) for _ in range(n)), "vr " + words(rng.choice([[n + 1, 1], [65536, 65537, n], [1, n - 2, 1, 1], [n // 2, n // 2, n]]))])
    for _ in range(times(tier, 40)):
        r.append(["bytes " + words(container(rng)), "vread -1", "read -1", "sched " + schedules(rng, False), "read -1"])
    return r

# ---------------------------------------------------------------- codes and formats

def all_codes(rng, tier):
    r = [["code 8 0 255 1"]]
    for a in range(-32768, 32768, 2048):
        r.append(["code 16 %d %d 1" % (a, a + 2047)])
    for a in range(-(1 << 23), 1 << 23, 1 << 20):
        r.append(["code 24 %d %d %d" % (a, a + (1 << 20) - 1, rng.choice([997, 1009, 1021]) if tier == "quick" else 61)])
    r.append(["code 24 -300 300 1", "code 24 %d %d 1" % (-(1 << 23), 300 - (1 << 23)), "code 24 %d %d 1" % ((1 << 23) - 300, (1 << 23) - 1)])
    r.append(["runs"])
    for _ in range(times(tier, 20)):
        r.append(["upper %d %d" % (rng.choice([0, 1, -1, (1 << 23) - 1, -(1 << 23), rng.randint(-(1 << 23), (1 << 23) - 1)]), rng.choice([0, 255, 1, 127, 128, rng.randint(0, 255)])) for _ in range(20)])
    return r

def encodings(rng, tier):
    r = []
    for b in DEPTHS:
        for _ in range(times(tier, 12)):
            v = []
            for _ in range(40):
                x = rng.random()
                if x < 0.2:
                    v.append(rng.choice([0, S29, -S29, 1, -1, S29 - 32, 32 - S29, 64, -64]))
                elif x < 0.5:   # next to the middle between two codes
                    lo, hi = lo_hi(b)
                    c = rng.randint(lo + 1, hi - 1)
                    s = ((c - 128 + 0.5) / 128 if b == 8 else (c + 0.5) / hi) * S29
                    d = {8: 2 ** 21, 16: 8192, 24: 32}[b]
                    v.append(max(-S29, min(S29, int(s + rng.choice([-1, 1]) * rng.uniform(0, d)))))
                else:
                    v.append(rng.randint(-S29, S29))
            r.append(["enc %d %s" % (b, words(v))])
    return r

def num(rng):
    return rng.choice([0, S, -S, S // 2, 1, -1, rng.randint(-S, S), rng.randint(-4 * S, 4 * S) // 8 * 8])

OPS = ("add", "sub", "mul", "muls", "mulm", "neg")
def operators(rng, tier):
    r = []
    for f, n in (("mono", 1), ("stereo", 2)):
        for o in OPS:
            for _ in range(times(tier, 4)):
                r.append(["op %s %s %s %s %d" % (o, f, words(num(rng) for _ in range(n)), words(num(rng) for _ in range(n)), num(rng)) for _ in range(15)])
            # numbers of all magnitudes
            for _ in range(times(tier, 3)):
                t = []
                for _ in range(20):
                    p, z = rng.choice([(0, 0), (rng.randint(-10, 30), rng.randint(-10, 10)), (rng.randint(-50, 50), rng.randint(-50, 50))])
                    k = rng.choice([1, 3, 1000])
                    t.append("far %s %s %d %d %s %d" % (o, f, p, z, words(rng.randint(-k, k) for _ in range(2 * n)), rng.randint(-k, k)))
                r.append(t)
        r.append(["conv %s %d" % (f, num(rng)) for _ in range(times(tier, 40))])
        r.append(["farconv %s %d %d" % (f, p, rng.choice([1, -1, rng.randint(-1000, 1000)])) for p in list(range(-60, 61, 4)) + [rng.randint(-20, 20) for _ in range(20)]])
        r.append(["scale %s %d %d" % (f, p, z) for p, z in ((0, 0), (100, -200), (-100, 200), (-120, 140), (120, -140), (-120, -20), (0, 120), (10, -130), (-1, 1), (120, -240), (-100, 220)) if -125 < p + z < 125])
        r.append(["make %d %d" % (rng.choice([0, S, -S, 1, -1, num(rng)]), num(rng)) for _ in range(times(tier, 10))])
        # sequences on an accumulator
        for _ in range(times(tier, 40)):
            s = ["acc set %s %s 0" % (f, words(num(rng) for _ in range(n)))]
            size = 4
            for _ in range(rng.randint(3, 20)):
                o = rng.choice(OPS)
                b = words(rng.randint(-S, S) for _ in range(n))
                g = rng.choice([S, -S, S // 2, rng.randint(-S, S)])
                size += o in ("add", "sub")
                if size > 40:
                    s.append("acc set %s %s 0" % (f, b))
                    size = 4
                s.append("acc %s %s %s %d" % (o, f, b, g))
            r.append(s)
        # vectors of codes
        for b in DEPTHS:
            for k in range(0, 5):
                r.append(["codes %s %d %s" % (f, b, codes(rng, b, k)) for _ in range(times(tier, 6))])
            lo, hi = lo_hi(b)
            vals = sorted({lo, lo + 1, -1 if lo else 127, 0, 1, hi - 1, hi} | {rng.randint(lo, hi) for _ in range(20)})
            r.append(["codes %s %d %d %d" % (f, b, x, rng.choice(vals)) for x in vals])
    # both formats, one after the other on accumulators of their own
    for _ in range(times(tier, 10)):
        r.append([("acc %s mono %d %d" % (rng.choice(OPS), rng.randint(-S, S), rng.randint(-S, S))) if rng.random() < 0.5 else
                  ("acc %s stereo %d %d %d" % (rng.choice(OPS), rng.randint(-S, S), rng.randint(-S, S), rng.randint(-S, S))) for _ in range(15)])
    return r

def pans(rng, tier):
    r = []
    places = [S * k // 16 for k in range(-16, 17)] + [1, -1, S - 1, 1 - S, S + 64, -S - 64, 2 * S, -3 * S, 60 * S, -60 * S]
    for f in ("stereo", "mono"):
        for pr in ("f32", "f64"):
            s = ["pan %s %s %d %d" % (f, pr, x, g) for g in places for x in (S, -S // 2)]
            s += ["pan %s %s %d %d" % (f, pr, num(rng), rng.choice([rng.randint(-S, S), rng.randint(-S, S) >> rng.randint(0, 20), rng.randint(-2 * S, 2 * S) // 4 * 4])) for _ in range(times(tier, 100))]
            for k in range(0, len(s), 40):
                r.append(s[k:k + 40])
    # the same place in both precisions, and mirrored
    for _ in range(times(tier, 40)):
        g, x = rng.randint(-S, S), num(rng)
        r.append(["pan stereo %s %d %d" % (p, x * a, g * b) for p in ("f32", "f64") for a in (1, -1) for b in (1, -1)])
    return r

# ---------------------------------------------------------------- utilities

def norms(rng, tier):
    r = []
    dbs = [0, -1, -3000, -6000, -20000, 3000, 6000, -60000, 12000]
    for n in (0, 1, 2, 3, 4):
        for _ in range(8):
            r.append(["norm %d 0 L %s" % (rng.choice(dbs), words(num(rng) for _ in range(n)))])
    for c in (0, S, -S, S // 3, 5, 12345678):   # constant tracks
        for n in (1, 2, 3, 7, 100):
            r.append(["norm %d 0 L %s" % (rng.choice(dbs), words([c] * n))])
    for _ in range(times(tier, 60)):
        n = rng.randint(2, 60)
        v = [num(rng) // rng.choice([1, 1, 100]) for _ in range(n)]
        x = rng.random()
        if x < 0.2:    # all on one side
            v = [abs(a) for a in v]
        elif x < 0.4:
            v = [-abs(a) for a in v]
        elif x < 0.6:  # far from 0
            o = rng.choice([1, -1]) * rng.randint(S, 4 * S) // 8 * 8
            v = [a // 8 * 8 + o for a in v]
        elif x < 0.7:  # one peak
            v = [0] * n
            v[rng.randrange(n)] = rng.choice([S, -S, 1000, -1000])
        if len(set(v)) == 1 or max(v) - min(v) < 2000:
            v[0] += 100000
        r.append(["norm %d %d L %s" % (rng.choice(dbs + [rng.randint(-80000, 12000)]), rng.choice([0, 0, 0, 10, -10, 60, -60, 90, -90]), words(v))])
    for _ in range(times(tier, 12)):
        r.append(["norm %d %d F %d %d %d" % (rng.choice(dbs), rng.choice([0, 0, 30, -30]), rng.choice([100, 480, 1500]), rng.randint(0, 99), rng.choice([0, 0, S // 10, -S // 4, 2 * S]))])
    r.append(["norm -3000 0 F %d 7 %d" % (3000 if tier == "quick" else 12000, S // 7)])
    for n in (9000, 20000, 70001) if tier == "quick" else (20000, 70001, 140000, 300000, 1000003):
        # an offset from somewhere on, and a peak somewhere
        r.append(["normlong %d %d %d %d %d %d %d" % (rng.choice(dbs), n, rng.randint(0, 99), rng.choice([S // 10, -S // 5, S // 3]), rng.choice([0, rng.randint(0, n), n - n // 8]), rng.choice([0, n - 1, rng.randint(0, n - 1)]), rng.choice([1, -1]) * rng.randint(2 * S, 3 * S))])
    return r

def units(rng, tier):
    r = []
    ns = list(range(0, 30)) + [47999, 48000, 48001, 95999, 96000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 1, (1 << 30) - 1]
    ns += [rng.randint(0, 200000) for _ in range(times(tier, 150))] + [rng.randint(0, (1 << 30) - 1) for _ in range(times(tier, 150))]
    for k in range(0, len(ns), 50):
        r.append(["s2s %d" % n for n in ns[k:k + 50]])
    r.append(["big %d %d" % (rng.choice([0, 1, 23, 24, 100, 240, 1000, rng.randint(0, 240), 8760]), rng.choice([0, 1, 47999, 48000, rng.randint(0, 3600 * 48000 - 1), rng.randint(0, 100000)])) for _ in range(times(tier, 150))])
    ds = []
    for _ in range(times(tier, 300)):
        sec = rng.choice([0, 0, 1, 59, 3600, 20000, rng.randint(0, 20000)])
        k = rng.randint(0, 47999)
        x = rng.random()
        ns_ = rng.randint(0, 999999999) if x < 0.4 else min(999999999, max(0, int((k + (0.5 if x < 0.7 else 0)) * 62500 / 3) + rng.choice([-2, -1, 0, 1, 2])))
        ds.append("dur %d %d" % (sec, ns_))
    ds += ["dur 0 0", "dur 0 1", "dur 0 999999999", "dur 1 0", "dur 0 10416", "dur 0 10417"]
    for k in range(0, len(ds), 60):
        r.append(ds[k:k + 60])
    db = [0, 20000, -20000, 40000, -40000, 60000, 6000, -6000, 3000, -3000, 1, -1, 120000, -120000] + [rng.randint(-120000, 120000) for _ in range(times(tier, 120))]
    r.append(["db %d" % d for d in db])
    tens = list(range(-30, 31)) + [rng.randint(-200, 200) for _ in range(40)]
    r.append(["db %d %d" % (rng.randint(-20000, 20000), t) for t in tens])
    r.append(["lin %d %d" % (rng.randint(S // 10, S), t) for t in tens])
    gs = [1 << k for k in range(10, 30)] + [rng.randint(2000, 1 << 29) for _ in range(times(tier, 80))] + [rng.randint(2000, S) for _ in range(times(tier, 40))]
    r.append(["lin %d" % g for g in gs])
    return r

def lerps(rng, tier):
    r = []
    def pt():
        return rng.choice([0, S, -S, 10 * S, -10 * S, rng.randint(-S, S) // 64 * 64, rng.randint(-30 * S, 30 * S) // 64 * 64])
    for pr in ("f32", "f64"):
        for _ in range(times(tier, 12)):
            s = []
            while len(s) < 30:
                x1, x2 = pt(), pt()
                if rng.random() < 0.15:
                    x2 = x1 + rng.choice([-1, 1]) * 64 * rng.choice([1, 2, 100])
                if x1 == x2 or abs(x2) > 31 * S:
                    continue
                y1, y2 = (rng.choice([0, S, -S, 16 * S, -16 * S, rng.randint(-16 * S, 16 * S) // 64 * 64]) for _ in range(2))
                w = x2 - x1
                x = rng.choice([x1, x2, x1 + w // 2, x1 - w, x2 + w, x1 + int(w * rng.uniform(-2, 3)), x1 + int(w * rng.random())]) // 64 * 64
                if abs(x) > 31 * S and abs(w) > 64 * 200:
                    continue
                s.append("lerp %s %d %d %d %d %d" % (pr, x, x1, x2, y1, y2))
            r.append(s)
        # numbers that are alike but for less than some distance, or not; all exact
        s = []
        for _ in range(times(tier, 40)):
            a, e = rng.choice([0, rng.randint(-30000, 30000)]), rng.choice([0, 1, 2, 1024, -1, rng.randint(1, 5000)])
            b = a + rng.choice([1, -1]) * (e + rng.choice([-1, 0, 1, rng.randint(-3000, 3000)]))
            s.append("near %s %d %d %d" % (pr, a * 16384, b * 16384, e * 16384))
        r.append(s)
        # clamping only: far away
        r.append(["lerp %s %d %d %d %d %d" % (pr, rng.choice([1, -1]) * rng.randint(3, 30) * S, a, b, c, d) for a, b in ((0, S), (S, 0), (-S, S), (S, -S), (-2 * S, -S)) for c, d in ((0, S), (S, -S), (3 * S, 3 * S))])
    return r

# ---------------------------------------------------------------- bin2str

def listings(rng, tier):
    r = [["bytes " + words(b)] for b in ([], [0], [255], [10], [9, 10, 99, 100, 255], list(range(256)), list(range(255, -1, -1)))]
    for n in range(1, 70):
        r.append(["bytes " + words(rng.choice([[rng.randint(0, 9)], [rng.randint(10, 99)], [rng.randint(100, 255)], [0, 255, 47]])[0] for _ in range(n))])
    for v in (0, 7, 10, 99, 100, 255):   # every place a line may wrap at
        for n in ([13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 26, 27, 28, 38, 39, 40, 41]):
            r.append(["bytes " + words([v] * n)])
    for _ in range(times(tier, 60)):
        n = rng.choice([rng.randint(1, 100), rng.randint(1, 1500)])
        k = rng.choice([10, 100, 256])
        r.append(["bytes " + words(rng.randrange(k) for _ in range(n))])
    # files of more than a buffer, a page or a block, of whatever size
    for n in (1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32769, 65535, 65536, 65537, 100003) if tier == "quick" else \
            [2 ** k + d for k in range(10, 21) for d in (-1, 0, 1)] + [1500001]:
        r.append(["bytes " + words(rng.randint(0, 255) for _ in range(n))])
    # one after the other over the same output, so that a shorter one replaces a longer one
    r.append(["bytes " + words(rng.randint(0, 255) for _ in range(n)) for n in (300, 5, 0, 40, 1)])
    return r

def stopped_listings(rng, tier):
    """Something is in the way: no file, nowhere to write the table, not enough room for it."""
    some = [rng.randint(0, 255) for _ in range(200)]
    r = [["missing"], ["nowhere " + words(some), "bytes 1 2 3"], ["bytes " + words(some), "missing", "bytes 7"],
         ["room 0 " + words(some), "bytes 5 6"], ["room 5000 " + words(some)], ["bytes " + words(some), "room 10 " + words(some)]]
    for _ in range(times(tier, 60)):
        b = [rng.randint(0, 255) for _ in range(rng.choice([rng.randint(0, 40), rng.randint(1, 3000)]))]
        k = len(", ".join(map(str, b))) + 40
        r.append(["room %d %s" % (rng.choice([rng.randint(0, k), rng.randint(max(0, k - 20), k + 20), 6 * len(b) + 1000 + rng.randint(0, 9)]), words(b))])
    for n in (3000, 30000):
        b = [rng.randint(0, 255) for _ in range(n)]
        r += [["room %d %s" % (k, words(b))] for k in (4095, 4096, 8192, 2 * n - 1)]
    return r

def install(PROPS):
    def m(cfg, module, **kw):
        return dict(cfg=cfg + ".cfg", module=module, **kw)
    def part(name, make, suite="wav", trace="Trace_Wav", **kw):
        return dict(name=name, make=make, suite=suite, trace=trace, **kw)
    F, U = dict(suite="fmt", trace="Trace_Fmt"), dict(suite="misc", trace="Trace_Misc")
    WAV = [m("MC_Wav", "MC_Wav"), m("MC_Pcm", "MC_Pcm")]
    FAULT = [m("MC_Wav", "MC_Wav"), m("MC_Wav_Emit", "MC_Wav", emit=True)]
    PROPS["C20"] = dict(models=WAV, parts=[part("roundtrips", roundtrips), part("levels", every_level), part("foreign", foreign), part("long", long_trips)],
        known={"chunks": ("wav", "Trace_Wav", {}, ["bytes " + words(list(b"RIFF") + le(52, 4) + list(b"WAVE") + chunk("fmt ", le(1, 2) + le(1, 2) + le(8000, 4) + le(16000, 4) + le(2, 2) + le(16, 2)) + chunk("junk", [1, 0, 2, 0]) + chunk("data", le(1000, 2) + le(2000, 2))), "read -1"])},
        assumptions=["samples are compared to a fraction of a step of their depth", "files are well formed: whole frames, a channel at least, the format chunk before the data chunk and nothing between them (see known_findings.txt)"])
    PROPS["C21"] = dict(models=FAULT, parts=[part("transitions", fault_tests, emit="MC_Wav_Emit.cfg"), part("writes", write_faults), part("reads", read_faults)],
        known={"cut": ("wav", "Trace_Wav", {}, ["file 16 1 48000 1 2 3", "read 6"]), "cutchunk": ("wav", "Trace_Wav", {}, ["file 16 1 48000 1 2 3", "read 42"])},
        assumptions=["a source that stops or fails within the four bytes of a chunk's length is left out (see known_findings.txt)"])
    PROPS["C22"] = dict(models=WAV, parts=[part("clips", clips), part("widest", widest)], assumptions=["with clipping off, samples beyond 1 may be written as anything"])
    PROPS["C23"] = dict(models=[m("MC_Pcm", "MC_Pcm")], parts=[part("codes", all_codes, **F), part("encodings", encodings, **F)],
        assumptions=["24-bit codes are compared within 0.8 of a step, which is half that of 32-bit samples"])
    PROPS["C24"] = dict(models=[m("MC_Pcm", "MC_Pcm"), m("MC_Units", "MC_Units")], parts=[part("operators", operators, **F)], assumptions=["results are compared within the rounding of 32-bit samples"])
    PROPS["C25"] = dict(models=[m("MC_Units", "MC_Units")], parts=[part("pans", pans, **F)], assumptions=["gains are compared to 2 parts in a million"])
    PROPS["C26"] = dict(models=[m("MC_Units", "MC_Units")], parts=[part("norms", norms, **U)], assumptions=["offsets are exact to the rounding of 32-bit samples"])
    PROPS["C27"] = dict(models=[m("MC_Units", "MC_Units")], parts=[part("units", units, **U), part("lerps", lerps, **U)],
        assumptions=["a duration in the middle between two samples may be rounded to either", "round trips up to a year, nanoseconds compared up to 1000 hours"])
    PROPS["C28"] = dict(models=[m("MC_Listing", "MC_Listing")], parts=[part("listings", listings, suite="bin2str", trace="Trace_Listing"),
                          part("stopped", stopped_listings, suite="bin2str", trace="Trace_Listing")],
        assumptions=["lines of up to 100 characters are of bounded width", "with room for six characters a byte and a thousand more, a listing fits"])
    PROPS["C29"] = dict(models=[m("MC_Wav", "MC_Wav")], parts=[part("reader", vec_reader)], assumptions=[])
