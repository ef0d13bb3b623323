#!/usr/bin/env python3
"""Decides one property of BAE.

  check.py C01                 the check of a property (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE       runs the scenario of a replay file again
  check.py --setup             builds the harness and the TLC overrides

1. TLC checks the design (spec/MC_*.tla) and, where the property has them,
   prints one test per transition of the state graph.
2. The harness plays these and seeded random scenarios on the real code, built
   from /repo's working tree, and records what happened.
3. TLC checks that every recorded history is a behaviour of the specification
   (spec/Trace_*.tla).

Exit 0: held. 1: VIOLATION line. 2: no answer (a tool failed).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
TLA = "/opt/veriftools/tla/"
JARS = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"
CLASSES = os.path.join(BUILD, "classes")
BIN = os.path.join(BUILD, "target", "debug", "bae_harness")
CARGO_ENV = dict(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
                 CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))

class NoAnswer(Exception):
    pass

def sh(cmd, timeout, env=None, cwd=None, mem_gb=None, file_bytes=None):
    def lim():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        if file_bytes is not None:  # writing beyond is an error, not a signal
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (file_bytes, file_bytes))
    e = dict(os.environ)
    e.update(env or {})
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                           preexec_fn=lim, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ""
        return None, o if isinstance(o, str) else o.decode(errors="replace")

def build():
    os.makedirs(CLASSES, exist_ok=True)
    src, cls = os.path.join(HERE, "java", "FPOverrides.java"), os.path.join(CLASSES, "FPOverrides.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        rc, o = sh(["javac", "-cp", JARS, "-d", CLASSES, src], 300)
        if rc != 0:
            raise NoAnswer("javac failed:\n" + o)
    # cargo goes by modification times, which a copied or restored tree may not tell the truth about
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk("/repo/src")):
        for f in sorted(fs):
            h.update((d + "/" + f + "\0").encode() + open(os.path.join(d, f), "rb").read() + b"\0")
    h.update(open("/repo/Cargo.toml", "rb").read())
    stamp = os.path.join(BUILD, "source.sha256")
    if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
        for d in glob.glob(os.path.join(BUILD, "target", "debug", ".fingerprint", "bae_rs-*")):
            shutil.rmtree(d, ignore_errors=True)
    rc, o = sh(["cargo", "build", "--offline", "--locked"], 800, env=CARGO_ENV, cwd=os.path.join(HERE, "harness"))
    if rc != 0:
        raise NoAnswer("the harness doesn't build:\n" + o[-4000:])
    with open(stamp, "w") as f:
        f.write(h.hexdigest())

# ---------------------------------------------------------------- TLC

def tlc(cfg, module, env=None, workers=1, heap="3g", timeout=600, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=TMP)
    try:
        return sh(["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss512m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta,
                   "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FPOverrides",
                   "-cp", CLASSES + ":" + JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
                   "-workers", str(workers), "-config", cfg, *extra, module], timeout, env=env, cwd=SPEC)
    finally:
        shutil.rmtree(meta, ignore_errors=True)

STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)

class ModelRun:
    """One design check."""
    def __init__(self, cfg, module, rc, out):
        self.cfg, self.module, self.out = cfg, module, out
        m = STATES.search(out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if rc != 0 or "No error has been found" not in out or not m:
            raise NoAnswer("TLC on the design %s (%s), exit %s:\n%s" % (module, cfg, rc, out[-3000:]))
        self.tests = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"TEST ')]

def model(cfg, module, workers=2, timeout=840, heap="4g"):
    rc, o = tlc(cfg, module, workers=workers, timeout=timeout, heap=heap)
    return ModelRun(cfg, module, rc, o)

# ---------------------------------------------------------------- conformance

class Violation(Exception):
    def __init__(self, suite, env, trace, scenario, why, event=None):
        Exception.__init__(self, why)
        self.suite, self.env, self.trace, self.scenario, self.why, self.event = suite, env, trace, scenario, why, event

def play(suite, scenarios, tag, timeout=300):
    """Plays scenarios (lists of lines) on the real code; returns the trace's path and what stopped it, if anything."""
    script, out = os.path.join(TMP, tag + ".ops"), os.path.join(TMP, tag + ".json")
    if suite == "bin2str":
        return play_bin2str(scenarios, out)
    with open(script, "w") as f:
        for n, s in enumerate(scenarios):
            f.write("S %d\n" % n)
            for x in s:
                f.write(x + "\n")
    rc, o = sh([BIN, suite, script, out], timeout, mem_gb=8)
    if rc == 0:
        return out, None, int(re.search(r"EVENTS (\d+)", o).group(1))
    if rc == 3 or "HARNESS" in o:
        raise NoAnswer("harness: " + o[-2000:])
    # It hung, aborted or ran out of memory in the code under test, in the scenario started last.
    last = 0
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('{"e":"S"') and line.endswith("}\n"):
                    last = json.loads(line)["n"]
    return out, (last, "hung" if rc is None else "ended with %s: %s" % (rc, o[-300:])), 0

BIN2STR_LOCK = threading.Lock()
def play_bin2str(scenarios, out):
    """The same for bin2str, a program that lists input.wav in output.rs."""
    exe = os.path.join(TMP, "bin2str")
    with BIN2STR_LOCK:
        if not os.path.exists(exe):
            rc, o = sh(["rustc", "--edition", "2018", "-o", exe, "/repo/utility/bin2str/src/main.rs"], 300, env=CARGO_ENV)
            if rc != 0:
                raise NoAnswer("bin2str doesn't build:\n" + o[-3000:])
    n = 0
    with open(out, "w") as f:
        def put(e):
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
        for k, s in enumerate(scenarios):
            put(dict(e="S", n=k))
            d = tempfile.mkdtemp(prefix="b2s-", dir=TMP)
            for line in s:
                op, b = line.split()[0], [int(x) for x in line.split()[1:]]
                room = b.pop(0) if op == "room" else None
                inp, outp = os.path.join(d, "input.wav"), os.path.join(d, "output.rs")
                for x in (inp, outp) if op != "bytes" or os.path.isdir(outp) else ():  # no old table to take for a new one
                    if os.path.isdir(x):
                        os.rmdir(x)
                    elif os.path.exists(x):
                        os.remove(x)
                if op == "nowhere":
                    os.mkdir(outp)
                if op != "missing":
                    with open(inp, "wb") as g:
                        g.write(bytes(b))
                put(dict(e="in", b=b, op=op, room=-1 if room is None else room))
                rc, o = sh([exe], 60, cwd=d, mem_gb=4, file_bytes=room)
                if os.path.isfile(outp):
                    with open(outp, "rb") as g:
                        text = list(g.read())
                    cur = []
                    if rc != 0:  # where it stopped needn't be the end of a line
                        text = text[:len(text) - text[::-1].index(10)] if 10 in text else []
                    for c in text + ([10] if rc == 0 and text[-1:] != [10] else []):
                        if c == 10:
                            put(dict(e="line", c=cur))
                            n += 1
                            cur = []
                        else:
                            cur.append(c)
                put(dict(e="end", rc=-1 if rc is None else rc))
                n += 2
            shutil.rmtree(d)
    return out, None, n

REJ = re.compile(r'^"REJECTED_AT (\d+)"', re.M)
LVAR = re.compile(r"^/\\ l = (\d+)", re.M)

def judge(trace_mod, path, env, timeout=800, heap="3g"):
    """None if the trace is a behaviour of the specification, else (index of the event, why); events count from 1."""
    e = dict(env or {})
    e["TR"] = path
    rc, o = tlc("Trace.cfg", trace_mod, env=e, timeout=timeout, heap=heap)
    if '"ACCEPTED ' in o and rc == 0:
        m = STATES.search(o)
        return None, (int(m.group(2)), int(m.group(1)))
    m = REJ.search(o)
    if m:
        return (int(m.group(1)), "no action of the specification allows this event"), (0, 0)
    ls = LVAR.findall(o)
    if ls and ("The behavior up to this point is" in o or "Error: " in o) and "OutOfMemory" not in o and "StackOverflow" not in o:
        err = re.search(r"^Error: (.*)$", o, re.M)
        # A recorded event the specification has no meaning for.
        return (int(ls[-1]), "the specification gives this event no meaning (%s)" % (err.group(1) if err else "?")), (0, 0)
    errs = "\n".join(x[:300] for x in o.splitlines() if "rror" in x)
    raise NoAnswer("TLC on %s, exit %s:\n%s\n...\n%s" % (trace_mod, rc, errs[:2000], o[-500:]))

def locate(path, index):
    """The scenario an event belongs to, and the event."""
    scn, n, ev = 0, 0, ""
    with open(path, errors="replace") as f:
        for line in f:
            n += 1
            if line.startswith('{"e":"S"'):
                scn = json.loads(line)["n"]
            if n == index:
                ev = line.strip()
                break
    return scn, ev

def conform(suite, trace_mod, env, scenarios, tag, heap="3g"):
    path, stop, events = play(suite, scenarios, tag)
    if stop:
        raise Violation(suite, env, trace_mod, scenarios[stop[0]], "the code under test " + stop[1])
    bad, st = judge(trace_mod, path, env, heap=heap)
    if bad:
        scn, ev = locate(path, bad[0])
        raise Violation(suite, env, trace_mod, scenarios[scn], bad[1], ev)
    os.unlink(path)
    return events, st

def balance(scenarios, k):
    """k groups of about the same length, keeping order within a group."""
    w = [sum(weight(x) for x in s) + 1 for s in scenarios]
    groups, load = [[] for _ in range(k)], [0] * k
    for n in sorted(range(len(scenarios)), key=lambda i: -w[i]):
        j = load.index(min(load))
        groups[j].append(n)
        load[j] += w[n]
    return [[scenarios[n] for n in sorted(g)] for g in groups if g]

def weight(line):
    t = line.split()
    if t[0] == "bytes":
        return 1 + len(t) // 20
    if t[0] in ("code", "ftrack", "norm"):
        return int(t[3] if t[0] == "norm" and t[2] == "F" else 1) if t[0] != "code" else (int(t[3]) - int(t[2])) // int(t[4])
    if t[0] == "normlong":
        return int(t[2]) // 4
    if t[0] == "churn":
        return int(t[1]) // 20
    if t[0] in ("g", "pf"):
        return int(t[2])
    return max(1, len(t) // 8) if t[0] != "p" else len(t)

# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """Listed findings of a property: key -> (regular expression of the event that shows it, description)."""
    r = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) event=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = (m.group(3), m.group(4))
    return r

# ---------------------------------------------------------------- the check

def save_replay(prop, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, suite=v.suite, trace=v.trace, env=v.env, why=v.why, event=v.event, scenario=v.scenario)
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p

def run(prop):
    import suites
    t0 = time.time()
    spec = suites.PROPS[prop]
    known = known_findings(prop)
    # Design checks that make tests go first, next to the build.
    pool = cf.ThreadPoolExecutor(16)
    b = pool.submit(build)
    models = [m for m in spec.get("models", []) if TIER in m.get("tiers", ("quick", "thorough"))]
    b.result()  # the overrides' classes are part of it
    emits = {m["cfg"]: pool.submit(model, m["cfg"], m["module"], 1) for m in models if m.get("emit")}
    others = [pool.submit(model, m["cfg"], m["module"], m.get("workers", 2)) for m in models if not m.get("emit")]
    ev = dict(events=0, traces=0, trace_states=0, samples=[], parts={})
    violation, noans = None, None
    try:
        jobs = []
        for part in spec["parts"]:
            if TIER not in part.get("tiers", ("quick", "thorough")):
                continue
            rng = random.Random("%s/%s/%s" % (SEED, prop, part["name"]))
            if "emit" in part:
                tests = emits[part["emit"]].result().tests
                scns = part["make"](tests, rng, TIER)
            else:
                scns = part["make"](rng, TIER)
            if not scns:
                raise NoAnswer("no scenarios in " + part["name"])
            suites.amplify(scns, part["suite"], rng, part.get("straight", False))
            ev["parts"][part["name"]] = len(scns)
            ev["traces"] += len(scns)
            ev["samples"].append(dict(part=part["name"], scenario=min(scns[len(scns) // 3:], key=lambda s: abs(sum(map(len, s)) - 200))[:40]))
            k = min(part.get("jvms", 8), max(1, sum(weight(x) for s in scns for x in s) // 3000))
            for n, g in enumerate(balance(scns, k)):
                jobs.append((part, g, "%s-%s-%d" % (prop, part["name"], n)))
        sem = threading.Semaphore(8)
        def one(part, g, tag):
            with sem:
                return conform(part["suite"], part["trace"], part.get("env", {}), g, tag, part.get("heap", "3g"))
        fs = [pool.submit(one, *j) for j in jobs]
        for f in cf.as_completed(fs):
            try:
                e, st = f.result()
                ev["events"] += e
                ev["trace_states"] += st[0]
            except Violation as v:
                violation = violation or v
            except NoAnswer as x:
                noans = noans or x
        # Histories known to fail.
        for key, (suite, trace_mod, env, scn) in spec.get("known", {}).items():
            try:
                conform(suite, trace_mod, env, [scn], prop + "-known-" + key)
            except Violation as v:
                shown = v.event or v.why
                if key in known and re.search(known[key][0], shown):
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[key][1]))
                else:
                    violation = violation or v
    except Violation as v:
        violation = v
    except NoAnswer as x:
        noans = x
    runs = []
    for f in list(emits.values()) + others:
        try:
            runs.append(f.result())
        except NoAnswer as x:
            noans = noans or x
    if violation is None and noans is not None:
        raise noans
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=TIER, seed=SEED, level="model_checking",
            coverage=dict(
                states=sum(r.distinct for r in runs) + ev["trace_states"],
                transitions=sum(r.generated for r in runs) + ev["events"],
                traces_validated_against_impl=ev["traces"],
                samples=ev["samples"][:6],
                events_validated=ev["events"],
                scenarios_by_part=ev["parts"],
                design_models=[dict(module=r.module, cfg=r.cfg, generated=r.generated, distinct=r.distinct, tests_emitted=len(r.tests)) for r in runs]),
            assumptions=spec.get("assumptions", []),
            wall_s=round(time.time() - t0, 2), violations=1 if violation else 0), f, indent=1)
    if violation:
        p = save_replay(prop, violation)
        print("why: " + violation.why)
        if violation.event:
            print("event: " + violation.event[:600])
        print("scenario (last lines): " + " ; ".join(violation.scenario[-6:])[:600])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    print("OK property=%s models=%d states=%d traces=%d events=%d wall=%.1fs" %
          (prop, len(runs), sum(r.distinct for r in runs), ev["traces"], ev["events"], time.time() - t0))
    return 0

def replay(path):
    r = json.load(open(path))
    build()
    try:
        conform(r["suite"], r["trace"], r["env"], [r["scenario"]], "replay")
    except Violation as v:
        print("why: %s\nevent: %s\nscenario:\n  %s" % (v.why, v.event, "\n  ".join(v.scenario)))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("The scenario of %s is a behaviour of the specification." % path)
    return 0

TMP = None
def main():
    global TMP
    TMP = tempfile.mkdtemp(prefix="verif-")
    sys.modules["check"] = sys.modules["__main__"]
    sys.path.insert(0, HERE)
    try:
        if sys.argv[1] == "--setup":
            build()
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return run(sys.argv[1])
    except NoAnswer as x:
        print("NO ANSWER: %s" % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(TMP, ignore_errors=True)

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
