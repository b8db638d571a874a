#!/usr/bin/env python3
"""Supervisor: builds the harness from /repo's working tree, explores a property's spaces in a
worker process, confirms violations by replay, writes evidence. See DESIGN.md."""
import hashlib, json, os, re, resource, shlex, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
SLOT_WORDS, SLOTS = 2048, 64
THREADS = int(os.environ.get("VERIF_THREADS", "8"))

CONFIGS = {  # name: (profile, features)
    "std-rel": ("rel", "std"), "std-dbg": ("dbg", "std"),
    "alloc-rel": ("rel", "alloc"), "alloc-dbg": ("dbg", "alloc"),
    "none-rel": ("rel", ""), "none-dbg": ("dbg", ""),
    "f32-rel": ("rel", "std,f32"), "full-rel": ("rel", "std,foreign"),
    "realj-rel": ("rel", "std,realj"), "realm-rel": ("rel", "std,realm"),
}
# configurations each property is explored in
PLAN = {
    "W01": ["full-rel", "none-dbg"], "W02": ["full-rel"], "W03": ["std-rel", "none-dbg"], "S01": ["std-rel", "none-rel"], "S02": ["std-rel", "none-rel"],
    "S03": ["std-rel", "none-rel"], "X02": ["std-rel", "none-dbg"], "X03": ["full-rel", "alloc-rel", "none-rel"],
    "X04": ["std-rel", "alloc-dbg", "none-rel"], "X05": ["std-rel", "none-dbg"], "X06": ["std-rel", "alloc-dbg", "none-dbg"], "J16": ["std-rel", "std-dbg"],
    "J05": ["realj-rel", "std-dbg"], "J06": ["realj-rel", "std-dbg"], "J07": ["std-rel", "std-dbg"], "J08": ["std-rel", "std-dbg"],
    "J09": ["realj-rel", "f32-rel"], "J10": ["std-rel", "std-dbg"], "J11": ["std-rel", "std-dbg"], "J12": ["std-rel", "std-dbg"],
    "J13": ["std-rel", "std-dbg"], "J14": ["std-rel", "std-dbg"], "J15": ["std-rel", "std-dbg"],
    "M01": ["std-rel", "none-rel"], "M03": ["std-rel", "std-dbg"], "M05": ["std-rel", "std-dbg"], "M06": ["std-rel", "std-dbg"],
    "M07": ["std-rel", "std-dbg"], "M09": ["std-rel", "none-rel"], "M11": ["std-rel", "none-rel"], "M12": ["std-rel", "std-dbg"],
    "M02": ["realm-rel"], "M10": ["realm-rel", "std-dbg"],
}
DEEP = {
    "J12": ["json-ignored-array", "json-ignored-object", "json-any", "json-recursive"],
    "M05": ["msgpack-skip-array", "msgpack-skip-map", "msgpack-skip-key", "msgpack-ignored"],
    "M07": ["msgpack-any", "msgpack-recursive", "msgpack-skip-array", "msgpack-skip-map"],
}
W32 = {"w32-std-rel": ("rel", "std"), "w32-none-dbg": ("dbg", "")}  # for a 32-bit target (wasm32)
X01 = ["std-rel", "std-dbg", "alloc-rel", "alloc-dbg", "none-rel", "none-dbg", "full-rel"]

def log(*a): print(*a, file=sys.stderr, flush=True)
class Broken(Exception): pass

# ------------------------------------------------------------------ build
def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for root, dirs, files in os.walk(os.path.join(HERE, "harness")):
        for f in sorted(files):
            h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()

def build(cfg):
    prof, feats = CONFIGS[cfg]
    tdir = os.path.join(TARGET, cfg)
    exe = os.path.join(tdir, prof, "harness")
    stamp = os.path.join(TARGET, cfg + ".stamp")
    want = source_hash()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want: return exe
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tdir)
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", prof]
    if feats: cmd += ["--features", feats]
    if os.path.exists(stamp):
        os.unlink(stamp)
        # never trust timestamps across a changed tree
        subprocess.run(["cargo", "clean", "--offline", "--profile", prof, "-p", "ser-write", "-p", "ser-write-json", "-p", "ser-write-msgpack", "-p", "harness"],
                       cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise Broken("building the harness (%s) failed:\n%s" % (cfg, r.stdout[-4000:]))
    open(stamp, "w").write(want)
    return exe

def w32_sysroot():
    """std for wasm32, built from the toolchain's rust-src; needs no network."""
    root = os.path.join(TARGET, "w32-sysroot")
    lib = os.path.join(root, "lib", "rustlib", "wasm32-unknown-unknown", "lib")
    stamp = os.path.join(TARGET, "w32-sysroot.stamp")
    ask = lambda *a: subprocess.run(["rustc", "+nightly", *a], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    want = ask("-vV")
    if os.path.exists(stamp) and open(stamp).read() == want: return root
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(lib)
    os.makedirs(TARGET, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="w32-", dir=TARGET) as tmp:
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tmp, RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Zforce-unstable-if-unmarked")
        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--locked", "--quiet", "--release", "--target", "wasm32-unknown-unknown", "-p", "std", "-p", "panic_abort"],
                           cwd=os.path.join(ask("--print", "sysroot"), "lib/rustlib/src/rust/library"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise Broken("building std for wasm32 failed:\n%s" % r.stdout[-4000:])
        for d, _, files in os.walk(os.path.join(tmp, "wasm32-unknown-unknown")):
            for f in files:
                if f.startswith("lib") and f.endswith((".rlib", ".rmeta")): shutil.copy(os.path.join(d, f), lib)
    open(stamp, "w").write(want)
    return root

def build_w32(cfg):
    prof, feats = W32[cfg]
    tdir = os.path.join(TARGET, cfg)
    out, stamp = os.path.join(tdir, "wasm32-unknown-unknown", prof, "harness.wasm"), os.path.join(TARGET, cfg + ".stamp")
    want = source_hash()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want: return out
    flags = ["--sysroot", w32_sysroot(), "-Clink-arg=-zstack-size=268435456"] + ["-Clink-arg=--export=w32_" + f for f in ("digs", "buckets", "done", "run", "dump", "text", "len")]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tdir, RUSTFLAGS=" ".join(flags))
    shutil.rmtree(tdir, ignore_errors=True)
    if os.path.exists(stamp): os.unlink(stamp)
    cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--quiet", "--profile", prof, "--target", "wasm32-unknown-unknown"] + (["--features", feats] if feats else [])
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise Broken("building the harness (%s) failed:\n%s" % (cfg, r.stdout[-4000:]))
    open(stamp, "w").write(want)
    return out

def build_all(cfgs):
    out, errs = {}, []
    def one(c):
        try: out[c] = build(c)
        except Exception as e: errs.append(e)
    ts = [threading.Thread(target=one, args=(c,)) for c in cfgs]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise errs[0]
    return out

# ------------------------------------------------------------------ running
def limits(gb):
    def f():
        n = int(gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def run(cmd, timeout, gb=24):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits(gb))
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace"), ""

def parse(out):
    return [x for x in json.loads(out) if x]

def partial(out):
    try: return parse(out.rstrip().rstrip(",") + "]") if out.strip() != "[" else []
    except ValueError: return []

def read_slots(path):
    res = []
    data = open(path, "rb").read()
    for s in range(SLOTS):
        w = struct.unpack_from("<3I", data, s * SLOT_WORDS * 4)
        if w[0] == 1 and w[2] <= SLOT_WORDS - 3:
            res.append((w[1], list(struct.unpack_from("<%dI" % w[2], data, s * SLOT_WORDS * 4 + 12))))
    return res

def replay(exe, prop, tier, space, choices, timeout=90):
    """('ok',) | ('bad', key, msg) | ('internal', msg)"""
    rc, out, err = run([exe, "replay", "--prop", prop, "--tier", tier, "--space", str(space), "--choices", ",".join(map(str, choices))], timeout, 20)
    if rc == "timeout": return ("bad", "", "the execution does not terminate (%d s)" % timeout)
    if rc != 0 and rc != 101: return ("bad", "", "the process dies (%s): %s" % (name_rc(rc), (err.strip().splitlines() or [""])[-1][:300]))
    try: d = json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError): return ("internal", "unreadable replay output: %r %r" % (out[-300:], err[-300:]))
    if "internal" in d: return ("internal", d["internal"])
    return ("ok",) if d["ok"] else ("bad", d["key"], d["msg"])

def name_rc(rc):
    if isinstance(rc, int) and rc < 0:
        try: return signal.Signals(-rc).name
        except ValueError: pass
    return "exit %s" % rc

def known(prop):
    res = {}
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: res[m.group(2)] = m.group(3)
    return res

class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.spaces, self.viol, self.known_hit = [], [], {}
    def violation(self, msg, data):
        d = dict(property=self.prop, tier=self.tier, message=msg, **data)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (self.prop, hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:10]))
        d["how"] = "python3 /verif/check.py replay " + path
        json.dump(d, open(path, "w"), indent=1)
        self.viol.append((msg, path))

def explore(res, cfg, exe, deadline):
    prop, tier = res.prop, res.tier
    kn = known(prop)
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        slots = os.path.join(tmp, "slots")
        cmd = [exe, "run", "--prop", prop, "--tier", tier, "--slots", slots, "--threads", str(THREADS), "--deadline", "%.0f" % deadline]
        if kn: cmd += ["--known", ",".join(kn)]
        rc, out, err = run(cmd, deadline + 120)
        reports = None
        if rc == 0:
            try: reports = parse(out)
            except ValueError: pass
        if reports is None:
            reports = partial(out)
            cands = read_slots(slots) if os.path.exists(slots) else []
            log("worker ended abnormally (%s); %d executions were in flight" % (name_rc(rc), len(cands)))
            for sp, ch in cands:
                r = replay(exe, prop, tier, sp, ch)
                if r[0] == "bad":
                    res.violation(r[2], dict(config=cfg, space=sp, choices=ch)); break
            else:
                raise Broken("%s %s: worker ended with %s and no execution in flight reproduces it\n%s" % (prop, cfg, name_rc(rc), err[-2000:]))
        for r in reports:
            r["config"] = cfg
            res.spaces.append(r)
            for k, (n, m) in r["known"].items():
                e = res.known_hit.setdefault(k, [0, kn.get(k, m)]); e[0] += n
            if r["internal"]: raise Broken("%s %s space %s: harness failure: %s" % (prop, cfg, r["space"], r["internal"]))
            if r["found"]:
                f = r["found"]
                got = ("ok",)
                for _ in range(3):
                    got = replay(exe, prop, tier, r["index"], f["choices"])
                    if got[0] == "bad": break
                note = "" if got[0] == "bad" else " (seen during the exploration; not every replay shows it)"
                res.violation(f["msg"] + note, dict(config=cfg, space=r["index"], space_name=r["space"], choices=f["choices"]))

def deep(res, exe, cfg):
    kn = known(res.prop)
    n = 0
    for case in DEEP.get(res.prop, []):
        n += 1
        rc, out, err = run([exe, "deep", "--case", case], 120, 16)
        ok = rc == 0 and "deep ok" in out
        if ok: continue
        key = "deep:" + case
        why = out.strip() if rc == 0 else "the process dies (%s)" % name_rc(rc)
        if key in kn and rc != 0 and rc != "timeout": res.known_hit[key] = [1, kn[key]]
        else: res.violation("deep nesting case %s: %s" % (case, why), dict(config=cfg, deep=case))
    return n

def x01(res, exes):
    """The same enumeration in every configuration; bucket digests must agree."""
    outs = {}
    for c in X01:
        rc, out, err = run([exes[c], "digest", "--tier", res.tier], 800)
        try: outs[c] = json.loads(out)
        except ValueError:
            res.violation("configuration %s: the worker dies (%s) %s" % (c, name_rc(rc), err[-300:]), dict(config=c, digest=True)); return
    ref = outs[X01[0]]
    for i, sp in enumerate(ref["spaces"]):
        res.spaces.append(dict(space=sp["space"], bound=sp["bound"], runs=sp["items"], execs=sp["calls"] * len(X01), states=sp["items"], transitions=sp["items"] * len(X01), complete=True,
                               capped=False, samples=sp["samples"], config="all", secs=0, outcomes=sp["outcomes"], maxdepth=1))
    for c in X01[1:]:
        for a, o in zip(ref["spaces"], outs[c]["spaces"]):
            if a["digests"] == o["digests"]: continue
            b = next(i for i, (x, y) in enumerate(zip(a["digests"], o["digests"])) if x != y)
            dump = []
            for k in (X01[0], c):
                rc, out, err = run([exes[k], "digest", "--tier", res.tier, "--bucket", "%s:%d" % (a["space"], b)], 300)
                dump.append(out.splitlines())
            diff = next(((x, y) for x, y in zip(*dump) if x != y), ("?", "?"))
            res.violation("configurations %s and %s differ: %s: `%s` / %s: `%s`" % (X01[0], c, X01[0], diff[0][:500], c, diff[1][:500]),
                          dict(config=c, digest=True, bucket="%s:%d" % (a["space"], b), a=diff[0], b=diff[1]))
            return

def node(wasm, tier, at=None, timeout=800):
    env = dict(os.environ, VERIF_THREADS=str(THREADS))
    try:
        r = subprocess.run(["node", os.path.join(HERE, "tools", "w32.mjs"), wasm, tier] + ([at] if at else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired: return "timeout", "", ""

def x07(res, exe):
    """The enumeration of X01 on a 32-bit target, bucket by bucket against the 64-bit run."""
    wasm = {}
    for c in W32: wasm[c] = build_w32(c)
    budget = 300 if res.tier == "quick" else 7200
    for tier in (res.tier, "huge"):
        rc, out, err = run([exe, "digest", "--tier", tier], budget)
        try: ref = json.loads(out)
        except ValueError:
            res.violation("the 64-bit worker dies (%s) %s" % (name_rc(rc), err[-300:]), dict(config="std-rel", w32=None, w32_tier=tier)); return
        for i, sp in enumerate(ref["spaces"]):
            res.spaces.append(dict(space=sp["space"], bound=sp["bound"], runs=sp["items"], execs=sp["calls"] * (1 + len(W32)), states=sp["items"], transitions=sp["items"] * (1 + len(W32)), complete=True,
                                   capped=False, samples=sp["samples"], config="64-bit and " + ", ".join(W32), secs=0, outcomes=sp["outcomes"], maxdepth=1))
        for c in W32:
            rc, out, err = node(wasm[c], tier, timeout=budget)
            try: got = json.loads(out)["spaces"]
            except (ValueError, KeyError): raise Broken("%s: the wasm32 run gave no digests (%s)\n%s" % (c, name_rc(rc), err[-2000:]))
            if len(got) != len(ref["spaces"]): raise Broken("%s: %d spaces instead of %d" % (c, len(got), len(ref["spaces"])))
            bad = [(i, b, y) for i, (a, o) in enumerate(zip(ref["spaces"], got)) for b, (x, y) in enumerate(zip(a["digests"], o["digests"])) if x != y]
            if not bad: continue
            i, b, y = min(bad, key=lambda t: 1 if t[2] == "no answer" else 2 if t[2] is None else 0)
            name, at = ref["spaces"][i]["space"], "%d:%d" % (i, b)
            a = run([exe, "digest", "--tier", tier, "--bucket", "%s:%d" % (name, b)], 120)[1].splitlines()
            o = node(wasm[c], tier, at, 120)[1].splitlines() or ["(no answer in 120 s)"]
            diff = next(((x, y) for x, y in zip(a, o) if x != y), ("?", str(y)))
            res.violation("64-bit and 32-bit (%s) builds differ: 64-bit: `%s` / 32-bit: `%s`" % (c, diff[0][:500], diff[1][:500]),
                          dict(config="std-rel", w32=c, w32_tier=tier, bucket="%s:%d" % (name, b), at=at, a=diff[0], b=diff[1]))
            return

FAULT = {"S01": "every write call of every serialization of the catalog is refused in turn, every byte budget is tried; a case is non-trivial when the fault is actually reached (the serialization has at least that many writes/bytes)",
         "W02": "every allocation request of every sink history is refused in turn; a case is non-trivial when the armed allocation was actually requested"}

def evidence(res, deep_cases):
    sp = res.spaces
    tot = lambda k: sum(s[k] for s in sp)
    samples = [dict(space=s["space"], config=s["config"], case=x[:400]) for s in sp for x in s["samples"][:2]][:40]
    if not samples: samples = [dict(space=s["space"], config=s["config"], case=s["bound"]) for s in sp[:3]]
    level = "fault_enumeration" if res.prop in FAULT else "model_checking"
    det = [dict(space=s["space"], config=s["config"], bound=s["bound"], executions=s["runs"], states=s["states"], choice_points=s["maxdepth"], complete=s["complete"], secs=s["secs"], outcomes=s["outcomes"]) for s in sp]
    cov = dict(samples=samples, spaces=det, exhaustive=all(s["complete"] for s in sp) and not res.viol, choice_tree_runs=tot("runs"))
    if level == "fault_enumeration":
        nontriv = sum(s["outcomes"].get("fault reached", 0) for s in sp)
        cov.update(evaluations=tot("execs"), distinct_nontrivial=nontriv, rule=FAULT[res.prop], states=tot("states"))
    else:
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("execs"),
                   meaning="states: distinct inputs/histories judged; transitions: edges of the choice tree (plus items of bulk loops); traces_validated_against_impl: calls into the real implementation whose result was compared with the model")
    if deep_cases: cov["deep_nesting_processes"] = deep_cases
    if any(s["capped"] for s in sp): cov["note"] = "the distinct-state table was capped; states is a lower bound"
    ev = dict(property=res.prop, tier=res.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov,
              assumptions=["bounded: the spaces listed under coverage.spaces, each enumerated completely", "the reference models in harness/src/{jref,mref}.rs and the per-property oracles are trusted", "the installed rustc; " + ("x86-64 against wasm32 as run by node" if res.prop == "X07" else "x86-64, 64-bit usize")],
              wall_s=round(time.time() - res.t0, 2), violations=len(res.viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", res.prop + ".json"), "w"), indent=1)

def check(prop, tier):
    res = Result(prop, tier)
    cfgs = X01 if prop == "X01" else PLAN.get(prop, ["std-rel"])
    only = os.environ.get("VERIF_ONLY")  # development aid: explore a single configuration
    if only and prop != "X01": cfgs = only.split(",")
    exes = build_all(cfgs)
    log("built %s in %.1f s" % (", ".join(cfgs), time.time() - res.t0))
    budget = 800 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "7200"))
    n = 0
    if prop == "X01": x01(res, exes)
    elif prop == "X07": x07(res, exes[cfgs[0]])
    else:
        for c in cfgs:
            explore(res, c, exes[c], budget)
            if res.viol: break
        if not res.viol: n = deep(res, exes[cfgs[0]], cfgs[0])
    evidence(res, n)
    for s in res.spaces:
        if not s["complete"] and not res.viol:
            log("note: space %s (%s) stopped at its time budget" % (s["space"], s["config"]))
    tot = sum(s["states"] for s in res.spaces)
    for k, (cnt, what) in sorted(res.known_hit.items()):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, what))
    if res.viol:
        msg, path = res.viol[0]
        print("  " + msg)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    print("OK property=%s tier=%s states=%d executions=%d %.1fs" % (prop, tier, tot, sum(s["execs"] for s in res.spaces), time.time() - res.t0))
    return 0

def do_replay(path):
    d = json.load(open(path))
    exe = build(d["config"])
    if "deep" in d:
        rc, out, err = run([exe, "deep", "--case", d["deep"]], 120, 16)
        print(name_rc(rc), out, err[-500:]); return 0 if rc == 0 and "deep ok" in out else 1
    if "w32" in d:
        if not d["w32"]: rc, out, err = run([exe, "digest", "--tier", d["w32_tier"]], 800); print(name_rc(rc), err[-500:]); return 0 if rc == 0 else 1
        a = run([exe, "digest", "--tier", d["w32_tier"], "--bucket", d["bucket"]], 300)[1].splitlines()
        o = node(build_w32(d["w32"]), d["w32_tier"], d["at"], 300)[1].splitlines()
        diff = next(((x, y) for x, y in zip(a, o) if x != y), None)
        print("64-bit and 32-bit agree on this bucket" if not diff and len(a) == len(o) else "64-bit: %s\n32-bit: %s" % (diff or (len(a), len(o)))); return 0 if not diff and len(a) == len(o) else 1
    if d.get("digest"):
        for c in (X01[0], d["config"]):
            rc, out, err = run([build(c), "digest", "--tier", d["tier"], "--bucket", d.get("bucket", "")], 300)
            open("/tmp/digest-%s.txt" % c, "w").write(out)
        print("compare /tmp/digest-%s.txt and /tmp/digest-%s.txt" % (X01[0], d["config"])); return 1
    r = replay(exe, d["property"], d["tier"], d["space"], d["choices"])
    print(r)
    return 0 if r[0] == "ok" else 1

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            build_all(["std-rel"]); return 0
        if a[:1] == ["replay"]: return do_replay(a[1])
        tier = "thorough" if "--thorough" in a else "quick"
        return max(check(p, tier) for p in a if not p.startswith("--"))
    except Broken as e:
        print("CHECK-ERROR", e); return 2
if __name__ == "__main__": sys.exit(main())
