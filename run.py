#!/usr/bin/env python3
"""Orchestrates the checks. See DESIGN.md.

  run.py setup
  run.py check Cxx [--tier quick|thorough]
  run.py replay FILE
"""
import json, os, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
REPLAYS = os.path.join(ROOT, "replays")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Err(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None, check=True):
    e = dict(os.environ)
    e.update(env or {})
    e["CARGO_NET_OFFLINE"] = "true"
    r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if check and r.returncode != 0:
        raise Err("command failed (%s): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r


class Part:
    """What one engine did for one property."""
    def __init__(self, engine):
        self.engine = engine
        self.evals = 0
        self.nontrivial = 0
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.violation = None      # (message, replay path)
        self.errors = []
        self.notes = []


def build_native(profile="dev"):
    """The plain profile builds the library without debug assertions and overflow checks, as a release build does."""
    sh(["cargo", "build", "--offline", "--locked", "-p", "native", "--profile", profile], cwd=os.path.join(ROOT, "harness"), env={"CARGO_TARGET_DIR": os.path.join(BUILD, "h" if profile == "dev" else "hp")}, timeout=800)
    return os.path.join(BUILD, "h", "debug", "native") if profile == "dev" else os.path.join(BUILD, "hp", profile, "native")


def build_both():
    with ThreadPoolExecutor(2) as ex:
        return list(ex.map(build_native, ["dev", "plain"]))


def replay_path(prop, engine):
    os.makedirs(REPLAYS, exist_ok=True)
    return os.path.join(REPLAYS, "%s-%s.replay" % (prop, engine))


def e1(prop, tier, scale=1.0):
    p = Part("E1 histories against a reference model")
    for exe, tag, seed, share in zip(build_both(), ("e1", "e1p"), (SEED, SEED + 500009), (0.6, 0.4)):
        e1_run(p, exe, tag, prop, tier, seed, share * scale)
        if p.violation:
            break
    return p


def e1_run(p, exe, tag, prop, tier, seed, share):
    d = tempfile.mkdtemp(prefix="rcv")
    p.engine += {"e1": "", "e1p": ", also without debug assertions and overflow checks"}[tag]
    try:
        cmd = [exe, "e1", "--prop", prop, "--seed", str(seed), "--dir", d, "--replay", replay_path(prop, tag), "--tag", tag, "--share", str(int(share * 1000))]
        if tier == "thorough":
            cmd += ["--n", str(int(THOROUGH_E1 * share))]
        r = sh(cmd, check=False)
        ev = p.extra.setdefault("events (times, cases)", {})
        samples = []
        for l in r.stdout.splitlines():
            k, _, v = l.partition(" ")
            if k == "EVALS": p.evals += int(v)
            elif k == "NONTRIVIAL": p.nontrivial += int(v)
            elif k == "RULE": p.rule = v
            elif k == "SAMPLE": samples.append(v)
            elif k == "STAT":
                n, t, c = v.split()
                if int(t):
                    o = ev.setdefault(n, [0, 0])
                    o[0] += int(t); o[1] += int(c)
            elif k == "VIOLATED": p.violation = (v + ("" if tag == "e1" else " (without debug assertions and overflow checks)"), replay_path(prop, tag))
            elif k == "SHRUNK": p.notes.append(v)
            elif k == "ERROR": p.errors.append(v)
            elif k == "INCOMPLETE": p.notes.append(v)
        if r.returncode not in (0, 1, 4) or (r.returncode == 1 and not p.violation):
            p.errors.append("%s ended with %s: %s" % (tag, r.returncode, r.stdout[-1500:]))
        # one sample written out in full
        if samples and not p.samples:
            t = sh([exe, "e1-one", "--prop", prop, "--case", samples[0], "--trace"], check=False).stdout.splitlines()
            p.samples = samples[:3] + ["trace of the first: " + " | ".join(x.strip() for x in t[:60])]
    finally:
        shutil.rmtree(d, ignore_errors=True)


THOROUGH_E1 = 30_000_000
NCPU = 8

# ---------------------------------------------------------------- E2: recorded histories under Miri
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-symbolic-alignment-check -Zmiri-provenance-gc=1000"


def miri_env():
    return {"MIRIFLAGS": MIRIFLAGS, "CARGO_TARGET_DIR": os.path.join(BUILD, "miri")}


def miri_run(binfile, timeout):
    """-> (last case index or None, verdict text or None, finished)"""
    try:
        r = sh(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "-p", "mirirun", "--", binfile], cwd=os.path.join(ROOT, "harness"), env=miri_env(), timeout=timeout, check=False)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        out = out if isinstance(out, str) else out.decode(errors="replace")
        return out, None, False
    out = r.stdout
    if "\nDONE " in out and r.returncode == 0:
        return out, None, True
    for l in out.splitlines():
        if l.startswith("FAIL "):
            return out, l, True
        if l.startswith("error: Undefined Behavior") or l.startswith("error: abnormal termination") or l.startswith("error: memory leaked") or l.startswith("error: deadlock"):
            i = out.index(l)
            where = [x.strip() for x in out[i:].splitlines() if "-->" in x][:1]
            return out, l + " " + " ".join(where), True
    if "error: unsupported operation" in out:
        return out, None, False
    raise Err("miri ended with %s:\n%s" % (r.returncode, out[-3000:]))


def pack(lines):
    b = bytearray()
    for l in lines:
        w = l.split()
        if not w:
            continue
        if w[0] == "C":
            hx = w[6] if len(w) > 6 else ""
            v = [int(w[1]), int(w[3] == "arc"), int(w[4]), int(w[5])]
            if v[3] >= 100:
                v += [int.from_bytes(bytes.fromhex(hx[i:i + 8]), "little") for i in range(0, len(hx), 8)]
            b += struct.pack("<%dQ" % (2 + len(v)), 0, len(v), *v)
        elif w[0] == "L":
            v = [int(x) for x in w[1:]]
            b += struct.pack("<%dQ" % (2 + len(v)), 1, len(v), *v)
    return bytes(b)


def emit(exe, prop, args):
    """Recorded calls per case; survives a crash of the library in a case."""
    r = sh([exe, "e1-emit", "--prop", prop] + args, check=False)
    return r.stdout.splitlines(), r.returncode


def miri_cases(exe, prop, n, first):
    """-> {idx: (encoded, nontrivial, lines)}"""
    cases, at, crashes = {}, first, 0
    while at < first + n:
        lines, rc = emit(exe, prop, ["--seed", str(SEED), "--from", str(at), "--n", str(first + n)])
        cur = None
        for l in lines:
            if l.startswith("C "):
                cur = int(l.split()[1])
                cases[cur] = [l.split(" ", 2)[2], False, [l]]
            elif l == "N":
                cases[cur][1] = True
            elif cur is not None:
                cases[cur][2].append(l)
        if rc == 0:
            break
        crashes += 1
        at = (cur if cur is not None else at) + 1
        if crashes > 20:
            break
    return cases


def miri_one(exe, prop, enc, d, tag):
    lines, _ = emit(exe, prop, ["--n", "1", "--case", enc])
    f = os.path.join(d, "one%s.bin" % tag)
    with open(f, "wb") as h:
        h.write(pack(lines))
    return miri_run(f, 120)[1]


def ddmin(enc, test, budget, t_end):
    """Parallel chunk removal on the program of an encoded case."""
    head, hx = enc.rsplit(" ", 1)
    ops = [hx[i:i + 8] for i in range(0, len(hx), 8)]
    msg = None
    size = max(1, len(ops) // 2)
    with ThreadPoolExecutor(NCPU) as ex:
        while budget > 0 and time.time() < t_end:
            cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
            cands = [c for c in cands if c]
            hit = None
            for k in range(0, len(cands), NCPU):
                batch = cands[k:k + NCPU]
                budget -= len(batch)
                res = list(ex.map(lambda j: test(head + " " + "".join(batch[j]), j), range(len(batch))))
                for c, r in zip(batch, res):
                    if r:
                        hit, msg = c, r
                        break
                if hit or time.time() > t_end:
                    break
            if hit is not None:
                ops = hit
                size = min(size, max(1, len(ops) // 2))
            elif size == 1:
                break
            else:
                size = max(1, size // 2)
    return head + " " + "".join(ops), msg


def e2(prop, tier, n=None, first=0):
    exe = build_native()
    n = n or (THOROUGH_MIRI if tier == "thorough" else QUICK_MIRI)
    p = Part("E2 recorded histories under Miri (Tree Borrows)")
    p.rule = "the history derives, splits, converts or iterates at least once (or is a program on extreme lengths or views)"
    d = tempfile.mkdtemp(prefix="rcv")
    try:
        cases = miri_cases(exe, prop, n, first)
        sh(["cargo", "+nightly", "miri", "setup"], cwd=os.path.join(ROOT, "harness"), env=miri_env(), timeout=600, check=False)
        ids = sorted(cases)
        # warm the build, so that the shards do not queue for it
        with open(os.path.join(d, "empty.bin"), "wb"):
            pass
        miri_run(os.path.join(d, "empty.bin"), 600)
        def shard(k):
            mine = ids[k::NCPU * 2]
            f = os.path.join(d, "s%d.bin" % k)
            with open(f, "wb") as h:
                for i in mine:
                    h.write(pack(cases[i][2]))
            out, verdict, fin = miri_run(f, 480 if tier == "quick" else 6000)
            done = [int(l.split()[1]) for l in out.splitlines() if l.startswith("CASE ")]
            return done, verdict, fin, out
        seen = set()
        with ThreadPoolExecutor(NCPU) as ex:
            for done, verdict, fin, out in ex.map(shard, range(NCPU * 2)):
                p.evals += len(done)
                for i in done:
                    if cases[i][1]:
                        seen.add(cases[i][0])
                ab = sum(1 for l in out.splitlines() if l.startswith("ABANDON"))
                if ab:
                    p.notes.append("%d histories went another way than natively and were cut short" % ab)
                if not fin:
                    p.notes.append("a shard did not finish")
                if verdict and not p.violation and done:
                    enc = cases[done[-1]][0]
                    msg = verdict
                    if miri_one(exe, prop, enc, d, "x"):
                        enc, m2 = ddmin(enc, lambda e, j: miri_one(exe, prop, e, d, str(j)), 150, time.time() + 120)
                        msg = m2 or msg
                    with open(replay_path(prop, "e2"), "w") as h:
                        h.write("e2 %s %s\n" % (prop, enc))
                    p.violation = (msg, replay_path(prop, "e2"))
        p.nontrivial = len(seen)
        p.samples = [cases[i][0] + " :: " + " | ".join(cases[i][2][1:40]) for i in ids[:2]]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p


QUICK_MIRI = 480
THOROUGH_MIRI = 24000

# ---------------------------------------------------------------- E3: schedules
# The sources of /repo are compiled as they are, with `core` and `alloc` resolved to stand-ins
# whose atomics and Arc/Weak report to a scheduler.
SCHED_ENV = {"RUSTFLAGS": "-Zcrate-attr=feature(arbitrary_self_types) --cap-lints=warn", "CARGO_TARGET_DIR": os.path.join(BUILD, "s")}
QUICK_E3 = 2_500_000
THOROUGH_E3 = 60_000_000


def build_sched():
    """-> (path of the binary or None, output of the build)"""
    r = sh(["cargo", "+nightly", "build", "--offline", "--locked", "-q"], cwd=os.path.join(ROOT, "sched"), env=SCHED_ENV, timeout=800, check=False)
    return (os.path.join(BUILD, "s", "debug", "e3") if r.returncode == 0 else None), r.stdout


def e3_worker(exe, prop, k, n, d, limit, seed=SEED):
    """Runs programs k, k+NCPU, ... below n in as many processes as it takes."""
    o = {"evals": 0, "steps": 0, "pre": 0, "other": 0, "non": 0, "stats": {}, "samples": [], "viol": None, "notes": []}
    t_end = time.time() + limit
    at, crashes = k, 0
    mark = os.path.join(d, "at%d" % k)
    def go(frm, to, fine, t):
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--from", str(frm), "--to", str(to), "--by", str(NCPU), "--at", mark] + (["--fine"] if fine else [])
        try:
            r = sh(cmd, check=False, timeout=max(5, t))
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
            return None, out if isinstance(out, str) else out.decode(errors="replace")
    while at < n:
        if time.time() > t_end:
            o["notes"].append("a worker stopped at program %d of %d (time)" % (at, n))
            break
        # in slices, so that little is lost to the time limit
        to = min(n, at + NCPU * 50000)
        rc, out = go(at, to, False, t_end - time.time() + 70)
        nxt, msg, case = None, None, None
        for l in out.splitlines():
            a, _, v = l.partition(" ")
            if a == "EVALS": o["evals"] += int(v)
            elif a == "STEPS": o["steps"] += int(v)
            elif a == "PREEMPTIONS": o["pre"] += int(v)
            elif a == "OTHER": o["other"] += int(v)
            elif a == "NONTRIVIAL": o["non"] += int(v)
            elif a == "STAT":
                w = v.split("|")
                e = o["stats"].setdefault(w[0], [0, 0])
                e[0] += int(w[1]); e[1] += int(w[2])
            elif a == "SAMPLE" and len(o["samples"]) < 2: o["samples"].append(v)
            elif a == "NEXT": nxt = int(v)
            elif a == "VIOLATED": msg = v
            elif a == "CASE": case = v
        if msg:
            o["viol"] = (msg, case)
            break
        if rc == 0:
            at = to
        elif rc == 3 and nxt is not None:
            at = nxt
        else:
            # the process died: find the program
            crashes += 1
            frm = at
            try:
                frm = max(at, int(open(mark).read()))
            except (OSError, ValueError):
                pass
            rc2, out2 = go(frm, to, True, 120)
            if rc is None and rc2 in (0, 3):
                o["notes"].append("a worker did not finish in time")
                break
            try:
                i = int(open(mark).read())
            except (OSError, ValueError):
                i = frm
            if rc2 is not None and rc2 < 0:
                o["viol"] = ("the process dies (signal %d)" % -rc2, "@%d %d" % (seed, i))
                break
            o["notes"].append("a worker ended with %s near program %d" % (rc, i))
            at = i + NCPU
            if crashes > 3:
                break
    return o


def e3(prop, tier, n=None):
    p = Part("E3 programs under generated schedules")
    p.rule = "at least two threads made calls and the schedule preempted a thread at least once; distinct programs and schedules"
    exe, out = build_sched()
    if exe is None:
        p.notes.append("the library does not compile against the stand-ins for core and alloc; this engine is left out: " + out[-600:])
        return p
    n = n or (THOROUGH_E3 if tier == "thorough" else QUICK_E3)
    d = tempfile.mkdtemp(prefix="rcv")
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda k: e3_worker(exe, prop, k, n, d, 330 if tier == "quick" else 7200), range(NCPU)))
        tot = {}
        for o in rs:
            p.evals += o["evals"]
            p.nontrivial += o["non"]
            p.samples += o["samples"]
            p.notes += o["notes"]
            for a in ("steps", "pre", "other"):
                tot[a] = tot.get(a, 0) + o[a]
            for a, v in o["stats"].items():
                e = p.extra.setdefault("events (times, cases)", {}).setdefault(a, [0, 0])
                e[0] += v[0]; e[1] += v[1]
        p.extra["scheduler steps"] = tot["steps"]
        p.extra["preemptions"] = tot["pre"]
        if tot["other"]:
            p.notes.append("%d cases ended early on a failure that another property covers" % tot["other"])
        p.samples = p.samples[:2]
        if p.samples:
            t = sh([exe, "one", "--prop", prop, "--case", p.samples[0]], check=False).stdout.splitlines()
            p.samples.append("trace of the first: " + " | ".join(x.strip() for x in t[:60]))
        vs = sorted([o["viol"] for o in rs if o["viol"]], key=lambda v: len(v[1] or ""))
        if vs:
            with open(replay_path(prop, "e3"), "w") as h:
                h.write("e3 %s %s\n" % (prop, vs[0][1]))
            p.violation = (vs[0][0], replay_path(prop, "e3"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p


# ---------------------------------------------------------------- E4: threads under Miri
QUICK_E4 = 320
THOROUGH_E4 = 12000
E4_PROFILES = {"C14": "0 1 1 3", "C15": "2 2 0 3", "C16": "1 1 0 2 3", "C22": "2 2 0 1 3"}


E4_RATES = ("0.01", "0.03", "0.05", "0.1")


def e4_env(seed=None, many=None, rate="0.05"):
    f = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-provenance-gc=1000 -Zmiri-preemption-rate=" + rate
    if seed is not None:
        f += " -Zmiri-seed=%d" % seed
    if many:
        f += " -Zmiri-many-seeds=0..%d" % many
    return {"MIRIFLAGS": f, "CARGO_TARGET_DIR": os.path.join(BUILD, "miri")}


def e4_run(args, timeout, seed=None, many=None, rate="0.05"):
    """-> (output, verdict or None, finished)"""
    try:
        r = sh(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "-p", "mirithr", "--"] + args, cwd=os.path.join(ROOT, "harness"), env=e4_env(seed, many, rate), timeout=timeout, check=False)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return (out if isinstance(out, str) else out.decode(errors="replace")), None, False
    out = r.stdout
    for l in out.splitlines():
        if l.startswith("FAIL "):
            return out, l, True
        if l.startswith("error: Undefined Behavior") or l.startswith("error: abnormal termination"):
            w = [x.strip() for x in out[out.index(l):].splitlines() if "-->" in x][:1]
            return out, l + " " + " ".join(w), True
    if r.returncode == 0 and "DONE" in out:
        return out, None, True
    if "error: unsupported operation" in out or "deadlock" in out:
        return out, None, False
    raise Err("miri ended with %s:\n%s" % (r.returncode, out[-3000:]))


def e4_wants(prop, v):
    race = "Data race" in v
    if prop == "C22":
        return race
    if race:
        return prop == "C14" and ("deallocation" in v or "retag" in v)
    if prop == "C15":
        return "exclusive" in v
    return True


def e4_one(prop, prog, many, rate="0.05"):
    w = prog.split()
    out, v, fin = e4_run(["one", w[0], w[1]], 240, many=many, rate=rate)
    return v if v and e4_wants(prop, v) else None


def e4(prop, tier, n=None):
    p = Part("E4 threads under Miri")
    p.rule = "the program has calls in at least two threads; distinct programs"
    n = n or (THOROUGH_E4 if tier == "thorough" else QUICK_E4)
    e4_run(["gen", "1", "0", "0", "1", "0"], 600)
    prof = E4_PROFILES[prop].split()
    K = NCPU * 2
    seen = set()
    other = 0
    def shard(k):
        res, at, t_end = [], k, time.time() + (200 if tier == "quick" else 5000)
        while at < n and time.time() < t_end:
            out, v, fin = e4_run(["gen", str(SEED * 1000003 + 5), str(at), str(n), str(K)] + prof, max(10, t_end - time.time()), seed=SEED * 100 + k, rate=E4_RATES[k % 4])
            cs = [l.split(" ", 2)[1:] for l in out.splitlines() if l.startswith("CASE ")]
            res.append(([c[1] for c in cs], v, fin))
            if not v or not cs:
                break
            if e4_wants(prop, v):
                break
            at = int(cs[-1][0]) + K
        return res
    with ThreadPoolExecutor(NCPU) as ex:
        for k, res in enumerate(ex.map(shard, range(K))):
            rate = E4_RATES[k % 4]
            for cs, v, fin in res:
                p.evals += len(cs)
                for c in cs:
                    ops = c.split()[1]
                    if len({ops[i:i + 2] for i in range(0, len(ops), 8)} & {"01", "02", "03"}) >= 2:
                        seen.add(c)
                if not fin:
                    p.notes.append("a shard did not finish")
                if v and not e4_wants(prop, v):
                    other += 1
                if v and e4_wants(prop, v) and not p.violation and cs:
                    prog = cs[-1]
                    msg = v
                    if e4_one(prop, prog, 64, rate):
                        def test(enc, j):
                            return e4_one(prop, enc, 24, rate)
                        prog, m2 = ddmin(prog, test, 120, time.time() + 100)
                        msg = m2 or msg
                    with open(replay_path(prop, "e4"), "w") as h:
                        h.write("e4 %s %s %s\n" % (prop, prog, rate))
                    p.violation = (msg, replay_path(prop, "e4"))
    if other:
        p.notes.append("%d programs ended early on a failure that another property covers" % other)
    p.nontrivial = len(seen)
    p.samples = sorted(seen, key=len)[:2]
    return p


# ---------------------------------------------------------------- E5: what the compiler accepts
sys.path.insert(0, os.path.join(ROOT, "compile"))
QUICK_TYPES, THOROUGH_TYPES = 2400, 60000
QUICK_GENERIC, THOROUGH_GENERIC = 15000, 400000
QUICK_BORROWS, THOROUGH_BORROWS = 20000, 1200000


def rustc_version():
    return sh(["rustc", "-V"]).stdout.strip()


def probe(ts, out, tag):
    import judge, markers
    src, exe = os.path.join(out, "p%s.rs" % tag), os.path.join(out, "p%s" % tag)
    with open(src, "w") as h:
        h.write(markers.probe_source(ts))
    r = sh(["rustc", "--edition", "2021", "--crate-name", "p%s" % tag, "--cap-lints=allow", "-Cdebuginfo=0", "--extern", "rc_slice=" + os.path.join(out, "librc_slice.rlib"), "-o", exe, src], check=False)
    if r.returncode != 0:
        raise Err("the probe does not compile:\n" + r.stdout[-2000:])
    o = sh([exe]).stdout
    os.remove(src)
    os.remove(exe)
    return o


def e5_markers(prop, tier, n=None):
    import judge, markers
    p = Part("E5 Send and Sync over generated item types")
    p.rule = "the item type (or what is known of it) is not simply both Send and Sync, or is built from others; distinct types and contexts"
    out = tempfile.mkdtemp(prefix="rcv")
    try:
        judge.build(out)
        big = tier == "thorough"
        ts = markers.concrete(SEED, THOROUGH_TYPES if big else QUICK_TYPES)
        gs = markers.generic(SEED, THOROUGH_GENERIC if big else QUICK_GENERIC)
        diffs = []
        pairs = {}
        with ThreadPoolExecutor(NCPU) as ex:
            B = 60
            for k, o in enumerate(ex.map(lambda k: probe(ts[k:k + B], out, str(k)), range(0, len(ts), B))):
                for l in o.splitlines():
                    w = l.split()
                    t = ts[k * B + int(w[1])]
                    if w[0] == "ITEM":
                        p.evals += len(markers.HANDLES) * 2
                        pairs[(w[2], w[3])] = pairs.get((w[2], w[3]), 0) + 1
                        if (w[2], w[3]) != ("true", "true") or t not in markers.LEAVES:
                            p.nontrivial += 1
                    else:
                        h = markers.HANDLES[int(w[2])]
                        diffs.append((markers.size(t), "%s is%s %s while %s is%s" % (h[0].format(t), "" if w[4] == "true" else " not", w[3], h[1].format(t), "" if w[5] == "true" else " not"), "type %s" % t))
            p.extra["item types by (Send, Sync)"] = {"%s,%s" % k: v for k, v in pairs.items()}
            def gen(k):
                cs = gs[k:k + 250]
                r = []
                for which, tag in ((0, "h"), (1, "c")):
                    src, first = markers.generic_source(cs, which)
                    lines = src.split("\n")
                    pre, fns = "\n".join(lines[:first - 1]) + "\n", lines[first - 1:first - 1 + len(cs)]
                    r.append(judge.errors(pre, fns, "rc_slice", out, "g%s%d" % (tag, k)))
                return cs, r
            seen = set()
            acc = 0
            for cs, (a, b) in ex.map(gen, range(0, len(gs), 250)):
                for c, x, y in zip(cs, a, b):
                    p.evals += 1
                    seen.add(c)
                    acc += not y
                    if bool(x) != bool(y):
                        h = markers.HANDLES[c[2]]
                        diffs.append((markers.size(c[1]), "with %s, %s is%s %s while %s is%s" % (c[0], h[0].format(c[1]), " not" if x else "", c[3], h[1].format(c[1]), " not" if y else ""), "generic %d %s %s %s" % (c[2], c[3], c[0].replace(" ", "_"), c[1])))
            p.nontrivial += len(seen)
            p.extra["generic contexts in which the counterpart has the trait"] = acc
        p.samples = ts[-3:] + ["%s: %s of %s" % (c[0], c[3], markers.HANDLES[c[2]][0].format(c[1])) for c in gs[-2:]]
        if diffs:
            diffs.sort()
            with open(replay_path(prop, "e5"), "w") as h:
                h.write("e5m %s %s\n" % (prop, diffs[0][2]))
            p.notes.append("%d differences" % len(diffs))
            p.violation = (diffs[0][1], replay_path(prop, "e5"))
    except judge.CompileErr as e:
        raise Err(str(e))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return p


CRATES = ("liberal", "strict", "rc_slice")


def e5_disagree(a, b, c):
    """Errors under the liberal owner, the strict owner, the library. -> None, or how they disagree"""
    if a and b and not c:
        return "is accepted; over an owner of the standard library it is rejected (%s)" % ",".join(sorted(str(x) for x in a))
    import judge
    if not a and not b and c and c & judge.CODES:
        return "is rejected (%s); over an owner of the standard library it is accepted" % ",".join(sorted(str(x) for x in c))
    return None


def e5_judge(fns, out, tag):
    import borrows, judge
    r = [judge.errors(borrows.PRE % c, fns, c, out, "%s_%s" % (c, tag)) for c in CRATES]
    return list(zip(*r))


def e5_source(lines, name="p"):
    if isinstance(lines, str):
        return lines.replace("{f}", name)
    return "fn %s() {\n%s\n}" % (name, "\n".join(lines))


def e5_borrows(prop, tier, n=None):
    import random
    import borrows, judge
    p = Part("E5 generated programs under the borrow checker")
    p.rule = "both reference owners agree on the program, and it is rejected or has at least four statements, or it is a signature; distinct programs"
    out = tempfile.mkdtemp(prefix="rcv")
    try:
        judge.build(out)
        n = n or (THOROUGH_BORROWS if tier == "thorough" else QUICK_BORROWS)
        ts = borrows.templates()
        B = 300
        jobs = [("t", ts[k:k + B]) for k in range(0, len(ts), B)] + [("h", k) for k in range(0, n, B)]
        def one(j):
            k, (kind, v) = j
            if kind == "h":
                r = random.Random((SEED * 1000003 + v) * 31 + 20)
                v = [borrows.history(r) for _ in range(min(B, n - v))]
            fns = [e5_source(x, "p%d" % i) for i, x in enumerate(v)]
            res = e5_judge(fns, out, str(k))
            first = next(((v[i], d) for i, r in enumerate(res) for d in [e5_disagree(*r)] if d), None)
            st = {"accepted by both": 0, "rejected by both": 0, "references differ": 0, "does not compile": 0}
            codes = {}
            keys = []
            for x, f, (a, b, c) in zip(v, fns, res):
                if not a and not b: st["accepted by both"] += 1
                elif a and b:
                    st["rejected by both"] += 1
                    for e in a: codes[str(e)] = codes.get(str(e), 0) + 1
                else: st["references differ"] += 1
                if not a and not b and c and not c & judge.CODES:
                    st["does not compile"] += 1
                if bool(a) == bool(b) and (a or isinstance(x, str) or len(x) >= 4):
                    keys.append(hash(f.split("(", 1)[1]))
            return len(v), st, codes, keys, first, v[-1]
        seen, tot, codes, first = set(), {}, {}, None
        with ThreadPoolExecutor(NCPU) as ex:
            for k, (m, st, cs, keys, f, last) in enumerate(ex.map(one, enumerate(jobs))):
                p.evals += m
                seen.update(keys)
                for a, b in st.items(): tot[a] = tot.get(a, 0) + b
                for a, b in cs.items(): codes[a] = codes.get(a, 0) + b
                if f and (first is None or len(str(f[0])) < len(str(first[0]))): first = f
                if k in (len(jobs) - 1, len(ts) // B): p.samples.append(last if isinstance(last, str) else " ".join(last))
        p.nontrivial = len(seen)
        p.extra["verdicts"] = tot
        p.extra["errors of the references"] = codes
        if tot.get("does not compile"):
            p.notes.append("%d programs that both references accept do not type-check against the library" % tot["does not compile"])
        if first:
            v, d = first
            if not isinstance(v, str):
                # remove lines (whole blocks stay balanced because a broken program disagrees in nothing)
                size = max(1, len(v) // 2)
                while True:
                    cands = [v[:i] + v[i + size:] for i in range(0, len(v), size)]
                    cands = [c for c in cands if c]
                    res = e5_judge([e5_source(c, "p%d" % i) for i, c in enumerate(cands)], out, "min") if all(c.count("{") == c.count("}") for c in cands) else [e5_judge([e5_source(c, "p0")], out, "min")[0] if c.count("{") == c.count("}") else (set(), set(), set()) for c in cands]
                    hit = next(((c, e) for c, r in zip(cands, res) for e in [e5_disagree(*r)] if e), None)
                    if hit:
                        v, d = hit
                        size = min(size, max(1, len(v) // 2))
                    elif size == 1:
                        break
                    else:
                        size //= 2
            with open(replay_path(prop, "e5"), "w") as h:
                h.write("e5b %s\n%s\n" % (prop, e5_source(v)))
            p.violation = ("this program %s: %s" % (d, e5_source(v).replace("\n", " ")), replay_path(prop, "e5"))
    except judge.CompileErr as e:
        raise Err(str(e))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return p


# property -> engines in order
CHECKS = {
    **{p: [e1] for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17", "C18", "C24"]},
    "C23": [e1, e3],
    "C21": [e1, e2],
    "C14": [e3, e4],
    "C15": [e3, e4],
    "C16": [e3, e4],
    "C17": [e1, e3],
    "C19": [e5_markers],
    "C20": [e5_borrows],
    "C22": [e3, e4],
}


def write_evidence(prop, tier, parts, wall):
    viol = [p for p in parts if p.violation]
    cov = {
        "evaluations": sum(p.evals for p in parts),
        "distinct_nontrivial": sum(p.nontrivial for p in parts),
        "rule": " || ".join("%s: %s" % (p.engine, p.rule) for p in parts),
        "samples": [s for p in parts for s in p.samples] or ["none"],
        "engines": [{"engine": p.engine, "evaluations": p.evals, "distinct_nontrivial": p.nontrivial, "notes": p.notes, **p.extra} for p in parts],
    }
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME.get(prop, ASSUME["*"]), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


ASSUME = {"*": ["generated-input search: nothing is claimed about histories that were not generated",
                "the installed compiler and standard library"]}


def known(prop):
    r = []
    try:
        for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
            if l.startswith("finding: property=%s " % prop):
                r.append(l.split(" ", 2)[2].strip())
    except FileNotFoundError:
        pass
    return r


def check(prop, tier):
    t0 = time.time()
    parts = []
    for eng in CHECKS[prop]:
        p = eng(prop, tier)
        parts.append(p)
        if p.violation:
            break
    write_evidence(prop, tier, parts, time.time() - t0)
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for p in parts:
        print("%s: %d evaluations, %d distinct non-trivial" % (p.engine, p.evals, p.nontrivial))
        for n in p.notes:
            print("  note:", n)
    for p in parts:
        if p.violation:
            print(p.violation[0])
            print("VIOLATION property=%s replay=%s" % (prop, p.violation[1]))
            return 1
    errs = [e for p in parts for e in p.errors]
    if errs:
        print("\n".join("ERROR " + e for e in errs))
        return 2
    print("held on everything explored")
    return 0


def replay(path):
    w = open(path).read().split()
    if w[0] in ("e1", "e1p"):
        exe = build_native("dev" if w[0] == "e1" else "plain")
        r = sh([exe, "e1-one", "--prop", w[1], "--case", " ".join(w[2:]), "--trace"], check=False)
        print(r.stdout)
        return 0 if r.returncode == 0 else 1
    if w[0] == "e2":
        exe = build_native()
        d = tempfile.mkdtemp(prefix="rcv")
        v = miri_one(exe, w[1], " ".join(w[2:]), d, "r")
        shutil.rmtree(d)
        print(v or "nothing found")
        return 1 if v else 0
    if w[0] == "e3":
        exe, out = build_sched()
        if exe is None:
            print(out)
            return 2
        if w[2].startswith("@"):
            r = sh([exe, "run", "--prop", w[1], "--seed", w[2][1:], "--from", w[3], "--to", str(int(w[3]) + 1)], check=False)
        else:
            r = sh([exe, "one", "--prop", w[1], "--case", " ".join(w[2:])], check=False)
        print(r.stdout)
        return 0 if r.returncode == 0 else 1
    if w[0] == "e4":
        v = e4_one(w[1], " ".join(w[2:4]), 256, w[4] if len(w) > 4 else "0.05")
        print(v or "nothing found")
        return 1 if v else 0
    if w[0] == "e5b":
        import judge
        out = tempfile.mkdtemp(prefix="rcv")
        judge.build(out)
        r = e5_judge([open(path).read().split("\n", 1)[1].rstrip("\n")], out, "r")[0]
        d = e5_disagree(*r)
        print(dict(zip(CRATES, r)), d or "no disagreement")
        shutil.rmtree(out)
        return 1 if d else 0
    if w[0] == "e5m":
        import judge, markers
        out = tempfile.mkdtemp(prefix="rcv")
        judge.build(out)
        if w[2] == "type":
            o = [l for l in probe([" ".join(w[3:])], out, "r").splitlines() if l.startswith("DIFF")]
            for l in o:
                x = l.split()
                print("%s: %s is %s, of %s %s" % (markers.HANDLES[int(x[2])][0], x[3], x[4], markers.HANDLES[int(x[2])][1], x[5]))
        else:
            c = (w[4].replace("_", " "), " ".join(w[5:]), int(w[2]), w[3])
            r = []
            for which in (0, 1):
                src, first = markers.generic_source([c], which)
                lines = src.split("\n")
                r.append(judge.errors("\n".join(lines[:first - 1]) + "\n", lines[first - 1:first], "rc_slice", out, "r")[0])
            print("errors of the handle and of the counterpart:", r)
            o = bool(r[0]) != bool(r[1])
        shutil.rmtree(out)
        return 1 if o else 0
    print("unknown replay file")
    return 2


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            build_both()
            exe, out = build_sched()
            if exe is None:
                print(out)
            sh(["cargo", "+nightly", "miri", "setup"], cwd=os.path.join(ROOT, "harness"), env=miri_env(), timeout=900, check=False)
            e4_run(["gen", "1", "0", "0", "1", "0"], 600)
            with open(os.path.join(BUILD, "empty.bin"), "wb"):
                pass
            miri_run(os.path.join(BUILD, "empty.bin"), 600)
            return 0
        if a[0] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            return check(a[1], tier)
        if a[0] == "replay":
            return replay(a[1])
    except (Err, subprocess.TimeoutExpired) as e:
        print("ERROR", e)
        return 2
    return 2


sys.exit(main())
