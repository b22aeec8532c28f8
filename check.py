#!/usr/bin/env python3
"""Decide one property of /repo by running the real code under monitors.

usage: check.py PROPERTY [--tier quick|thorough]
       check.py --replay FILE        run one recorded violation again
       check.py --setup              build everything the checks use

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>".  Exit 2: no answer.
"""
import array
import fcntl
import glob
import hashlib
import itertools
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
TRIPLE = "x86_64-unknown-linux-gnu"
SHARDS = 8

# kind -> (target dir, profile dir under it, cargo arguments, RUSTFLAGS)
KINDS = {
    "release": (TARGET, "release", ["cargo", "build", "--release"], ""),
    "checked": (TARGET, "checked", ["cargo", "build", "--profile", "checked"], ""),
    "asan": (TARGET + "/asan", TRIPLE + "/release", ["cargo", "+nightly", "build", "--release", "--target", TRIPLE], "-Zsanitizer=address -Zub-checks=yes"),
    "tsan": (TARGET + "/tsan", TRIPLE + "/release", ["cargo", "+nightly", "build", "--release", "-Zbuild-std", "--target", TRIPLE], "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"),
    "miri": (TARGET + "/miri", "", ["cargo", "+nightly", "miri"], ""),
    # the library without any optional feature
    "plain": (TARGET + "/plain", "release", ["cargo", "build", "--release", "--no-default-features"], ""),
    # with one or two of them
    **{
        "-".join(fs): (TARGET + "/" + "-".join(fs), "lean", ["cargo", "build", "--profile", "lean", "--no-default-features", "--features", ",".join("one-" + f for f in fs)], "")
        for n in (1, 2)
        for fs in itertools.combinations(("bigint", "serde", "fraction"), n)
    },
    # the interpreter as another platform: 64 bit big endian, 32 bit little endian
    "miri-s390x": (TARGET + "/miri", "", ["cargo", "+nightly", "miri"], ""),
    "miri-i686": (TARGET + "/miri", "", ["cargo", "+nightly", "miri"], ""),
}
PLATFORM = {"miri-s390x": "s390x-unknown-linux-gnu", "miri-i686": "i686-unknown-linux-gnu"}
# differential properties: the builds whose per-program digests must agree with those of the release build
FEATURES = ["bigint", "serde", "fraction", "bigint-serde", "bigint-fraction", "serde-fraction"]
DIFF = {"P01": ["checked"], "P02": ["plain"] + FEATURES, "P03": ["miri-s390x", "miri-i686"]}
# what each property runs beyond the release build: kind -> (permille of the cases, streams or None for all)
EXTRA = {
    "quick": {"M01": {"asan": (250, None), "miri": (1, None)}, "V01": {"tsan": (200, "4,5")}, "P02": {"plain": (1000, None), **{k: (200, None) for k in FEATURES}}, "P03": {"miri-s390x": (1, None), "miri-i686": (1, None)}},
    "thorough": {"M01": {"asan": (1000, None), "miri": (1, None)}, "V01": {"tsan": (1000, "4,5"), "asan": (100, None), "miri": (1, "4,5")}, "P02": {"plain": (1000, None), **{k: (1000, None) for k in FEATURES}}, "P03": {"miri-s390x": (1, None), "miri-i686": (1, None)}},
}
MIRI_CASES = {"quick": {"M01": 8, "V01": 1, "P03": 15}, "thorough": {"M01": 400, "V01": 12, "P03": 600}}
# share of the cases that also runs with debug assertions and overflow checks (permille)
CHECKED = {"E01": 1000, "B01": 1000, "P01": 1000, "M01": 600, "A01": 600, "V01": 600}
CHECKED_DEFAULT = 400
# workloads (LARGE, ULTRA, SCALE, BULK; A01 HUGE, A02 BIG) near what time and memory of the sandbox allow: where a slower
# or more wasteful but correct implementation exceeds that, they are left out and the evidence says so
HEAVY = {20, 21, 22, 26, ("A01", 4), ("A02", 5)}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


def source_files():
    out = sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml"]
    for extra in ("/Cargo.lock", "/build.rs", "/rust-toolchain", "/rust-toolchain.toml"):
        if os.path.exists(REPO + extra):
            out.append(REPO + extra)
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in source_files() + sorted(glob.glob(HARNESS + "/src/*.rs")) + [HARNESS + "/Cargo.toml", HARNESS + "/Cargo.lock"]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def is_miri(kind):
    return kind.startswith("miri")


def target_args(kind):
    return ["--target", PLATFORM[kind]] if kind in PLATFORM else []


def build_env(kind):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"):
        env.pop(k, None)
    env["CARGO_TARGET_DIR"] = KINDS[kind][0]
    env["CARGO_NET_OFFLINE"] = "true"
    if KINDS[kind][3]:
        env["RUSTFLAGS"] = KINDS[kind][3]
    if is_miri(kind):
        env["XDG_CACHE_HOME"] = TARGET + "/cache"
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        if kind in PLATFORM:
            # only the results count here; undefined behaviour is M01's subject
            env["MIRIFLAGS"] += " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
    return env


def binary(kind):
    tdir, prof, _, _ = KINDS[kind]
    return os.path.join(tdir, prof, "mon")


def build(kinds, tree):
    """Build the given kinds from the current sources; those that share a target directory one after the other."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    procs = []
    # the release and checked profiles share a target directory and cargo locks it; separate invocations of one
    # directory run in sequence, different directories in parallel
    todo = []
    for kind in kinds:
        tdir = KINDS[kind][0]
        stamp = os.path.join(tdir, f".stamp-{kind}")
        try:
            done = open(stamp).read() == tree and (is_miri(kind) or os.path.exists(binary(kind)))
        except OSError:
            done = False
        if not done:
            todo.append((kind, stamp))
    if not todo:
        return
    t0 = time.time()
    for kind, stamp in todo:
        tdir, prof, argv, _ = KINDS[kind]
        os.makedirs(tdir, exist_ok=True)
        if os.path.exists(stamp):
            os.remove(stamp)
        # cargo decides by modification times; the hash says the content changed, so forget what it knows
        for pat in ("baa-*", "mon-*"):
            for d in glob.glob(os.path.join(tdir, "*", ".fingerprint", pat)) + glob.glob(os.path.join(tdir, "*", "*", ".fingerprint", pat)):
                if is_miri(kind) and (PLATFORM.get(kind, TRIPLE) not in d):
                    continue
                if kind in ("release", "checked") and os.path.basename(os.path.dirname(os.path.dirname(d))) != kind:
                    continue
                shutil.rmtree(d, ignore_errors=True)
        if is_miri(kind):
            # also builds the Miri sysroot when it is missing; `list` is a run that does nothing
            cmd = argv + ["run", "--offline", "--quiet"] + target_args(kind) + ["--", "list", "quick"]
        else:
            cmd = argv + ["--offline"]
        out = tempfile.TemporaryFile(mode="w+")
        procs.append((kind, stamp, out, subprocess.Popen(cmd, cwd=HARNESS, env=build_env(kind), stdout=out, stderr=subprocess.STDOUT)))
    for kind, stamp, out, p in procs:
        rc = p.wait()
        if rc != 0:
            out.seek(0)
            text = out.read()
            errs = [l for l in text.splitlines() if l.startswith("error")]
            raise NoAnswer(f"build {kind} failed (rc {rc}): " + ("; ".join(errs[:5]) or text[-600:]))
        with open(stamp, "w") as f:
            f.write(tree)
    log(f"built {', '.join(k for k, _ in todo)} in {time.time() - t0:.1f} s")


def mined_literals():
    """Integer literals of the sources: only used to bias the workload towards them."""
    vals = set()
    for f in source_files():
        if not f.endswith(".rs"):
            continue
        text = re.split(r"(?m)^#\[cfg\(test\)\]", open(f, encoding="utf-8", errors="replace").read())[0]
        text = re.sub(r"//[^\n]*", "", text)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w])", text):
            try:
                v = int(m.group(1).replace("_", ""), 0) if m.group(1)[:2] in ("0x", "0b", "0o") else int(m.group(1).replace("_", ""))
            except ValueError:
                continue
            if v < 1 << 64:
                vals.add(v)
    return sorted(vals)


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["open"]


def run_env(kind, scratch):
    env = build_env(kind)
    env["MON_DICT"] = os.path.join(scratch, "dict")
    env["RUST_BACKTRACE"] = "0"
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=98:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4096"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_bugs=1"
    return env


def limits(kind, cpu=None):
    def f():
        os.setpgrp()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not is_miri(kind) and kind not in ("asan", "tsan"):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

    return f


def argv_of(kind, rest):
    if is_miri(kind):
        return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet"] + target_args(kind) + ["--"] + rest
    return [binary(kind)] + rest


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


class Worker:
    def __init__(self, kind, prop, seed, tier, shard, shards, permille, streams, budget, known, scratch, digests=False, cases=None):
        self.kind, self.prop, self.shard, self.shards = kind, prop, shard, shards
        self.args = (kind, prop, seed, tier, shard, shards, permille, streams, budget, known, scratch, digests, cases)
        base = os.path.join(scratch, f"{kind}-{shard}")
        self.out, self.journal, self.bitmap, self.digests, self.err = base + ".json", base + ".journal", base + ".bits", base + ".dig", base + ".err"
        rest = ["run", prop, "--seed", str(seed), "--tier", tier, "--shard", f"{shard}/{shards}", "--permille", str(permille), "--budget", str(budget), "--out", self.out, "--journal", self.journal, "--known", known]
        if not is_miri(kind):  # writing a megabyte takes minutes under the interpreter
            rest += ["--bitmap", self.bitmap]
        if streams:
            rest += ["--streams", streams]
        if digests:
            rest += ["--digests", self.digests]
        if cases:
            rest += ["--cases", str(cases)]
        self.timeout = budget + (300 if is_miri(kind) else 180)
        self.t0 = time.time()
        self.p = subprocess.Popen(argv_of(kind, rest), cwd=HARNESS if is_miri(kind) else scratch, env=run_env(kind, scratch), stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"), preexec_fn=limits(kind))

    def result(self):
        left = self.timeout - (time.time() - self.t0)
        try:
            rc = self.p.wait(timeout=max(1, left))
        except subprocess.TimeoutExpired:
            stop(self.p)
            rc = "timeout"
        else:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        data = None
        if os.path.exists(self.out):
            try:
                data = json.load(open(self.out))
            except ValueError:
                data = None
        err = open(self.err, "rb").read().decode("utf-8", "replace")
        return rc, data, err

    def at(self):
        try:
            a, b = open(self.journal).read().split()[:2]
            return int(a), int(b)
        except (OSError, ValueError):
            return None


def run_single(kind, prop, seed, stream, index, known, scratch, verbose=False, cpu=None):
    """One case alone: (rc or signal name, stdout, stderr)."""
    cpu = cpu or (240 if is_miri(kind) else 100)
    rest = ["case", prop, "--seed", str(seed), "--stream", str(stream), "--index", str(index), "--known", known]
    if verbose:
        rest.append("--verbose")
    p = subprocess.Popen(argv_of(kind, rest), cwd=HARNESS if is_miri(kind) else scratch, env=run_env(kind, scratch), stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(kind, cpu=cpu))
    try:
        o, e = p.communicate(timeout=max(300, cpu + 60))
    except subprocess.TimeoutExpired:
        stop(p)
        return "timeout", "", ""
    return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


SAN = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|error: Undefined Behavior: [^\n]*|unsafe precondition\(s\) violated[^\n]*|Undefined Behavior: [^\n]*)")


def describe(rc, err):
    m = SAN.search(err)
    if m:
        return m.group(1)
    if isinstance(rc, int) and rc < 0:
        try:
            name = signal.Signals(-rc).name
        except ValueError:
            name = str(-rc)
        tail = [l for l in err.strip().splitlines() if l.strip()]
        return f"process killed by {name}" + (f": {tail[-1][:300]}" if tail else "")
    return f"process ended with {rc}"


def write_replay(rec):
    os.makedirs(REPLAYS, exist_ok=True)
    key = hashlib.sha256(json.dumps([rec["property"], rec["stream"], rec["index"], rec.get("item"), rec["seed"], rec["build"], rec["tree"]]).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{rec['property']}-{key}.json")
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def base_kinds(prop):
    return ["release"] if prop in ("P02", "P03") else ["release", "checked"]


def check(prop, tier, seed):
    t0 = time.time()
    tree = tree_hash()
    extra = EXTRA[tier].get(prop, {})
    kinds = base_kinds(prop) + list(extra)
    build(kinds, tree)
    build_s = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="mon-", dir="/tmp")
    try:
        return decide(prop, tier, seed, tree, extra, scratch, t0, build_s)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, tree, extra, scratch, t0, build_s):
    literals = mined_literals()
    with open(os.path.join(scratch, "dict"), "w") as f:
        f.write(" ".join(map(str, literals)))
    findings = [k for k in known_findings() if k["property"] == prop]
    known = ",".join(k["key"] for k in findings)
    meta = json.loads(subprocess.run([binary("release"), "list", tier], stdout=subprocess.PIPE, check=True).stdout)[prop]
    budget = {"quick": 80, "thorough": 700}[tier]

    runs = [(k, 1000 if k == "release" else CHECKED.get(prop, CHECKED_DEFAULT), None) for k in base_kinds(prop)]
    runs += [(k, pm, st) for k, (pm, st) in extra.items()]
    workers = []
    groups = [[r for r in runs if not is_miri(r[0])], [r for r in runs if is_miri(r[0])]] if tier == "thorough" else [runs]
    results = []
    for group in groups:
        workers = []
        for kind, pm, st in group:
            for i in range(SHARDS):
                cases = MIRI_CASES[tier].get(prop) if is_miri(kind) else None
                workers.append(Worker(kind, prop, seed, tier, i, SHARDS, pm, st, budget, known, scratch, digests=(prop in DIFF), cases=cases))
        results += [(w, w.result()) for w in workers]

    def again(w, stream, why):
        """the rest of a worker's share without a workload that is too heavy for this tree"""
        left_out.setdefault(stream, why)
        a = list(w.args)
        have = [s["id"] for s in meta["streams"]] if a[7] is None else [int(x) for x in a[7].split(",")]
        a[7] = ",".join(str(s) for s in have if s not in left_out)
        if a[7]:
            x = Worker(*a)
            results.append((x, None))

    violation = None  # (build, stream, index, msg, how)
    unclear = []
    left_out = {}  # heavy stream -> why
    total = {"evaluations": 0, "refused": 0}
    per_build, events, samples, seen_known = {}, {}, [], {}
    bits = None
    conc = {}
    for w, res in results:  # grows while it is walked
        rc, data, err = res or w.result()
        if data is not None:
            total["evaluations"] += data["evaluations"]
            total["refused"] += data["refused"]
            b = per_build.setdefault(w.kind, {"evaluations": 0, "cases": {}, "cut_short": 0, "wall_s": 0.0})
            b["evaluations"] += data["evaluations"]
            b["cut_short"] += int(data["cut"])
            b["wall_s"] = round(max(b["wall_s"], data["wall_s"]), 2)
            for k, v in data["cases"].items():
                b["cases"][k] = b["cases"].get(k, 0) + v
            for op, m in data["events"].items():
                e = events.setdefault(op, {})
                for k, v in m.items():
                    e[k] = e.get(k, 0) + v
            if w.kind == "release" and len(samples) < 6:
                samples += data["samples"][: 6 - len(samples)]
            for k, (n, m) in data["known"].items():
                s = seen_known.setdefault(k, [0, m])
                s[0] += n
            if os.path.exists(w.bitmap):
                x = int.from_bytes(open(w.bitmap, "rb").read(), "little")
                bits = x if bits is None else bits | x
        if violation:
            continue
        if data is not None and data["violation"]:
            v = data["violation"]
            violation = (w.kind, v["stream"], v["index"], v["msg"], "monitor")
        elif rc == 0:
            pass
        elif data is not None and data["broken"]:
            v = data["broken"]
            unclear.append(f"{w.kind} shard {w.shard}: harness stopped at stream {v['stream']} case {v['index']}: {v['msg'][:300]}")
        else:
            # crash, sanitizer report or hang: the journal names the case
            where = w.at()
            what = describe(rc, err)
            if where is None:
                unclear.append(f"{w.kind} shard {w.shard}: {what} before the first case: {err[-300:]}")
                continue
            if "ThreadSanitizer: data race" in err:
                violation = (w.kind, *where, what + "\n" + err[:3000], "sanitizer")
                continue
            heavy = where[0] in HEAVY or (prop, where[0]) in HEAVY
            memory = "memory allocation of" in err or rc == -signal.SIGKILL
            if heavy and (memory or where[0] in left_out):
                again(w, where[0], f"{what} at case {where[1]} ({w.kind})")
                continue
            slow = heavy and rc == "timeout"
            rc2, o2, e2 = run_single(w.kind, prop, seed, *where, known, scratch, cpu=200 if slow else None)
            if slow and rc2 in (0, "timeout", -signal.SIGXCPU):
                # slow or endless: which of the two is not for a heavy workload to say
                for s in meta["streams"]:  # no time to find out about the others one by one
                    if s["id"] in HEAVY or (prop, s["id"]) in HEAVY:
                        left_out.setdefault(s["id"], "time")
                left_out[where[0]] = f"case {where[1]} takes minutes ({w.kind})"
                again(w, where[0], "")
                continue
            if rc2 == "timeout":
                violation_what = "does not terminate (300 s)"
            elif rc2 in (0, 3):
                unclear.append(f"{w.kind} shard {w.shard}: {what} at stream {where[0]} case {where[1]}, not reproduced alone")
                continue
            else:
                violation_what = describe(rc2, e2)
                if rc2 == -signal.SIGXCPU:
                    violation_what = "does not terminate (100 s of CPU time)"
                if rc2 == -signal.SIGKILL:
                    unclear.append(f"{w.kind} shard {w.shard}: killed twice at stream {where[0]} case {where[1]} (memory?)")
                    continue
                if rc2 == 1 and "CASE-VIOLATION" in o2:
                    violation_what = o2.split("CASE-VIOLATION", 1)[1].strip()[:2000]
                elif is_miri(w.kind) and not SAN.search(e2):
                    unclear.append(f"{w.kind} shard {w.shard}: {violation_what} {e2[-300:]}")
                    continue
            violation = (w.kind, *where, violation_what + "\n" + e2[-3000:], "crash or sanitizer")

    # differential properties: the same programs must have produced the same results in all builds
    compared = {k: 0 for k in DIFF.get(prop, [])}
    by = {(w.kind, w.shard): w for w, *_ in results}  # the last one counts
    for other in compared:
        for i in range(SHARDS):
            if violation:
                break
            a, b = (open(by[(k, i)].digests, "rb").read() if os.path.exists(by[(k, i)].digests) else b"" for k in ("release", other))
            a, b = (dict(zip(x[0::2], x[1::2])) for x in (array.array("Q", y[: len(y) // 16 * 16]) for y in (a, b)))
            common = a.keys() & b.keys()
            compared[other] += len(common)
            differ = sorted(k for k in common if a[k] != b[k])
            if differ:
                stream, index = differ[0] >> 56, differ[0] & ((1 << 56) - 1)
                traces = [run_single(x, prop, seed, stream, index, known, scratch, verbose=True)[1] for x in ("release", other)]
                la, lb = (t.splitlines() for t in traces)
                diff = next(((x, y) for x, y in zip(la, lb) if x != y), ("", ""))
                violation = (f"release+{other}", stream, index, f"the two builds disagree: release: {diff[0][:500]} | {other}: {diff[1][:500]}", "differential")

    stream_names = {str(s["id"]): s for s in meta["streams"]}
    distinct = min(bin(bits).count("1") if bits is not None else 0, total["evaluations"])
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": distinct,
            "rule": meta["rule"] + ". Distinct ones are counted by a 2^23-bit hash set merged over all workers (a lower bound).",
            "samples": samples or ["none"],
            "observed_events_by_operation_and_width_class": events,
            "refused_by_panic": total["refused"],
            "builds": {
                k: {
                    "evaluations": b["evaluations"],
                    "workers_cut_short_by_budget": b["cut_short"],
                    "slowest_worker_s": b["wall_s"],
                    "cases_by_workload": {(stream_names[s]["name"] if s in stream_names else s): n for s, n in b["cases"].items()},
                }
                for k, b in per_build.items()
            },
            "complete_enumerations": [s["name"] for s in meta["streams"] if s["complete"] and per_build.get("release", {}).get("cases", {}).get(str(s["id"]), 0) == s["count"]],
            "mined_literals": len(literals),
            "known_findings_seen": {k: v[0] for k, v in seen_known.items()},
        },
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(build_s, 2),
        "source_tree": tree,
    }
    if compared:
        evidence["coverage"]["programs_compared_between_builds"] = compared
    if violation:
        evidence["violation"] = {"build": violation[0], "stream": violation[1], "index": violation[2], "msg": violation[3][:3000]}
    if left_out:
        evidence["coverage"]["left_out_as_too_heavy"] = {(stream_names[str(s)]["name"] if str(s) in stream_names else str(s)): why for s, why in left_out.items()}
    if unclear:
        evidence["unclear"] = unclear[:10]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k in findings:
        if k["key"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['key']}]")
    if violation:
        rec = {"property": prop, "seed": seed, "tier": tier, "build": violation[0], "stream": violation[1], "index": violation[2], "msg": violation[3], "detected_by": violation[4], "known": known, "literals": literals, "tree": tree}
        path = write_replay(rec)
        print(violation[3][:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if unclear:
        raise NoAnswer("; ".join(unclear[:5]))
    if total["evaluations"] == 0 or distinct == 0:
        raise NoAnswer("nothing was observed")
    if compared and 0 in compared.values():
        raise NoAnswer(f"no program was compared between builds: {compared}")
    missing = [k for k, *_ in runs if per_build.get(k, {}).get("evaluations", 0) == 0]
    if missing:
        raise NoAnswer(f"nothing was observed in {missing}")
    print(f"ok property={prop} tier={tier} evaluations={total['evaluations']} distinct={distinct} wall={evidence['wall_s']}s (build {evidence['build_s']}s)")
    return 0


# ------------------------------------------------------------------------------------------------- work
# W01 counts machine instructions under callgrind. From the smaller to the larger size the count may grow like
# size^power times this; what is measured as less than FLOOR at the smaller size counts as FLOOR there.
WORK_SLACK = 10


def work_floor(m):
    return 300 * m["calls"] if m["power"] == 0 else max(1000, 32 * m["size"])


def work_limit(small, n, large):
    return WORK_SLACK * max(n, work_floor(small)) * (large["size"] / small["size"]) ** small["power"]


class Work:
    """one shard of the measurements; restarted behind a measurement that gets stuck"""

    def __init__(self, shard, shards, seed, scale, scratch, patience, only=None):
        self.rest = ["work", "--seed", str(seed), "--shard", f"{shard}/{shards}", "--scale", str(scale)] + (["--only", only] if only else [])
        self.dir, self.patience, self.starts = os.path.join(scratch, f"work-{shard}"), patience, 0
        self.done, self.stuck, self.panicked, self.over, self.broken = [], [], [], None, None
        self.launch(0)

    def launch(self, start):
        self.starts += 1
        self.cwd = f"{self.dir}-{self.starts}"
        os.makedirs(self.cwd)
        self.dumps, self.lines, self.seen, self.small, self.cur, self.running = 0, 0, b"", None, None, False
        self.log = open(self.cwd + "/log", "wb")
        argv = ["valgrind", "--tool=callgrind", "--callgrind-out-file=" + self.cwd + "/cg", binary("release")] + self.rest + ["--from", str(start)]
        self.p = subprocess.Popen(argv, cwd=self.cwd, env=run_env("release", os.path.dirname(self.dir)), stdout=self.log, stderr=subprocess.DEVNULL, preexec_fn=os.setpgrp)
        self.t = time.time()

    def count(self, f):
        try:
            for line in open(f, encoding="latin-1"):
                if line.startswith(("summary:", "totals:")):
                    n = int(line.split()[1])
                    os.remove(f)
                    return n
        except (OSError, ValueError, IndexError):
            pass
        return None

    def judge(self, m, n, complete):
        """n: instructions counted (so far, when not complete)"""
        if self.small is None or self.small[0]["pair"] != m["pair"]:
            if complete:
                self.small = (m, n)
            return
        a, na = self.small
        if complete:
            self.done.append((a, na, m, n))
        limit = work_limit(a, na, m)
        if n > limit and self.over is None:
            more = "" if complete else " and had not ended"
            per = "" if a["calls"] == 1 else f" ({a['calls']} calls)"
            self.over = (m["item"], f"{m['item']} [{m['case']}]: {na} instructions{per} at size {a['size']}, {n}{more} at size {m['size']}; expected growth at most like size^{a['power']} (limit {int(limit)})")

    def poll(self):
        """True while there is more to come"""
        ended = self.p.poll() is not None
        data = open(self.cwd + "/log", "rb").read()
        lines = data.decode("utf-8", "replace").split("\n")[:-1]
        for l in lines[self.lines :]:
            self.lines += 1
            self.t = time.time()
            if l.startswith("P "):
                self.cur, self.running = json.loads(l[2:]), False
            elif l == "R":
                self.running = True
            elif l == "D":
                self.dumps += 1
                n = self.count(f"{self.cwd}/cg.{self.dumps}")
                if n is None:
                    self.broken = "no count from callgrind"
                else:
                    self.judge(self.cur, n, True)
                self.cur = None
            elif l.startswith("X "):
                self.panicked.append(f"{self.cur['item']} [{self.cur['case']}]: {l[2:200]}")
                self.cur = None
            elif l == "END":
                self.cur = "end"
        if self.over or self.broken or self.cur == "end":
            stop(self.p)
            return False
        if not ended and time.time() - self.t < self.patience:
            return True
        # stuck or ended early: callgrind writes what it counted so far when it is terminated
        m = self.cur
        if not ended:
            try:
                os.killpg(self.p.pid, signal.SIGTERM)
                self.p.wait(timeout=60)
            except (OSError, subprocess.TimeoutExpired):
                pass
        stop(self.p)
        if m is None or self.starts > 40:
            self.broken = f"valgrind ended with {self.p.returncode}"
            return False
        n = self.count(self.cwd + "/cg") if self.running else None
        if n is not None:
            self.judge(m, n, False)
        self.stuck.append(f"{m['item']} [{m['case']}] at size {m['size']}: " + ("still running" if not ended else f"process ended ({self.p.returncode})") + ("" if self.running else " while it was prepared") + f", {n} instructions")
        if self.over:
            return False
        self.launch(m["pair"])
        return True


def work(prop, tier, seed):
    t0 = time.time()
    tree = tree_hash()
    build(["release"], tree)
    build_s = time.time() - t0
    if shutil.which("valgrind") is None:
        raise NoAnswer("valgrind is not installed")
    scratch = tempfile.mkdtemp(prefix="mon-", dir="/tmp")
    workers = []
    try:
        with open(os.path.join(scratch, "dict"), "w") as f:
            f.write("")
        workers = [Work(i, SHARDS, seed, {"quick": 1, "thorough": 8}[tier], scratch, {"quick": 90, "thorough": 300}[tier]) for i in range(SHARDS)]
        live = list(workers)
        deadline = time.time() + {"quick": 600, "thorough": 3600}[tier]
        cut = False
        while live and not any(w.over for w in workers):
            time.sleep(0.2)
            live = [w for w in live if w.poll()]
            if time.time() > deadline:
                cut = True
                break
    finally:
        for w in workers:
            stop(w.p)
        shutil.rmtree(scratch, ignore_errors=True)
    done = [x for w in workers for x in w.done]
    stuck = [x for w in workers for x in w.stuck]
    panicked = [x for w in workers for x in w.panicked]
    rows = sorted(((n / (work_limit(a, na, b) / WORK_SLACK), a, na, b, n) for a, na, b, n in done), key=lambda r: -r[0])
    items = {}
    for r, a, na, b, n in rows:
        items.setdefault(a["item"], {"power": a["power"], "sizes": [a["size"], b["size"]], "instructions": [na, n], "growth_over_expected": round(r, 3), "cases": 0})["cases"] += 1
    over = next((w.over for w in workers if w.over), None)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": 2 * len(done),
            "distinct_nontrivial": sum(1 for _, a, na, b, n in rows if n != na or a["power"] == 0),
            "rule": "one evaluation is one prepared call (or 64 calls, or a history) run under callgrind, which counts its instructions; each at a small and a large size. A pair counts as non-trivial if the counts differ or must not.",
            "samples": [f"{a['item']} [{a['case']}]: {na} instructions at size {a['size']}, {n} at size {b['size']} (power {a['power']})" for _, a, na, b, n in rows[:3] + rows[-2:]] or ["none"],
            "instructions_counted": sum(na + n for _, _, na, _, n in rows),
            "largest_growth_over_expected": round(rows[0][0], 3) if rows else None,
            "allowed_growth_over_expected": WORK_SLACK,
            "by_item_worst_case": items,
            "not_measured": stuck[:20], "panicked": panicked[:20], "cut_by_time": cut,
        },
        "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2), "source_tree": tree,
    }
    if over:
        evidence["violation"] = over[1]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if over:
        path = write_replay({"property": prop, "seed": seed, "tier": tier, "build": "release", "stream": 0, "index": 0, "item": over[0], "msg": over[1], "detected_by": "instruction count", "tree": tree})
        print(over[1])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    bad = [w.broken for w in workers if w.broken]
    if bad:
        raise NoAnswer("; ".join(bad))
    if len(done) < 100 or len(stuck) + len(panicked) > len(done) // 4:
        raise NoAnswer(f"{len(done)} measured, {len(stuck)} stuck, {len(panicked)} panicked: {(stuck + panicked)[:3]}")
    print(f"ok property={prop} tier={tier} measured={len(done)} pairs, largest growth {rows[0][0]:.2f} of {WORK_SLACK} allowed, not measured={len(stuck) + len(panicked)} wall={evidence['wall_s']}s (build {evidence['build_s']}s)")
    return 0


def replay_work(rec):
    build(["release"], tree_hash())
    scratch = tempfile.mkdtemp(prefix="mon-", dir="/tmp")
    w = None
    try:
        w = Work(0, 1, rec["seed"], {"quick": 1, "thorough": 8}[rec["tier"]], scratch, 300, only=rec["item"])
        while w.poll():
            time.sleep(0.2)
        for a, na, b, n in w.done:
            print(f"{a['item']} [{a['case']}]: {na} instructions at size {a['size']}, {n} at size {b['size']} (power {a['power']})")
        if w.over:
            print(w.over[1])
            return 1
        return 0
    finally:
        if w:
            stop(w.p)
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    if "item" in rec:
        rc = replay_work(rec)
        print(f"VIOLATION property={rec['property']} replay={path}" if rc else "not reproduced on the current tree")
        return rc
    kinds = rec["build"].split("+")
    tree = tree_hash()
    build(kinds, tree)
    scratch = tempfile.mkdtemp(prefix="mon-", dir="/tmp")
    try:
        with open(os.path.join(scratch, "dict"), "w") as f:
            f.write(" ".join(map(str, rec["literals"])))
        bad = False
        outs = []
        for k in kinds:
            rc, o, e = run_single(k, rec["property"], rec["seed"], rec["stream"], rec["index"], rec["known"], scratch, verbose=True)
            print(o[-6000:])
            outs.append([l for l in o.splitlines() if l.startswith("OK digest")])
            if rc not in (0, 3):
                bad = True
                print(describe(rc, e))
                print(e[-3000:])
        if len(kinds) == 2 and outs[0] != outs[1]:
            bad = True
        if bad:
            print(f"VIOLATION property={rec['property']} replay={path}")
            return 1
        print("not reproduced on the current tree")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build(list(KINDS), tree_hash())
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        return (work if a[0] == "W01" else check)(a[0], tier, seed & ((1 << 63) - 1))
    except NoAnswer as e:
        log(f"no answer: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
