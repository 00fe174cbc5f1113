#!/usr/bin/env python3
"""Builds and runs the checks of one property against /repo's working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N]
       check.py --replay FILE          re-runs a replay file
       check.py --build [BINARY...]    builds the test binaries

exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import BINARIES, CHECKS  # noqa: E402

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-std=c++17", "-g1", "-O1", "-DNDEBUG", "-w", "-pthread"]


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def header_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for n in sorted(files):
                if n.endswith((".h", ".hpp", ".hh", ".inc", ".ipp")):
                    p = os.path.join(root, n)
                    h.update(p.encode())
                    h.update(read(p))
    return h.hexdigest()


def compile_one(src, flags, key, optional, rename=None):
    """Returns (object path or None, log)."""
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj, ""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    log = ""
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = ["clang++"] + flags + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode == 0 and rename:
        p = subprocess.run(["objcopy", "--redefine-sym", "main=" + rename, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode == 0:
        os.replace(tmp, obj)
        return obj, ""
    log = " ".join(cmd) + "\n" + p.stdout.decode(errors="replace")
    if optional:
        return None, log
    raise NoAnswer("cannot compile " + src + "\n" + log[-6000:])


def build(name, fuzz=False):
    spec = BINARIES[name]
    includes = [os.path.join(VERIF, "engine")] + [os.path.join(VERIF, i) for i in spec.get("includes", [])] + [os.path.join(REPO, "include")] + [os.path.join(REPO, i) for i in spec.get("repo_includes", [])]
    inc_flags = ["-I" + i for i in includes]
    san = list(SAN)
    if fuzz:
        san[0] = "-fsanitize=fuzzer-no-link,address,undefined"
    dig = header_digest(includes + [os.path.join(VERIF, d) for d in spec.get("digest", [])])
    jobs = []

    def add(src, optional, defs=(), rename=None):
        flags = COMMON + san + list(defs) + spec.get("flags", []) + inc_flags
        key = hashlib.sha256((dig + src + " ".join(flags) + (rename or "")).encode() + read(src)).hexdigest()[:24]
        jobs.append((src, flags, key, optional, rename))

    add(os.path.join(VERIF, "engine/driver.cc"), False, ["-DPBT_FUZZ"] if fuzz else [])
    for s in spec["sources"]:
        for p in sorted(glob.glob(os.path.join(VERIF, s))):
            add(p, False)
    for s in spec.get("repo_sources", []):
        for p in sorted(glob.glob(os.path.join(REPO, s), recursive=True)):
            rel = os.path.relpath(p, REPO)
            if rel in spec.get("repo_exclude", []):
                continue
            add(p, True, ["-DDOCTEST_CONFIG_DISABLE"])
    # Programs of the repository whose main() the checks call.
    for s, name_ in spec.get("repo_mains", {}).items():
        add(os.path.join(REPO, s), False, ["-DDOCTEST_CONFIG_DISABLE"], name_)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    objs = [o for o, _ in res if o]
    warn = "\n".join(l for _, l in res if l)
    out = os.path.join(BUILD, "bin", name + ("-fuzz" if fuzz else "") + "-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        link_san = list(san)
        if fuzz:
            link_san[0] = "-fsanitize=fuzzer,address,undefined"
        p = subprocess.run(["clang++"] + COMMON + link_san + objs + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise NoAnswer("cannot link " + name + "\n" + p.stdout.decode(errors="replace")[-4000:] + "\n" + warn[-4000:])
        os.replace(tmp, out)
    return out


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, **kw).returncode
    except subprocess.TimeoutExpired:
        return -99


def fuzz_target(binary, plain, target, seconds, seed, tmp, replay_out, out):
    """A libFuzzer campaign over the same generator. Returns (rc, executions)."""
    corpus = os.path.join(tmp, "corpus")
    os.makedirs(corpus)
    # A few random inputs of different sizes to start from.
    import random
    rng = random.Random(seed)
    for i in range(40):
        with open(os.path.join(corpus, "s%d" % i), "wb") as f:
            f.write(bytes(rng.randrange(256) for _ in range(rng.choice([8, 30, 100, 300, 900]))))
    log = os.path.join(tmp, "fuzz.log")
    env = dict(os.environ, PBT_FUZZ_TARGET=target)
    with open(log, "wb") as f:
        run([binary, "-fork=8", "-ignore_timeouts=0", "-max_total_time=%d" % seconds, "-max_len=3000", "-timeout=60", "-seed=%d" % (seed + 1), "-artifact_prefix=" + tmp + "/art-", "-rss_limit_mb=3000", "-verbosity=1", corpus],
            seconds + 120, env=env, stdout=f, stderr=subprocess.STDOUT, cwd=tmp)
    text = read(log).decode(errors="replace")
    execs = [int(x) for x in re.findall(r"#(\d+): cov", text)]
    n = max(execs) if execs else 0
    arts = sorted(glob.glob(tmp + "/art-crash-*")) + sorted(glob.glob(tmp + "/art-timeout-*")) + sorted(glob.glob(tmp + "/art-oom-*"))
    for a in arts[:5]:
        rc = run([plain, "--target", target, "--shrink-bytes", a, "--replay-out", replay_out, "--tmp", tmp, "--shrink-time", "90"], 400, stdout=out)
        if rc == 1:
            return 1, n
    return 0, n


def message_of(path):
    try:
        t = open(path).read()
        return t.split("--- message\n", 1)[1][:3000]
    except Exception:
        return ""


def findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) probe=(\S+):(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    tmp_root = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    results, violations, incomplete = [], [], []
    try:
        names = sorted({t["binary"] for t in spec["targets"] if "binary" in t} | {b for b, _, _ in findings(prop)})
        bins = {n: build(n) for n in names}
        say("built %s in %.1f s" % (", ".join(names), time.time() - t0))
        for b, target, text in findings(prop):
            tmp = tempfile.mkdtemp(dir=tmp_root)
            empty = os.path.join(tmp, "empty")
            open(empty, "w").write("choices 0\n")
            rc = run([bins[b], "--target", target, "--shrink", empty, "--replay-out", os.path.join(tmp, "r"), "--tmp", tmp, "--shrink-time", "0"], 120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if rc == 1:
                say("KNOWN-FINDING: property=%s %s" % (prop, text))
        for t in spec["targets"]:
            tmp = tempfile.mkdtemp(dir=tmp_root)
            name = t.get("target") or t["script"]
            replay = os.path.join(rdir, "%s-%s.txt" % (prop, os.path.basename(name).replace(".py", "")))
            if os.path.exists(replay):
                os.unlink(replay)
            outj = os.path.join(tmp, "out.json")
            cases = t["quick"] if tier == "quick" else t.get("thorough", t["quick"] * 20)
            cap = t.get("cap", 100 if tier == "quick" else 400)
            if "script" in t:
                rc = run([t.get("python", "python3-vt"), os.path.join(VERIF, t["script"]), "--seed", str(seed), "--cases", str(cases), "--cap", str(cap), "--out", outj, "--replay-out", replay, "--repo", REPO] + t.get("args", []), cap * 3 + 300)
            else:
                for attempt in range(3):
                    rc = run([bins[t["binary"]], "--target", name, "--seed", str(seed), "--cases", str(cases), "--time-cap", str(cap), "--out", outj, "--tmp", tmp, "--replay-out", replay, "--jobs", "8"], cap * 2 + 300)
                    if rc != 4:
                        break
                if rc == 4:
                    # Failed in three campaigns with the same draws, but not in isolation:
                    # the behaviour depends on more than the input.
                    msg = json.load(open(outj)).get("message", "")
                    open(replay, "w").write("target %s\nnot reproducible from one case alone; run: check.py %s --tier %s --seed %d\n--- message\n%s\n" % (name, prop, tier, seed, msg))
                    rc = 1
            if rc not in (0, 1) or not os.path.exists(outj):
                incomplete.append("%s: driver ended with %s" % (name, rc))
                continue
            r = json.load(open(outj))
            r["binary"] = t.get("binary", "")
            if rc == 0 and tier == "thorough" and t.get("fuzz", 1) and "binary" in t:
                fb = build(t["binary"], fuzz=True)
                ftmp = tempfile.mkdtemp(dir=tmp_root)
                secs = int(t.get("fuzz_s", max(30, 240 // len(spec["targets"]))))
                rc, n = fuzz_target(fb, bins[t["binary"]], name, secs, seed, ftmp, replay, None)
                r["coverage_guided_executions"] = n
                r["evaluations"] += n
            results.append(r)
            say("%s: %d cases, %d distinct non-trivial, %.1f s%s" % (name, r["evaluations"], r["distinct_nontrivial"], r["wall_s"], "" if rc == 0 else "  FAILED"))
            if rc == 1:
                violations.append(replay)
                say(message_of(replay) or r.get("message", ""))
                break
            if r["planned"] and r["evaluations"] < r["planned"] // 50:
                incomplete.append("%s: only %d of %d cases ran" % (name, r["evaluations"], r["planned"]))
    finally:
        shutil.rmtree(tmp_root, ignore_errors=True)
    samples = []
    for r in results:
        for s in r["samples"][:3]:
            samples.append({"target": r["target"], "case": s})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": "Cases are built from seeded bounded draws by the generator of each target; distinct = different draw sequences. Non-trivial: "
                    + "; ".join("%s: %s" % (r["target"], r["rule"]) for r in results),
            "samples": samples,
            "targets": [{k: r[k] for k in ("target", "evaluations", "discarded", "distinct_nontrivial", "labels", "wall_s", "coverage_guided_executions") if k in r} for r in results],
            "incomplete": incomplete,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for v in violations:
        say("VIOLATION property=%s replay=%s" % (prop, v))
    if violations:
        return 1
    if incomplete:
        say("NO ANSWER: " + "; ".join(incomplete))
        return 2
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a and a[0] == "--build":
        for n in a[1:] or BINARIES:
            say(n, build(n))
        return 0
    if a and a[0] == "--replay":
        text = open(a[1]).read()
        target = text.split()[1]
        for s in CHECKS.values():
            for t in s["targets"]:
                if t.get("target") == target:
                    return run([build(t["binary"]), "--target", target, "--replay", a[1]], 600)
                if t.get("script") and text.startswith("script " + t["script"]):
                    return run([t.get("python", "python3-vt"), os.path.join(VERIF, t["script"]), "--replay", a[1], "--repo", REPO], 600)
        say("no such target")
        return 2
    prop = a.pop(0)
    while a:
        o = a.pop(0)
        if o == "--tier":
            tier = a.pop(0)
        elif o == "--seed":
            seed = int(a.pop(0))
    return check(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER:", e)
        sys.exit(2)
