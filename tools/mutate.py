#!/usr/bin/env python3
"""Mutates one source file of /repo, line by line, and lists the mutants no target notices.

usage: mutate.py FILE [--cases N] [--first TARGET,...] [--only TARGET,...] [--jobs N] [--lines A-B]
A development tool: it works on objects of its own under /tmp/mut and never writes to /repo.
"""
import argparse, glob, hashlib, os, re, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import BINARIES
R = os.environ.get("VERIF_REPO", "/repo"); M = "/tmp/mut"
FLAGS = ["-std=c++17", "-g0", "-O1", "-DNDEBUG", "-w", "-pthread", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

def mutants(path):
    src = open(path).read().split("\n")
    out = []
    skip = False
    for i, line in enumerate(src):
        if line.startswith("TEST_CASE"): skip = True
        if skip:
            if line.startswith("}") or line.rstrip().endswith("}") and line.startswith("TEST_CASE"): skip = False
            continue
        t = line.strip()
        if not t or t.startswith(("//", "*", "/*", "#", "using ", "namespace", "template", "public:", "private:", "friend class")): continue
        code = line.split("  //")[0]
        def sub(pat, rep, what):
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                out.append((i, new, what))
        sub(r" == ", " != ", "==->!="); sub(r" != ", " == ", "!=->==")
        sub(r" < ", " <= ", "<-><="); sub(r" <= ", " < ", "<=-><"); sub(r" > ", " >= ", ">->>="); sub(r" >= ", " > ", ">=->>")
        sub(r" < ", " > ", "<->>")
        sub(r" && ", " || ", "&&->||"); sub(r" \|\| ", " && ", "||->&&")
        sub(r"(?<![\w=!<>])!(?=[\w(])", "", "drop !")
        sub(r" \+ 1\b", "", "drop +1"); sub(r" - 1\b", "", "drop -1")
        sub(r" \+ (?=[a-z_(])", " - ", "+->-"); sub(r" - (?=[a-z_(])", " + ", "-->+")
        sub(r"\+\+", "--", "++->--"); sub(r"(?<!-)--(?!-)", "++", "--->++")
        sub(r"\btrue\b", "false", "true->false"); sub(r"\bfalse\b", "true", "false->true")
        sub(r"\b0\b(?![.x])", "1", "0->1"); sub(r"(?<![.\w])1\b(?![.x])", "0", "1->0"); sub(r"\b2\b", "1", "2->1")
        sub(r" \+= ", " -= ", "+=->-="); sub(r" -= ", " += ", "-=->+="); sub(r" \|= ", " = ", "|=->="); sub(r" \|= ", " &= ", "|=->&="); sub(r" \*= ", " += ", "*=->+=")
        sub(r"\bbegin\(\)", "end()", "begin->end"); sub(r"\bend\(\)", "begin()", "end->begin")
        sub(r"\.front\(\)", ".back()", "front->back"); sub(r"\.back\(\)", ".front()", "back->front")
        sub(r"\bbreak;", ";", "drop break"); sub(r"\bcontinue;", ";", "drop continue")
        sub(r"\bpos\b", "neg", "pos->neg"); sub(r"\bneg\b", "pos", "neg->pos")
        sub(r"\bstd::move\((\w+)\)", r"\1", "drop move") if False else None
        m = re.match(r"^(\s*)((?:\} else )?if) \((.*)\)( \{| .*;)?$", code)
        if m:
            for v in ("true", "false"):
                out.append((i, m.group(1) + m.group(2) + " ((" + m.group(3) + ") " + ("|| true" if v == "true" else "&& false") + ")" + (m.group(4) or ""), "if " + v))
        m = re.match(r"^(\s*)while \((.*)\) \{$", code)
        if m: out.append((i, m.group(1) + "while ((" + m.group(2) + ") && false) {", "while false"))
        m = re.match(r"^(\s*)return (.*);$", code)
        if m and m.group(2) not in ("true", "false"):
            out.append((i, m.group(1) + "return !(" + m.group(2) + ");", "negate return"))
            out.append((i, m.group(1) + "return {};", "return {}"))
        m = re.match(r"^\s*(return .*|throw .*|break|continue|[\w.\->\[\]*()]+ (=|\+=|-=|\|=|\*=) .*|[\w.\->\[\]*:]+\(.*\)|\+\+\S+|--\S+|\S+\+\+|\S+--);$", code)
        if m and not t.startswith(("Pddl(", "const ", "static ", "~")):
            out.append((i, re.match(r"\s*", code).group(0) + ";", "delete statement"))
    seen = set(); r = []
    for i, new, what in out:
        if new == src[i] or (i, new) in seen: continue
        seen.add((i, new)); r.append((i, src[i], new, what))
    return src, r

def cc(src, obj, incs, extra):
    p = subprocess.run(["clang++"] + FLAGS + incs + extra + ["-c", src, "-o", obj], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p.returncode == 0

def inc_flags(spec, over=None):
    incs = [V + "/engine"] + [V + "/" + x for x in spec.get("includes", [])] + ([over + "/include"] if over else []) + [R + "/include"] + [R + "/" + x for x in spec.get("repo_includes", [])]
    return ["-I" + x for x in incs] + spec.get("flags", [])

def sources(spec):
    r = [(V + "/engine/driver.cc", [])]
    for s in spec["sources"]: r += [(p, []) for p in sorted(glob.glob(V + "/" + s))]
    for s in spec.get("repo_sources", []): r += [(p, ["-DDOCTEST_CONFIG_DISABLE"]) for p in sorted(glob.glob(R + "/" + s))]
    return r

def base(name):
    spec = BINARIES[name]
    objs = {}
    jobs = []
    h = hashlib.sha256()
    for d in (R + "/include", V + "/shim", V + "/engine", V + "/core"):
        for f in sorted(glob.glob(d + "/**/*.h", recursive=True)): h.update(open(f, "rb").read())
    for s, extra in sources(spec):
        key = hashlib.sha256(h.digest() + s.encode() + open(s, "rb").read()).hexdigest()[:20]
        o = M + "/base/" + key + ".o"
        objs[s] = o
        if not os.path.exists(o): jobs.append((s, o, extra))
    os.makedirs(M + "/base", exist_ok=True)
    with ThreadPoolExecutor(8) as ex: assert all(ex.map(lambda j: cc(j[0], j[1], inc_flags(spec), j[2]), jobs))
    return objs

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("--cases", type=int, default=1500); ap.add_argument("--first", default=""); ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--lines", default=""); ap.add_argument("--bin", default="core")
    a = ap.parse_args()
    path = R + "/" + a.file
    spec = BINARIES[a.bin]
    objs = base(a.bin)
    targets = []
    for s in spec["sources"]:
        for p in sorted(glob.glob(V + "/" + s)): targets += re.findall(r"PBT_TARGET\((\w+)", open(p).read())
    if a.only: targets = [t for t in targets if t in a.only.split(",")]
    first = [t for t in a.first.split(",") if t]
    targets.sort(key=lambda t: first.index(t) if t in first else 99)
    src, ms = mutants(path)
    if a.lines:
        lo, hi = map(int, a.lines.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    is_header = a.file.endswith(".h")
    print("%d mutants of %s, %d targets" % (len(ms), a.file, len(targets)), flush=True)
    lock = threading.Lock()
    count = {"build": 0, "same": 0, "killed": 0, "survived": 0, "timeout": 0}
    killers = {}

    def one(m):
        i, old, new, what = m
        w = tempfile.mkdtemp(dir=M)
        try:
            text = "\n".join(src[:i] + [new] + src[i + 1:])
            link = dict(objs)
            same = True
            if is_header:
                f = w + "/include/" + a.file[len("include/"):]
                os.makedirs(os.path.dirname(f)); open(f, "w").write(text)
                for s, extra in sorted(sources(spec), key=lambda x: x[0].startswith(V)):
                    o = w + "/" + hashlib.sha256(s.encode()).hexdigest()[:10] + ".o"
                    if not cc(s, o, inc_flags(spec, w), extra): return "build", m, ""
                    if open(o, "rb").read() != open(link[s], "rb").read(): same = False
                    link[s] = o
            else:
                f = w + "/" + os.path.basename(path); open(f, "w").write(text); o = w + "/m.o"
                if not cc(f, o, inc_flags(spec) + ["-I" + os.path.dirname(path)], ["-DDOCTEST_CONFIG_DISABLE"]): return "build", m, ""
                link[path] = o
                b = subprocess.run(["objdump", "-d", "--no-show-raw-insn", o], stdout=subprocess.PIPE).stdout.split(b"\n")[3:]
                c = subprocess.run(["objdump", "-d", "--no-show-raw-insn", objs[path]], stdout=subprocess.PIPE).stdout.split(b"\n")[3:]
                same = b == c
            if same: return "same", m, ""
            exe = w + "/t"
            if subprocess.run(["clang++"] + FLAGS + list(link.values()) + ["-o", exe], stderr=subprocess.DEVNULL).returncode: return "build", m, ""
            for f in glob.glob(w + "/*.o"): os.unlink(f)
            t0 = time.time()
            for t in targets:
                try:
                    rc = subprocess.run([exe, "--target", t, "--seed", "7", "--cases", str(a.cases), "--time-cap", "25", "--out", w + "/o", "--tmp", w, "--replay-out", w + "/r", "--jobs", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150).returncode
                except subprocess.TimeoutExpired: return "timeout", m, t
                if rc == 1: return "killed", m, t
                if rc: return "killed", m, t + " rc=%d" % rc
            return "survived", m, ""
        finally:
            subprocess.run(["rm", "-rf", w])

    with ThreadPoolExecutor(a.jobs) as ex:
        for st, m, t in ex.map(one, ms):
            count[st] += 1
            if st == "killed": killers[t] = killers.get(t, 0) + 1
            if st in ("survived", "timeout") or "rc=" in t: print("%s %d [%s] %s\n      %s   =>   %s" % (st, m[0] + 1, m[3], t, m[1].strip(), m[2].strip()), flush=True)
    print(count, killers)

main()
