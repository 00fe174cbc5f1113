"""C28: the Python problem builder (symbolic/problem.py).

Builder call histories are generated with Hypothesis and replayed against an
independent model; the written text is read back with an S-expression reader
and compared with the model.  Run with python3-vt.
"""
import argparse
import importlib.util
import json
import os
import sys
import time

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

SCRIPT = "pyprop/C28_problem.py"


def load(repo):
    path = os.path.join(repo, "symbolic", "problem.py")
    sys.dont_write_bytecode = True
    spec = importlib.util.spec_from_file_location("problem_under_test", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


# ---------------------------------------------------------------- reader

def read_sexprs(text):
    """All S-expressions of a text; raises ValueError on unbalanced text."""
    toks, cur = [], ""
    for c in text:
        if c in "()":
            if cur:
                toks.append(cur)
            cur = ""
            toks.append(c)
        elif c.isspace():
            if cur:
                toks.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        toks.append(cur)
    stack = [[]]
    for t in toks:
        if t == "(":
            stack.append([])
        elif t == ")":
            if len(stack) == 1:
                raise ValueError("unbalanced )")
            e = stack.pop()
            stack[-1].append(e)
        else:
            stack[-1].append(t)
    if len(stack) != 1:
        raise ValueError("unbalanced (")
    return stack[0]


def read_typed(tokens):
    """A PDDL typed list: (name, type or None) pairs."""
    out, pending, i = [], [], 0
    while i < len(tokens):
        if tokens[i] == "-":
            for n in pending:
                out.append((n, tokens[i + 1]))
            pending = []
            i += 2
        else:
            pending.append(tokens[i])
            i += 1
    out += [(n, None) for n in pending]
    return out


# ---------------------------------------------------------------- cases (plain JSON)

NAME = st.one_of(st.sampled_from(["a", "b", "box", "table", "hook", "on", "x1", "and", "a-b", "obj_2", "Q"]),
                 st.text("abcxyzAB019_-", min_size=1, max_size=6).filter(lambda s: s[0] not in "-0123456789"))
PRED = st.one_of(st.sampled_from(["on", "clear", "at", "inhand", "under-x", "p"]), NAME)
TYPE = st.one_of(st.just(""), st.sampled_from(["block", "object", "room", "t1"]), NAME)
VAR = st.sampled_from(["x", "y", "z", "obj", "x1"])
ARG = st.one_of(NAME, VAR.map(lambda v: "?" + v))
SPACES = st.integers(0, 3)


@st.composite
def call(draw, ground=True):
    """A proposition and the way it is written."""
    name = draw(PRED)
    args = draw(st.lists(NAME if ground else ARG, max_size=4))
    style = draw(st.sampled_from(["pddl", "call", "P"]))
    spaces = draw(st.lists(SPACES, min_size=2 * len(args) + 1, max_size=2 * len(args) + 1))
    return {"name": name, "args": args, "style": style, "spaces": spaces}


def goal_strategy():
    leaf = st.builds(lambda c: {"op": "atom", "call": c}, call(ground=False))
    def extend(g):
        return st.one_of(
            st.builds(lambda gs, o: {"op": o, "sub": gs}, st.lists(g, max_size=4), st.sampled_from(["and", "or"])),
            st.builds(lambda x: {"op": "not", "sub": [x]}, g),
            st.builds(lambda v, t, x, o: {"op": o, "var": v, "type": t, "sub": [x]}, VAR, TYPE, g, st.sampled_from(["forall", "exists"])),
            st.builds(lambda a, b: {"op": "when", "sub": [a, b]}, g, g),
        )
    return st.recursive(leaf, extend, max_leaves=12)


OP = st.one_of(
    st.builds(lambda n, t: {"do": "object", "name": n, "type": t}, NAME, TYPE),
    st.builds(lambda n: {"do": "object1", "name": n}, NAME),
    st.builds(lambda c: {"do": "init", "call": c}, call()),
    st.builds(lambda g: {"do": "goal", "goal": g}, goal_strategy()),
    st.just({"do": "print"}),
)
PROBLEM = st.fixed_dictionaries({
    "name": NAME, "domain": st.one_of(st.none(), NAME),
    "set_init": st.one_of(st.none(), st.lists(call(), max_size=6)),
    "ops": st.one_of(st.lists(OP, max_size=4), st.lists(OP, min_size=5, max_size=20))})
CASE = st.fixed_dictionaries({"problems": st.lists(PROBLEM, min_size=1, max_size=2), "parse": call()})


# ---------------------------------------------------------------- the check

class Bad(Exception):
    pass


def want(cond, *what):
    if not cond:
        raise Bad(" ".join(str(w) for w in what))


def text_call(c):
    """name(a, b) with the drawn spacing around the arguments."""
    s = c["spaces"]
    if not c["args"]:
        return "%s(%s)" % (c["name"], " " * s[0])
    parts = [" " * s[2 * i] + a + " " * s[2 * i + 1] for i, a in enumerate(c["args"])]
    return "%s(%s)" % (c["name"], ",".join(parts))


def text_pddl(c):
    return "(" + " ".join([c["name"]] + c["args"]) + ")"


def written(m, c, in_goal=False):
    if c["style"] == "P":
        return m._P(c["name"], *c["args"])
    if c["style"] == "call" and not in_goal:
        return text_call(c)
    return text_pddl(c)


def build_goal(m, g):
    o = g["op"]
    if o == "atom":
        return written(m, g["call"], True)
    sub = [build_goal(m, x) for x in g["sub"]]
    if o == "and":
        return m._and(*sub)
    if o == "or":
        return m._or(*sub)
    if o == "not":
        return m._not(sub[0])
    if o == "when":
        return m._when(*sub)
    return (m._forall if o == "forall" else m._exists)(g["var"], g["type"], sub[0])


def model_goal(g):
    o = g["op"]
    if o == "atom":
        return [g["call"]["name"]] + g["call"]["args"]
    sub = [model_goal(x) for x in g["sub"]]
    if o in ("forall", "exists"):
        var = ["?" + g["var"]] + (["-", g["type"]] if g["type"] else [])
        return [o, var] + sub
    return [o] + sub


class Model:
    def __init__(self, p):
        self.name, self.domain = p["name"], p["domain"] or ""
        self.objects, self.init, self.init_set, self.goal = [], [], [], ["and"]


def compare(text, mod):
    es = read_sexprs(text)
    want(len(es) == 1, "more than one expression:", text)
    e = es[0]
    want(e and e[0] == "define", "no define:", text)
    want(len(e) >= 2 and e[1] == ["problem", mod.name], "problem name:", e[1:2])
    sections = {}
    for s in e[2:]:
        want(isinstance(s, list) and s and isinstance(s[0], str) and s[0].startswith(":"), "section:", s)
        want(s[0] not in sections, "section twice:", s)
        sections[s[0]] = s[1:]
    want(set(sections) == {":domain", ":objects", ":init", ":goal"}, "sections:", sorted(sections))
    want(sections[":domain"] == ([mod.domain] if mod.domain else []), "domain:", sections[":domain"])
    want(all(isinstance(t, str) for t in sections[":objects"]), "objects:", sections[":objects"])
    got = [(n, t or "object") for n, t in read_typed(sections[":objects"])]
    want(got == [(n, t or "object") for n, t in mod.objects], "objects:", got, "instead of", mod.objects)
    if not any(t for _, t in mod.objects):
        want("-" not in sections[":objects"], "types in an untyped problem")
    init = sections[":init"]
    k = len(mod.init_set)
    want(sorted(init[:k]) == sorted(mod.init_set) and init[k:] == mod.init, "init:", init, "instead of", mod.init_set, mod.init)
    want(sections[":goal"] == [mod.goal], "goal:", sections[":goal"], "instead of", mod.goal)


def unique(calls):
    seen, out = set(), []
    for c in calls:
        k = (c["name"], tuple(c["args"]))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def run_case(m, case):
    live = []
    for p in case["problems"]:
        prob = m.Problem(p["name"], p["domain"]) if p["domain"] is not None else m.Problem(p["name"])
        mod = Model(p)
        if p["set_init"] is not None:
            cs = unique(p["set_init"])
            prob.set_initial_state({written(m, c) for c in cs})
            mod.init_set = [[c["name"]] + c["args"] for c in cs]
        live.append((prob, mod, p["ops"]))
    # The histories of the problems are interleaved.
    for i in range(max(len(l[2]) for l in live)):
        for prob, mod, ops in live:
            if i >= len(ops):
                continue
            o = ops[i]
            if o["do"] == "object":
                prob.add_object(o["name"], o["type"])
                mod.objects.append((o["name"], o["type"]))
            elif o["do"] == "object1":
                prob.add_object(o["name"])
                mod.objects.append((o["name"], ""))
            elif o["do"] == "init":
                prob.add_initial_prop(written(m, o["call"]))
                mod.init.append([o["call"]["name"]] + o["call"]["args"])
            elif o["do"] == "goal":
                prob.set_goal(build_goal(m, o["goal"]))
                mod.goal = model_goal(o["goal"])
            else:
                compare(repr(prob), mod)
    for prob, mod, _ in live:
        text = repr(prob)
        compare(text, mod)
        want(repr(prob) == text and str(prob) == text, "printing twice differs")
        want(read_sexprs(prob.problem) == [["problem", mod.name]], "problem:", prob.problem)
        want(read_sexprs(prob.domain) == [[":domain"] + ([mod.domain] if mod.domain else [])], "domain:", prob.domain)
        for part, key in ((prob.objects, ":objects"), (prob.initial_state, ":init"), (prob.goal, ":goal")):
            es = read_sexprs(m.pprint_formula(part))
            want(len(es) == 1 and es[0][0] == key, key, es)
        want(read_sexprs(m.pprint_formula(prob.definition)) == read_sexprs(text), "definition")

    c = case["parse"]
    for t in (text_call(c), "%s(%s)" % (c["name"], ", ".join(c["args"])), "%s(%s)" % (c["name"], ",".join(c["args"]))):
        head, args = m.parse_proposition(t)
        want(head == c["name"] and list(args) == c["args"], "parse_proposition", repr(t), "gives", head, args)
        want(m.parse_head(t) == c["name"], "parse_head", repr(t), "gives", m.parse_head(t))
        want(list(m.parse_args(t)) == c["args"], "parse_args", repr(t), "gives", m.parse_args(t))
    for f in (m.parse_proposition, m.parse_head, m.parse_args):
        try:
            f(c["name"])
        except ValueError:
            continue
        raise Bad("%s accepts a text without parentheses: %r" % (f.__name__, c["name"]))
    want(read_sexprs(m._P(c["name"], *c["args"])) == [[c["name"]] + c["args"]], "_P")


# ---------------------------------------------------------------- driver

def labels_of(case):
    out = set()
    for p in case["problems"]:
        for o in p["ops"]:
            out.add("op " + o["do"])
            if o["do"] == "goal":
                stack = [o["goal"]]
                while stack:
                    g = stack.pop()
                    out.add("goal " + g["op"])
                    stack += g.get("sub", [])
            if o["do"] == "init" and not o["call"]["args"]:
                out.add("nullary initial proposition")
        if p["set_init"]:
            out.add("set_initial_state")
        types = [o.get("type", "") for o in p["ops"] if o["do"].startswith("object")]
        if any(types) and not all(types):
            out.add("typed and untyped objects")
    return out


def nontrivial(case):
    return any(any(o["do"] == "goal" and o["goal"]["op"] != "atom" for o in p["ops"]) and any(o["do"] in ("init", "object") for o in p["ops"]) for p in case["problems"]) \
        or len(case["parse"]["args"]) >= 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=1000)
    ap.add_argument("--cap", type=float, default=100)
    ap.add_argument("--out")
    ap.add_argument("--replay-out")
    ap.add_argument("--replay")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()

    if a.replay:
        text = open(a.replay).read()
        case = json.loads(text.split("\n")[1])
        try:
            run_case(load(a.repo), case)
        except Exception as e:  # noqa: BLE001
            print("FAILED:", type(e).__name__, e)
            return 1
        print("passed")
        return 0

    t0 = time.time()
    r = dict(target="C28_problem_builder", planned=a.cases, evaluations=0, discarded=0, distinct_nontrivial=0, labels={}, samples=[], rc=0, message="",
             rule="some goal is composed and something else was added, or a parsed proposition has two or more arguments")
    last = {}
    seen = set()
    try:
        m = load(a.repo)
    except Exception as e:  # noqa: BLE001
        r.update(rc=1, message="symbolic/problem.py cannot be imported: %s: %s" % (type(e).__name__, e))
        m = None
    chunk, k = 500, 0
    while m is not None and r["rc"] == 0 and r["evaluations"] < a.cases and time.time() - t0 < a.cap:
        @seed(a.seed * 100003 + k)
        @settings(max_examples=min(chunk, a.cases - r["evaluations"]), database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)
        @given(CASE)
        def prop(case):
            if not last:
                r["evaluations"] += 1
                key = json.dumps(case, sort_keys=True)
                for l in labels_of(case):
                    r["labels"][l] = r["labels"].get(l, 0) + 1
                if nontrivial(case) and key not in seen:
                    seen.add(key)
                    if len(r["samples"]) < 4 and len(key) > 300:
                        r["samples"].append(key[:700])
            try:
                run_case(m, case)
            except Exception as e:  # noqa: BLE001
                last.update(case=case, message="%s: %s" % (type(e).__name__, e))
                raise
        try:
            prop()
        except Exception as e:  # noqa: BLE001
            if not last:
                raise
            r.update(rc=1, message=last["message"])
        k += 1
    r["distinct_nontrivial"] = len(seen)
    r["wall_s"] = round(time.time() - t0, 2)
    if r["rc"] and a.replay_out:
        with open(a.replay_out, "w") as f:
            f.write("script %s\n%s\n--- message\n%s\n" % (SCRIPT, json.dumps(last.get("case")), r["message"]))
    if a.out:
        json.dump(r, open(a.out, "w"))
    else:
        print(json.dumps(r, indent=1)[:3000])
    return r["rc"]


if __name__ == "__main__":
    sys.exit(main())
