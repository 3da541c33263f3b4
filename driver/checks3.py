"""Exhaustive exploration of sequences of calls (spec/TtpHist.tla)."""
import json

import run
import tmpl as T
from case import Case, tdef, flat
from checks import gen_part, rng
from checks2 import groups, texts
from tmpl import *

CFG = """SPECIFICATION Spec
VIEW View
INVARIANT InputsDistinct
INVARIANT RoutingKept
PROPERTY Kept
PROPERTY Order
PROPERTY Others
"""


def norm(v):
    """tagged values as TLC prints them and as the driver records them"""
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "l":
            return ("l", tuple(norm(y) for y in x))
        if k == "d":
            return ("d", tuple(sorted((a, norm(b)) for a, b in (x.items() if isinstance(x, dict) else ()))))
        return (k, str(x))
    return v


def menu_case(fn):
    """the calls made by fn, for the specification and for the code"""
    c = Case()
    fn(c)
    return c


class World:
    """first, menu and suffix share the definitions of one Case"""

    def __init__(self):
        self.c = Case(kind="all sequences of calls")
        self.menu = []
        self.first = self.suffix = None

    def take(self):
        s, i = self.c.ops, self.c.impl
        self.c.ops, self.c.impl = [], []
        return s, i

    def begin(self):
        self.first = self.take()

    def item(self):
        self.menu.append(self.take())

    def end(self):
        self.suffix = self.take()

    def json(self, depth):
        return {"defs": T.clean(self.c.defs), "first": T.clean(self.first[0]), "suffix": T.clean(self.suffix[0]),
                "menu": [T.clean(m[0]) for m in self.menu], "depth": depth}

    def case(self, h, show):
        c = Case(kind=self.c.meta["kind"])
        c.texts = self.c.texts
        c.defs = self.c.defs
        r = ({"op": "result", "obj": "p", "structure": "list", "templates": [], "out": [], "bag": False}, {"op": "result", "obj": "p", "kw": {}})
        parts = [self.first]
        for k in h:
            parts.append(self.menu[k - 1])
            if show:
                parts.append(([r[0]], [r[1]]))
        parts.append(self.suffix)
        for a, b in parts:
            c.ops += a
            c.impl += b
        return c


def expected(wd, x, show):
    out = [None] * len(wd.first[0])
    for a in x["ans"]:
        out += a["out"]
        if show:
            out.append(a["res"])
    return out + x["end"]


def explore(w, wd, depth, pick, name):
    """TLC explores the world; pick(histories) says which the code is to follow"""
    f = w.path("world_%s.json" % name)
    with open(f, "w") as fh:
        json.dump(wd.json(depth), fh)
    txt, gen, dist, rc = run.tlc(w, "TtpHist.tla", CFG, env={"TTP_WORLD": f}, tagname=name, timeout=1500)
    if "No error has been found" not in txt:
        raise run.Broken("the specification breaks its own properties, or TLC failed\n" + txt[-5000:])
    hs = run.printed(txt, "HIST")
    todo = pick(hs)
    jobs, exps, cs = [], [], []
    for n, x in enumerate(todo):
        show = n % 2 == 1
        c = wd.case(x["h"], show)
        cs.append(c)
        exps.append(expected(wd, x, show))
        jobs.append(c.impl_json(n))
    obs = run.run_impl(w, jobs, tagname=name)
    bad = []
    for n, c in enumerate(cs):
        o, e = obs[n], exps[n]
        if len(o) != len(e):
            bad.append((c, len(o), o[-1], None))
            continue
        for k in range(len(e)):
            if e[k] is not None and norm(o[k]) != norm(e[k]):
                bad.append((c, k + 1, o[k], e[k]))
                break
    cov = {}
    for x in todo:
        for k in x["h"]:
            for op in wd.menu[k - 1][0]:
                cov[op["op"]] = cov.get(op["op"], 0) + 1
    return {"bad": bad, "states": dist, "transitions": gen, "n": len(cs), "cov": cov, "samples": [],
            "extra": {"histories_generated": len(hs)}}


# =============================================================== C14 life of an object
def world_a(g):
    """two templates, texts for either, variables and lookups"""
    wd = World()
    c = wd.c
    ta = tdef([group("ga*", [line(lit("a "), var("x"), setv("sv", "vv")), line(lit(" b "), var("y"))]),
               group("gv", [line(lit("v "), var("z", [], [call("lookup", "tab", kw={"add_field": "found"})]))], input=g.choice(["", "in1"]))],
              vars=[({"vv": "own"}, g.choice(["", "vs"]))])
    tb = tdef([group("gb.{{ x }}*", [line(lit("a "), var("x")), line(lit(" b "), var("y", [], [call("to_int")]))])],
              inputs=[{"name": "in1", "groups": ["all"], "data": ["a own\n b 1"]}], method=g.choice(["per_input", "per_template"]), name="tb")
    x1, x2, x3 = "a 1\n b 2\na 2\nv k1", "a 3\nv k2\n b 4", "a 1\n b 5"
    c.new(vars={"vv": "base"}).add_template(ta, name="ta")
    wd.begin()
    for f in (lambda: c.add_template(tb, name="other"), lambda: c.add_input(x1, template="_all_"), lambda: c.add_input(x2, name="in1", template="ta"),
              lambda: c.add_input(x3, template="tb", groups=["gb.{{ x }}*"]), lambda: c.set_input(x2, template=g.choice(["_all_", "ta"])), lambda: c.clear_input(),
              lambda: c.clear_input("tb"), lambda: c.add_vars({"vv": "added"}), lambda: c.add_lookup("tab", {"k1": "one", "k2": {"k": "two"}}),
              lambda: c.parse(one=g.choice([True, False])), lambda: c.clear_result(), lambda: c.clear_result("tb"), lambda: c.add_template(ta, name=g.choice(["ta", "tc"]))):
        f()
        wd.item()
    c.result("dictionary").result("flat_list").get_input_load().parse(one=True).result("list").clear_result("ta").result("dictionary")
    wd.end()
    return wd


def world_b(g):
    """inputs of groups, files that come and go, recorded values, one template"""
    wd = World()
    c = wd.c
    t = tdef([group("ga*", [line(lit("a "), var("x", [], [call("record", "seen")]))], input=g.choice(["", "in1"])),
              group("gb*", [line(lit("b "), var("y", [], [call("count", kw={"globvar": "cnt"})]))], fns=[call("set", "seen", "last", "none")]),
              group("gc", [line(lit("c "), var("z", dflt="no"))], input=g.choice(["", "in1", "in2"]))],
             vars=[({"host": "gethostname", "fn": "getfilename"}, "vs")], inputs=[{"name": "in1", "groups": g.choice([["all"], ["gb*"]]), "data": ["b tag\na tag"]}] if g.p(.6) else [])
    c.new(toint=g.p(.5)).add_template(t)
    wd.begin()
    for f in (lambda: c.write_file("f.txt", "sw1#show\na f1\nb f2"), lambda: c.write_file("f.txt", "c f3"), lambda: c.add_input("f.txt"), lambda: c.add_input("f.txt", name="in1"),
              lambda: c.add_input("a 1\nb 2", name="in1"), lambda: c.add_input("a 1\nb 2", groups=["gb*"]), lambda: c.set_input("rt1#x\nb 3", name="in2"),
              lambda: c.set_input("c 4\na 5", groups=["ga*", "gc"]), lambda: c.clear_input(), lambda: c.parse(one=True), lambda: c.clear_result(), lambda: c.parse().clear_input()):
        f()
        wd.item()
    c.get_input_load().parse(one=True).result("list").result("flat_list")
    wd.end()
    return wd


def world_c(g):
    """outputs, texts that fail, functions added"""
    wd = World()
    c = wd.c
    t = tdef([group("ga*", [line(lit("a "), var("x")), line(lit(" b "), var("y", [], [call("to_int")]))]),
              group("gr", [line(lit("r "), var("r", [], [call("contains", "7"), call("raise", "no")]))])],
             outputs=[output(fns=[call("macro", "o_wrap")])] if g.p(.5) else [output("o1", fmt="csv", path=["ga"], sorted=["x", "y"], order=["x", "y"])] if g.p(.5) else [], macros=["o_wrap"])
    t2 = tdef([group("gz", [line(lit("a "), var("q", [], [call("cfm")]))])])
    c.new().add_template(t, name="t1")
    c.func("match", "cfm", "cf_up")
    wd.begin()
    for f in (lambda: c.add_template(t2), lambda: c.add_input("a 1\n b 2\na 3", template="_all_"), lambda: c.add_input("r 8\na 9", template="t1"),
              lambda: c.add_input("r 7\na 9", template="t1"), lambda: c.set_input("a 5", template="t1"), lambda: c.clear_input("t1"), lambda: c.clear_result().parse(one=True), lambda: c.clear_result().parse(),
              lambda: c.clear_result("t1"), lambda: c.func("match", "cfm", "cf_sfx"), lambda: c.func("output", "cfo", "co_wrap")):
        f()
        wd.item()
    c.result("dictionary").clear_result().parse(one=True).result("list")
    wd.end()
    return wd


def c14(w, seed, tier, round_):
    acc = None
    g = rng(seed, "c14", 0)
    for n, make in enumerate((world_a, world_b, world_c)):
        depth = 5 if tier == "thorough" and not round_ else 4
        limit = 1500 if tier != "thorough" else 20000

        def pick(hs):
            return hs if len(hs) <= limit else g.sample(hs, limit)
        r = explore(w, make(g), depth, pick, "c14_%d" % n)
        if acc is None:
            acc = r
        else:
            acc["bad"] += r["bad"]
            for k in ("states", "transitions", "n"):
                acc[k] += r[k]
            for k, v in r["cov"].items():
                acc["cov"][k] = acc["cov"].get(k, 0) + v
            acc["extra"]["histories_generated"] += r["extra"]["histories_generated"]
    return acc


def c14b(seed, n, tier):
    """long walks over the same menus"""
    for k in range(n):
        g = rng(seed, "c14b", k)
        wd = g.choice([world_a, world_b, world_c])(g)
        yield wd.case([g.randint(1, len(wd.menu)) for _ in range(g.randint(6, 14))], g.p(.7))


PROPS = {
    "C14": {"parts": [c14, gen_part(c14b, 100)], "cover": ["parse", "clear_result", "set_input", "clear_input", "add_vars", "add_lookup", "write_file"]},
}
