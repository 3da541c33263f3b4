"""Every text up to a length over small alphabets (spec/TtpSmall.tla)."""
import json

import run
import tmpl as T
from case import Case, tdef
from checks import SUBS, VALS, match_calls, match_chain, rng
from checks3 import norm
from tmpl import *

CFG = """SPECIFICATION Spec
VIEW View
ALIAS Shown
INVARIANT AsDeclared
"""
V = var
MORE = ["X", "Gi", "Gi1/0/1", "a,b,,c", ",", "-", "5-", "-5-7", "3-1", "1-3,5,7-8", "1,2", "+5", "1.", ".5", "00", "10.0", "up up", "a up b", "1 2 3 4", "7", "zz", "Gi0/1,Gi0/2", "b", "i", "A", "0/1"]


def world(groups, alphabet, plain=True, prefix=(), depth=None, **kw):
    """alphabet: the lines texts are made of, after those of prefix"""
    return {"t": tdef(groups, **kw), "alphabet": alphabet, "plain": plain, "prefix": list(prefix), "depth": depth}


def text_of(x, q):
    return "\n".join(x["prefix"] + [x["alphabet"][k - 1] for k in q])


def keyed(word, n, name, path, ind=0, fns=(), dflt=None, d2=None, kids=(), more=(), tail=(), **kw):
    """a group with one opening and one further line"""
    return group(path, [line(lit(" " * ind + word + " "), V(name, [], list(fns), dflt=dflt)),
                        line(lit(" " * (ind + 1) + n + " "), V(n, dflt=d2))] + list(more), kids=[(k, list(tail)) for k in kids], **kw)


def worlds_c02():
    b = lambda *k: keyed("b", "n", "y", "b*", 1, kids=k)
    c = keyed("c", "o", "z", "c*", 1)
    d = keyed("d", "p", "u", "d*", 2)
    yield world([keyed("a", "m", "x", "a*"), keyed("t", "s", "x", "t*")], ["a 1", " m 2", " m 3", "t 4", " s 5", "z"])
    yield world([keyed("a", "m", "x", "a*", kids=[b()], tail=[line(lit(" r "), V("r"))])], ["a 1", " m 2", " b 3", "  n 5", " r 6"])
    yield world([keyed("a", "m", "x", "a*", kids=[b(), c])], ["a 1", " m 2", " b 3", "  n 4", " c 5", "  o 6"])
    yield world([keyed("a", "m", "x", "a*", kids=[b(d)])], ["a 1", " b 2", "  n 3", "  d 4", "   p 5", " m 6"])


def worlds_c03():
    b = lambda path: keyed("b", "n", "y", path, 1)
    for pa, pb in (("a", "b"), ("a", "b*"), ("a*", "b"), ("a**", "b*"), ("p.a*", "b"), ("p*.a", "b*"), ("a*", None), ("a", "/b*"), ("a", "_"), ("a*", "_"), ("p.q", "/p.q*"), ("a**", "b**")):
        yield world([keyed("a", "m", "x", pa, kids=[b(pb)])], ["a 1", " m 2", " b 3", "  n 4"], plain=False)
    for pa, pt in (("a", "a"), ("a*", "a"), ("a", "a*"), ("p.a", "p.b*"), ("p.a", "p"), ("p*.a", "p*.b")):
        yield world([keyed("a", "m", "x", pa), keyed("t", "s", "y", pt)], ["a 1", " m 2", "t 3", " s 4"], plain=False)


def worlds_c04():
    for pa in ("a.{{ x }}", "a.{{ x }}*", "a.{{ m }}", "{{ x }}.a*", "a*.{{ x }}"):
        yield world([keyed("a", "m", "x", pa)], ["a 1", "a 2", " m 1", " m 3"], plain=False)
    for pa, pb in (("a.{{ x }}", "{{ y }}"), ("a.{{ x }}", "b.{{ y }}*"), ("a*", "{{ y }}"), ("a.{{ x }}", "b*"), ("a.{{ m }}", "b*"), ("a.{{ x }}", "{{ n }}")):
        yield world([keyed("a", "m", "x", pa, kids=[keyed("b", "n", "y", pb, 1)])], ["a 1", "a 2", " m 3", " b 1", " b 2", "  n 3"], plain=False)


def worlds_c07():
    stop = lambda ind, w="!": line(lit(" " * ind + w), end())
    b = lambda *more: keyed("b", "n", "y", "b*", 1, more=more)
    yield world([keyed("a", "m", "x", "a*", more=[stop(0)])], ["a 1", " m 2", "!", " m 3"])
    yield world([keyed("a", "m", "x", "a*", more=[stop(0)], kids=[b()])], ["a 1", " m 2", " b 3", "  n 4", "!"])
    yield world([keyed("a", "m", "x", "a*", kids=[b(stop(1))])], ["a 1", " m 2", " b 3", "  n 4", " !"])
    yield world([keyed("a", "m", "x", "a*", more=[stop(0)], kids=[b(stop(1))])], ["a 1", " m 2", " b 3", "  n 4", " !", "!"])
    yield world([keyed("a", "m", "x", "a*", more=[line(lit(" e "), V("e", end=True))]), keyed("t", "s", "y", "t*", more=[stop(0)])], ["a 1", " m 2", " e 3", "t 4", " s 5", "!"], plain=False)
    yield world([keyed("a", "m", "x", "a*", fns=[call("contains", "1")], more=[stop(0)], kids=[b()])], ["a 1", "a 2", " m 2", " b 3", "  n 4", "!"], plain=False)
    yield world([keyed("a", "m", "x", "a*", kids=[keyed("b", "n", "y", "b*", 1, fns=[call("contains", "3")], more=[stop(1)])])], ["a 1", " m 2", " b 3", " b 4", "  n 4", " !"], plain=False)


def worlds_c08():
    b = lambda dflt, d2: keyed("b", "n", "y", "b*", 1, dflt=dflt, d2=d2)
    yield world([keyed("a", "m", "x", "a*", d2="no"), keyed("t", "s", "x", "t*")], ["a 1", " m 2", "t 4", " s 5", "z"])
    yield world([keyed("a", "m", "x", "a*", d2="none", kids=[b(None, "nb")])], ["a 1", " m 2", " b 3", "  n 4"])
    for da, d2, db, dn in (("dx", "dm", None, None), ("dx", None, "dy", None), (None, "dm", "dy", "dn"), ("dx", "dm", "dy", "dn")):
        yield world([keyed("a", "m", "x", "a*", dflt=da, d2=d2, kids=[b(db, dn)])], ["a 1", " m 2", " b 3", "  n 4"], plain=False)
    yield world([keyed("a", "m", "x", "a.{{ x }}", d2="dm", kids=[b("dy", "dn")]), keyed("t", "s", "y", "t", dflt="dt")], ["a 1", "a 2", " m 2", " b 3", "t 4"], plain=False)
    yield world([keyed("a", "m", "x", "a*", default="all", kids=[b(None, None)])], ["a 1", " m 2", " b 3", "  n 4"], plain=False)
    yield world([keyed("a", "m", "x", "a*", kids=[keyed("b", "n", "y", "b", 1, dflt="dy", kids=[keyed("c", "o", "z", "c", 2, dflt="dz")])])], ["a 1", " m 2", " b 3", "  c 4"], plain=False)


def worlds_c09():
    for f in ([call("joinmatches")], [call("joinmatches", ",")], [call("to_list"), call("joinmatches")], [call("upper"), call("joinmatches", " ")]):
        yield world([group("a*", [line(lit("a "), V("x")), line(lit(" m "), V("m", [], f)), line(lit(" k "), V("k"))])], ["a 1", " m 2", " m b", " k 4", "z"], plain=False)
    yield world([group("a*", [line(lit("a "), V("x")), line(V("l", [], [call("joinmatches")], line=True))])], ["a 1", "m 2", " k 4", "!"], plain=False)
    yield world([group("a*", [line(lit("a "), V("x")), line(V("l", [], [call("contains", "m")], line=True)), line(lit("!"), end())])], ["a 1", "m 2", " k 4", "!"], plain=False)
    yield world([keyed("a", "m", "x", "a*", kids=[group("b*", [line(lit(" b "), V("y")), line(lit("  n "), V("n", [], [call("joinmatches")]))])],
                       more=[line(lit(" k "), V("k", [], [call("joinmatches", "+")]))])], ["a 1", " b 2", "  n 4", " k 5", " k 6"], plain=False)


def worlds_c10():
    def pair(la, lt, kids=(), **kw):
        return [group("a*", la, kids=[(k, []) for k in kids], **kw), group("t*", lt)]
    x = ["i 1", "i 2 3", " m 4", " m up", "z"]
    yield world(pair([line(lit("i "), V("x")), line(lit(" m "), V("m"))], [line(lit("i "), V("y"), lit(" "), V("z")), line(lit(" m "), V("n"))]), x, plain=False)
    yield world(pair([line(lit("i "), V("x")), line(lit(" m "), V("m"))], [line(lit("i "), V("y")), line(lit(" m up"), setv("u", True))]), x, plain=False)
    yield world([group("a*", [line(lit("i "), V("x")), line(lit("i "), V("x", start=True), lit(" "), V("w")), line(lit(" m "), V("m"))])], x, plain=False)
    yield world([group("a*", [line(lit("i "), V("x")), line(lit(" m "), V("m"))], kids=[(group("b*", [line(lit(" m "), V("y")), line(lit("i "), V("r"), lit(" "), V("s"))]), [])])], x, plain=False)
    yield world([group("a*", [line(lit("i "), V("x"))], kids=[(group("b*", [line(lit(" m "), V("y", [pat("DIGIT")]))]), []), (group("c*", [line(lit(" m "), V("z"))]), [])])], x, plain=False)
    yield world([group("a*", [line(lit("i "), V("x")), line(lit(" m "), V("m")), line(V("l", line=True))])], x, plain=False)
    yield world([group("a*", [line(lit("i "), V("x"), lit(" "), V("y")), line(lit("i "), V("x")), line(lit(" m "), V("y"))], method="table")], x, plain=False)
    yield world([group("a*", [line(lit("i "), V("x"))], kids=[(group("b*", [line(lit(" m "), V("y")), line(lit("z"), end())]), []), (group("c*", [line(lit(" m up"), start()), line(lit("i "), V("q"), lit(" "), V("r"))]), [])])], x, plain=False)


def worlds_c05(seed="1"):
    """each function on each value, on the first line of a record and on a further one"""
    macros = ["m_up", "m_none", "m_true", "m_false", "m_odd", "m_len", "m_tup", "m_list", "m_dict", "m_empty", "m_zero"]
    tvars = {"tv1": "Gi", "tv2": "up"}
    for f in sorted(match_calls(rng(0, "", 0), {})):
        g = rng(seed, "c05w", f)
        ch1, _ = match_chain(g, tvars, 1, only=[f])
        ch2, _ = match_chain(g, tvars, 2, only=[f])
        gr = group("g*", [line(lit("k "), V("v", [pat("PHRASE"), pat("WORD")], ch1)), line(lit(" m "), V("w", [pat("ORPHRASE")], ch2))])
        yield world([gr], ["%s %s" % (k, x) for k in ("k", " m") for x in sorted(set(VALS + MORE))], plain=False, prefix=["k v9"], depth=1, vars=[(tvars, ""), (SUBS, "")], macros=macros)


def worlds_c11():
    """every row of blanks and text"""
    rows = [""]
    for _ in range(8):
        rows = rows + [r + x for r in rows if len(r) == len(rows[-1]) for x in "x "]
    rows = [r for r in rows if r.strip()]
    for txt, n in (("A  B   C", 0), ("A  B   C ", 3), ("A B C", 2), ("  A  B ", 0), ("  Ab  C  ", 1), ("A     C", 5)):
        yield world([group("h*", [line(hdr(txt, n))])], rows, plain=False, prefix=[txt], depth=1)


WORLDS = {"C02": worlds_c02, "C03": worlds_c03, "C04": worlds_c04, "C07": worlds_c07, "C08": worlds_c08, "C09": worlds_c09, "C10": worlds_c10, "C05": worlds_c05, "C11": worlds_c11}


def part(prop):
    def go(w, seed, tier, round_):
        if round_ and prop != "C05":
            return []
        ws = list(WORLDS[prop](seed) if prop == "C05" else WORLDS[prop]())
        depth = 6 if tier == "thorough" else 4
        cases, js = [], []
        for x in ws:
            c = Case(kind="every text up to %d lines" % depth)
            c.new().add_template(x["t"])
            cases.append(c)
            js.append({"defs": T.clean(c.defs), "first": T.clean(c.ops), "alphabet": x["alphabet"], "depth": x["depth"] or depth, "plain": x["plain"], "prefix": x["prefix"],
                       "maxl": 8})
        f = w.path("small_%s.json" % prop)
        with open(f, "w") as fh:
            json.dump(js, fh)
        txt, gen, dist, rc = run.tlc(w, "TtpSmall.tla", CFG, env={"TTP_WORLD": f}, tagname="small_" + prop, timeout=1500)
        if "No error has been found" not in txt:
            raise run.Broken("the specification breaks its own properties, or TLC failed\n" + "\n".join(x for x in txt.splitlines() if not x.startswith(chr(34) + "TEXT"))[-6000:])
        by = {}
        for x in run.printed(txt, "TEXT"):
            by.setdefault(x["w"], []).append(x)
        jobs, want = [], {}
        per = 100

        def session(n, xs):
            c = Case(kind="every text up to %d lines" % depth)
            c.new().add_template(ws[n]["t"])
            for x in xs:
                c.add_input(text_of(ws[n], x["q"])).parse(one=True).result().clear_result().clear_input()
            return c
        for n in range(len(ws)):
            xs = by[n + 1]
            for k in range(0, len(xs), per):
                i = len(jobs)
                jobs.append(session(n, xs[k:k + per]).impl_json(i))
                want[i] = (n, xs[k:k + per])
        obs = run.run_impl(w, jobs, tagname="small_" + prop)
        bad, texts = [], 0
        for i, (n, xs) in want.items():
            o = obs[i]
            for k, x in enumerate(xs):
                got = o[2 + 5 * k + 2] if len(o) > 2 + 5 * k + 2 else {"x": "died"}
                texts += 1
                if norm(got) != norm(x["a"]):
                    bad.append((session(n, [x]), 5, got, x["a"]))
        return {"bad": bad[:20], "states": dist, "transitions": gen, "n": len(jobs), "cov": {"Grow": texts}, "samples": [],
                "extra": {"texts_exhausted": texts}}
    return go
