"""What inputs' functions make of texts, and smaller parts of functions and calls."""
from case import Case, tdef
from checks import gen_part, rng
from checks2 import ONAMES, c19_groups, c19_table, c19_text
from checks7 import jinja
from tmpl import *

CMDS = ["show run", "show ver", "show run int", "show", "dis cur", "sh ip int brief"]


# --------------------------------------------------------------- functions of inputs
def terminal_text(g, host, stop=.15):
    """what a terminal shows: prompts, commands, their output"""
    out = []
    if g.p(.15):
        out.append("banner %s#5" % g.choice([host, "other"]))
    for _ in range(g.randint(1, 5)):
        c = g.choice(CMDS)
        x = g.random()
        h = host if x < .85 else g.choice(["other", host[:-1], "x" + host])
        out.append(h + g.choice(["#", "#", "#", ">"]) + g.choice(["", "", " ", "  "]) + c + g.choice(["", "", "", " ", "  ", " x"]))
        for _ in range(g.choice([0, 1, 1, 2, 3])):
            out.append(g.choice(["i %s" % g.uword(), " s %s" % g.uword(), "k %s" % g.uword(), "", "hostname " + host, " s %s#1" % host, "i %s" % host, "k xx", " s " + c]))
    if g.p(.5):
        out.append(host + g.choice(["#", "# ", ">"]))
    if g.p(stop):
        out.insert(g.randint(0, len(out)), "i stop")
    if g.p(.1):
        out = [x for x in out if "#" not in x and ">" not in x] or ["nothing"]
    return "\n".join(out)


def c36(seed, n, tier):
    im = ["i_up", "i_sub", "i_true", "i_false", "i_stop", "i_stop"]
    for k in range(n):
        g = rng(seed, "c36", k)
        host = g.choice(["sw1", "R-1", "core_2", "a"])
        c = Case(kind="functions of inputs").new()
        if g.p(.2):
            c.func("input", "cfi", g.choice(["ci_up", "ci_stop"]))
        macros = {"ia": g.choice(im), "ib": g.choice(im)}
        stopping = g.p(.4)      # some texts of an input stop its functions, others do not
        if stopping:
            macros["ia"] = "i_stop"

        def one(f=None):
            x = g.random()
            if stopping and g.p(.4):
                return call("macro", "ia")
            if f or x < .6:
                cs = g.sample(CMDS, g.choice([1, 1, 2, 3])) + g.sample(["nosuch", "show run"], g.choice([0, 0, 1]))
                return call("extract_commands", *cs)
            if x < .8:
                return call("macro", g.choice(["ia", "ib", "nosuchmacro"]))
            return call("cfi") if x < .9 else call("nosuchfn", "a")
        tops = [group("i" + g.choice(["", "*"]), [line(lit("i "), var("n")), line(lit(" s "), var("s", [], [call("upper")] if g.p(.2) else []))], input=g.choice(["", "", "in1"])),
                group("k*", [line(lit("k "), var("b")), line(setv("host", "hn"))] if g.p(.4) else [line(lit("k "), var("b"))])]
        ins = []
        for nm in g.sample(["in1", "in2", "Default_Input"], g.choice([1, 1, 2, 3])):
            fs = [one("x") if g.p(.7) or (stopping and g.p(.7)) else one() for _ in range(g.choice([1, 1, 1, 2, 3]))]
            if g.p(.1):
                fs = []
            if stopping and g.p(.6):
                fs = [call("macro", "ia")] + [one("x" if g.p(.5) else None) for _ in range(g.choice([1, 2]))]
            if len(fs) == 1 and fs[0]["f"] not in ("extract_commands", "macro") and not g.p(.3):
                fs = [one("x")]
            kind = g.random()
            ins.append({"name": nm, "groups": ["all"], "data": [terminal_text(g, host, .6 if stopping else .1)] if kind < .7 else [], "fns": fs, "chain": g.p(.4)})
            if kind >= .7:
                path = "f%d.txt" % len(ins)
                c.write_file(path, terminal_text(g, host, .6 if stopping else .1))
                ins[-1].update(urls=[path], load=g.choice(["python", "yaml", "json"]), inattr=g.p(.5))
        c.add_template(tdef(tops, [({"hn": "gethostname"}, g.choice(["", "vars"]))] if g.p(.6) else [], inputs=ins, macros=macros))
        for _ in range(g.randint(1 if stopping else 0, 3)):
            c.add_input(terminal_text(g, host, .4 if stopping else .1), name=g.choice([x["name"] for x in ins] + [None] * (not stopping)))
        c.parse(one=True).result()
        if g.p(.2):
            c.set_input(terminal_text(g, host), name=g.choice([x["name"] for x in ins])).clear_result().parse(one=True).result()
        yield c


# --------------------------------------------------------------- values set by lines, defaults without a value, arguments in small letters
def bent(g, s):
    """a line, or nearly"""
    x = g.random()
    if x < .5:
        return s
    if x < .6:
        return s + g.choice([" ", "  ", "\t"])
    if x < .75:
        return s.replace(" ", g.choice(["  ", "   "]), 1) if " " in s.strip() else s
    if x < .85:
        return s + " x"
    if x < .9:
        return " " + s
    return s.replace("1", g.choice(["2", "11"])) if "1" in s else s.upper()


def c05c(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c05c", k)
        tvars = {"tv1": "Gi", "tv2": "up", "tv3": 7, "tv4": ["a", "b"]}
        tops, alls = [], []
        for j in range(g.choice([1, 2, 2, 3])):
            val = lambda: g.choice(["yes", "a b", "tv1", "tv3", "tv4", "rec1", "norec", True, False, 5, None])
            first = line(lit("k%d " % j), var("v", [], [call("record", "rec1")] if g.p(.4) else []))
            ls, seen = [first], set()
            alls.append("k%d %s" % (j, "VAL"))
            for m in range(g.randint(1, 4)):
                txt = g.choice([" shut %d" % j, " no shut down%d" % j, "  mode 1 on%d" % j, " is [up]%d" % j, " x%d" % j, " a b c%d" % j])
                if txt in seen:
                    continue
                seen.add(txt)
                ls.append(line(lit(txt + g.choice([" ", " ", ""])), setv(g.choice(["f", "s%d" % m, "v2"]), val())))
                alls.append(txt)
            if g.p(.3):
                ls.append(line(setv("u", val())))
            if g.p(.5):
                d = var("d", [], [call("upper")] if g.p(.3) else [], dflt=g.choice(["None", "None", True, False, 5, 0]))
                if d["dflt"] == tag("None") and g.p(.8):
                    d["dbare"] = True
                ls.append(line(lit(" d%d " % j), d))
                alls.append(" d%d VAL" % j)
            ch = []
            for _ in range(g.choice([0, 1, 2])):
                x = g.random()
                if x < .3:
                    w = g.choice(["tv1", "tv2"])
                    ch.append(call("resub", w, g.choice(["", "Q"]), *g.choice([[], [2]]), re=Lit(tvars[w])))
                elif x < .5:
                    ch.append(call("let", "nf%d" % g.randint(1, 2), g.choice([True, False, None, "v"]), lower=g.p(.6)))
                elif x < .7:
                    ch.append(call("lookup", "tab", kw={"add_field": g.choice([False, "found"])}, lower=g.p(.6)))
                elif x < .8:
                    ch.append(call("gpvlookup", "gl", kw={"multimatch": g.choice([True, False]), "add_field": "gf"}, order=["n1", "n2"], lower=g.p(.6)))
                else:
                    ch.append(call("nosuchfn", True, lower=g.p(.5)))
            ls.append(line(lit(" c%d " % j), var("c", [], ch)))
            alls.append(" c%d VAL" % j)
            fns = []
            if g.p(.5):
                ls.append(line(lit(" l%d " % j), var("l", [pat("ORPHRASE")], [call("split", " ")] + ([call("joinmatches")] if g.p(.5) else []))))
                alls.append(" l%d LIST" % j)
                fns.append(call("to_int", *g.choice([["l"], []]), kw={"intlist": g.choice([True, True, False])}, lower=g.p(.5)))
            if g.p(.3):
                fns.append(call("lookup", kw={"key": "v", "name": "tab", "update": g.choice([True, False]), "replace": g.choice([True, False])}, lower=g.p(.6)))
            if g.p(.2):
                # one that nobody knows: left alone where it stands in a list
                fns.insert(g.randint(0, len(fns)), call("nosuchfn", "a"))
                fns[0]["chain"] = True
            tops.append(group("g%d%s" % (j, g.choice(["", "*"])), ls, fns=fns))
        vals = ["Gi1", "up", "upGiGi.up", "10", "v1", "007"]
        texts = []
        for _ in range(g.choice([1, 2])):
            out = []
            for _ in range(g.randint(4, 12)):
                x = g.choice(alls)
                x = x.replace("VAL", g.choice(vals)).replace("LIST", " ".join(g.choice(["1", "007", "1.5", "x", "-3", "2"]) for _ in range(g.randint(1, 3)))) if x[-1] in "LT" else bent(g, x)
                out.append(x)
            texts.append("\n".join(out))
        vs = [(tvars, "")]
        yield Case(kind="lines that set").simple(tdef(tops, vs, lookups={"tab": {"v1": "one", "10": {"f": "ten"}, "up": "yes"}, "gl": {"n1": ["u*", "1?"], "n2": ["*p", "v1"]}}), texts)


# --------------------------------------------------------------- calls before there is a template, calls that are refused
def c14c(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c14c", k)
        ta = tdef([group("ga*", [line(lit("a "), var("x"), setv("sv", "vv")), line(lit(" b "), var("y", [], [call("lookup", "tab", kw={"add_field": "found"})]))]),
                   group("gf", [line(lit("f "), var("z", [], [call("cfm")]))], input=g.choice(["", "in1"]))], vars=[({"vv": "own"}, "")] if g.p(.4) else [],
                  inputs=[{"name": "in1", "groups": ["all"], "data": ["a own\n b k1"]}] if g.p(.3) else [])
        tb = tdef([group("gb.{{ x }}*", [line(lit("a "), var("x")), line(lit(" b "), var("y"))])], method=g.choice(["per_input", "per_template"]), name=g.choice(["", "tb"]))
        c = Case(kind="calls before a template").new(vars=g.choice([None, {"vv": "base"}]), toint=g.p(.2))
        xs = ["a 1\n b k1\nf q", "f 007\na 2", "a 3\n b 4\n b k2", ""]
        early = [lambda: c.add_input(g.choice(xs)), lambda: c.set_input(g.choice(xs), name="in1"), lambda: c.add_input(g.choice(xs), template="_all_"), lambda: c.clear_input(), lambda: c.clear_result(),
                 lambda: c.add_vars({"vv": g.choice(["early", 5])}), lambda: c.add_lookup("tab", {"k1": "early"}), lambda: c.parse(one=True), lambda: c.parse(), lambda: c.parse_both(),
                 lambda: c.result(g.choice(["list", "dictionary", "flat_list"])), lambda: c.get_input_load(), lambda: c.clear_input("tb"), lambda: c.clear_result("nosuch"), lambda: c.result(templates=["nosuch"])]
        for _ in range(g.randint(0, 5)):
            g.choice(early)()
        c.func("match", "cfm", g.choice(["cf_up", "cf_sfx"]))
        late = early[:4] + early[5:] + [lambda: c.add_template(g.choice([ta, tb]), name=g.choice([None, "t1", "t2"])), lambda: c.add_lookup("tab", {"k1": "late", "k2": {"k": 1}}),
                                        lambda: c.set_input(g.choice(xs), template=g.choice(["t1", "tb", "nosuch"])), lambda: c.add_input(g.choice(xs), template="_all_", name=g.choice([None, "in1"]), groups=g.choice([None, ["ga*"], ["nosuch"]])),
                                        lambda: c.parse(one=True).result("list"), lambda: c.result("dictionary", templates=["t1"])]
        c.add_template(g.choice([ta, tb]), name=g.choice([None, "t1"]))
        for _ in range(g.randint(3, 9)):
            g.choice(late)()
        c.parse(one=True).result("list").get_input_load()
        yield c


# --------------------------------------------------------------- colours, file names by default and by time, parts of outputs nobody knows
def c35c(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c35c", k)
        c = Case(kind="colours and file names")
        vs = {"dev": g.choice(["r1", "sw2"])}
        method = g.choice(["per_input"] * 3 + ["per_template"])
        words = ["no", "yes", "fail", "Failed", "ok", "Warning", "v1", "Error", "nope", "1"]
        base = g.choice(words)
        files = []
        outs = []
        tfmt = g.choice(["csv", "jinja2"])
        for j in range(g.choice([1, 1, 2])):
            kw = {"order": ONAMES}
            fmt = g.choice([tfmt, tfmt, "raw", "nosuch"])
            ret = g.choice([["terminal"], ["terminal", "nosuch"], ["file"], ["file", "terminal"], ["nosuch"], ["self", "file"], ["file", "self", "terminal"]])
            if "terminal" in ret:
                fmt = tfmt
                if g.p(.8):
                    kw["paint"] = {x: g.sample(words, g.randint(1, 3)) if g.p(.6) else None for x in ("red", "green", "yellow")}
            if fmt == "csv":
                kw.update(c19_table(g, "csv", True))
            if fmt == "jinja2":
                kw["jinja"] = jinja(g, method == "per_template")
            nm = g.choice(["", "o%d" % j])
            if "file" in ret:
                if fmt in ("raw", "nosuch"):
                    fmt = "csv"
                    kw.update(c19_table(g, "csv", True))
                fn = g.choice([None, None, "f_%Y-%m.txt", "f%d.txt", "a%Hb%%c", "plain%j"])
                kw.update(url=g.choice(["out1/", "out2"]), filename=fn)
            fns = [call("nosuchfn", "a"), call("macro", "o_wrap")] if g.p(.15) and fmt == "raw" else []
            outs.append(output(nm, fmt=fmt, ret=ret, fns=fns, **kw))
            if "file" in ret:
                files.append(outs[-1]["url"] + outs[-1]["ftext"])
            if "self" in ret or fns:
                break
        c.new().add_template(tdef(c19_groups(g), [(vs, "")], outputs=outs, method=method, macros=["o_wrap"]))
        for _ in range(g.choice([1, 1, 2])):
            for _ in range(g.randint(1, 2)):
                t = c19_text(g)
                for x in ("vv", "v1", "w"):
                    t = t.replace(x, g.choice(words))
                c.add_input(t)
            c.parse(one=True).result()
            c.read_terminal("text")
            for f in sorted(set(files)):
                c.read_file(f)
            c.clear_result().clear_input()
        yield c


# --------------------------------------------------------------- variables that are the time
CLOCKS = ["get_time", "get_date", "get_timestamp", "get_timestamp_ms", "get_timestamp_iso", "get_time_ns"]


def c17b(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c17b", k)
        c = Case(kind="times")
        c.job["clocks"] = True
        c.job["env"] = {"TZ": g.choice(["UTC0", "AAA5", "BBB-9:30"])}

        def load():
            return {v: g.choice(CLOCKS * 2 + ["gethostname", g.uword()]) for v in g.sample(["ta", "tb", "tc"], g.randint(1, 3))}
        c.new(vars=load() if g.p(.5) else None)
        vs = [(load(), g.choice(["", "vars", "v.sub", "vs*"])) for _ in range(g.choice([1, 1, 2]))]
        tops = [group("a*", [line(lit("a "), var("x")), line(setv("sv", g.choice(["ta", "tb"])))] + ([line(lit(" b"), setv("sb", "tc"))] if g.p(.5) else []),
                      fns=[call("set", "tb", "g2", "none")] if g.p(.4) else []),
                group("l*", [line(lit("l "), var("y", [], [call("let", "l2", "ta")]))])]
        c.add_template(tdef(tops, vs, method=g.choice(["per_input", "per_input", "per_template"])))
        if g.p(.3):
            c.add_vars(load())
        for _ in range(g.randint(1, 3)):
            c.add_input("\n".join(g.choice(["sw1#x", "a 1", "a 2", " b", "l 3"]) for _ in range(g.randint(1, 5))))
        yield c.parse(one=True).result(g.choice(["list", "flat_list"]))


PARTS = {"C05": gen_part(c05c, 100), "C14": gen_part(c14c, 150), "C17": gen_part(c17b, 80), "C35": gen_part(c35c, 100)}
PROPS = {"C36": {"parts": [gen_part(c36, 300)], "cover": ["Start", "NextDatum"]}}
