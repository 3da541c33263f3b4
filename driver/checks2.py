"""The cases of the properties about whole sessions: processes, objects, inputs,
variables, structures, outputs, templates and files."""
import json

from checks import gen_part, rng, tree_groups
from case import Case, tdef
from tmpl import *

PLAINFNS = [call("upper"), call("append", "-x"), call("to_int"), call("replace", "v", "u"), call("exclude", "7"),
            call("contains", "1"), call("to_list")]


def groups(g, keys, n=(1, 2), fns=.3, maxd=1, **kw):
    """top groups of small trees, some variables with functions"""
    tops = [tree_groups(g, keys, maxd=maxd, tails=.15, **kw) for _ in range(g.randint(*n))]
    for t in tops:
        for l in t["lines"]:
            for tok in l["toks"]:
                if tok["t"] == "var" and g.p(fns) and not tok["fns"]:
                    tok["fns"] = [g.choice(PLAINFNS[:7])]
    return tops


def texts(g, tops, n=(2, 4), **kw):
    kw = dict({"noise": 0, "reps": (1, 3)}, **kw)
    out = []
    for _ in range(g.randint(*n)):
        t = g.text(tops, **kw)
        if t not in out:
            out.append(t)
    return out


# =============================================================== C13 processes
def c13(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c13", k)
        keys = g.keyiter()
        ts = []
        c = Case(kind="several processes").new(vars={"cv1": "first", "cv2": 5}, toint=g.p(.2))
        cust = []
        for sc, nm, fn in (("match", "cfm", "cf_up"), ("group", "cfg", "cg_tag"), ("input", "cfi", "ci_up"), ("macro", "cfx", "cm_up"),
                           ("variable", "cfv", "cv_name"), ("output", "cfo", "co_wrap")):
            if g.p(.3):
                c.func(sc, nm, fn)
                cust.append(sc)
        for m in range(g.choice([1, 1, 2])):
            tops = groups(g, keys)
            if g.p(.3):
                tops.append(group("dyn.{{ dk }}*", [line(lit("dk "), var("dk")), line(lit(" dv "), var("dv"))]))
            if g.p(.3):
                tops.append(group("lk*", [line(lit("lk "), var("lv", [], [call("lookup", "tab", kw={"add_field": "found"})]))]))
            macros = []
            if g.p(.4):
                macros = ["m_a"] if g.p(.6) else {"m_a": "m_a", "cfx": "m_a"}
                tops.append(group("mc*", [line(lit("mc "), var("mv", [], [call("macro", "m_a")]))]))
            if "match" in cust and g.p(.7):
                tops.append(group("cu*", [line(lit("cu "), var("cu", [], [call("cfm")]))], fns=[call("cfg", "gt")] if "group" in cust and g.p(.5) else []))
            if "macro" in cust and g.p(.7):
                tops.append(group("cx*", [line(lit("cx "), var("cx", [], [call("macro", "cfx")]))]))
            if g.p(.15):
                tops.append(group("rs*", [line(lit("rs "), var("rv", [], [call("contains", "v"), call("raise", "no")] if g.p(.3) else []))]))
            vs = []
            if g.p(.4):
                vs = [({"tv1": "one", "host": "gethostname"}, g.choice(["", "", "vars", "v.{{ host }}"]))]
                if "variable" in cust and g.p(.6):
                    vs[0][0]["own"] = "cfv"
            ins = []
            if g.p(.3):
                f = [call("cfi")] if "input" in cust and g.p(.5) else []
                ins = [{"name": "in1", "groups": ["all"], "data": texts(g, tops, (1, 2)), "fns": f}]
            outs = [output(fns=[call("cfo")])] if "output" in cust and g.p(.3) else []
            c.add_template(tdef(tops, vs, ins, lookups={"tab": {"v1": "one", "v2": "two", "7": "seven", "a": {"x": "y"}}}, macros=macros, outputs=outs), name="t%d" % m)
            ts.append(tops)
        own, size = set(), 0
        for _ in range(g.randint(2, 6)):
            m = g.randint(0, len(ts) - 1)
            x = g.text(ts[m], reps=(1, 3), noise=0)
            for w in ("dk", "lk", "mc", "cu", "cx", "rs"):
                if g.p(.4):
                    x += "\n%s %s" % (w, g.choice(["v1", "v2", "7", "a", g.uword()]))
                    if w == "dk":
                        x += "\n dv " + g.uword()
            if g.p(.3):
                x = "sw%d#show run\n" % g.randint(1, 3) + x
            own.add(x)
            size += len(x)
            c.add_input(x, name=g.choice([None, None, "in1", "in2"]), template=g.choice(["t%d" % m, "_all_"]))
        # the parser decides itself: several processes for two texts at least, if their size is above its limit
        auto = {"auto": g.choice([0, 10])} if len(own) >= 2 and size > 10 and g.p(.4) else {}
        st = g.choice(["list", "list", "dictionary"] + (["flat_list"] if not any(d["outputs"] for d in c.defs) else []))
        if '"raise"' in json.dumps(c.defs):
            # which texts were done when the error came is open
            c.parse(multi=True, **auto).clear_result().result().clear_input().parse(multi=True).result()
        elif g.p(.6) or any(d["outputs"] for d in c.defs):
            c.parse(multi=True, **auto).result(structure=st, bag=True)
            if g.p(.3) and not any(d["outputs"] for d in c.defs):
                c.clear_result().parse(one=True).result()
        else:
            c.parse(**g.choice([{"one": True}, {"auto": 10 ** 6}])).result().clear_result().parse(multi=True, **auto).result(structure=st, bag=True)
        yield c


# =============================================================== C15 parser objects
def c15(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c15", k)
        objs = ["p", "q", "r"][:g.choice([2, 2, 3])]
        c = Case(kind="several parser objects")
        plan = {}
        for ob in objs:
            keys = iter(g.KEYS)     # the same keywords for all
            ops = []
            par = {"vars": {"cv1": "of-" + ob, "hid": g.uword()}, "toint": g.p(.4)}
            ops.append(lambda par=par: c.new(**par))
            fn = g.choice([None, None, "cf_up", "cf_sfx", "cf_nf"])
            if fn:
                ops.append(lambda fn=fn: c.func("match", g.choice(["cfm", "upper"]) if False else "cfm", fn))
            if g.p(.3):
                ops.append(lambda: c.func("match", "upper", "cf_sfx"))
            if g.p(.3):
                ops.append(lambda: c.func("group", "cfg", "cg_tag"))
            tops = groups(g, keys, n=(1, 2))
            rec = g.choice(["record", "count", "let"])
            f1 = {"record": call("record", "shared"), "count": call("count", kw={"globvar": "shared"}),
                  "let": call("let", "lv", "hid")}[rec]
            tops.append(group("st*", [line(lit("st "), var("sv", [], [f1] + ([call("cfm")] if fn and g.p(.5) else []) + ([call("upper")] if g.p(.4) else [])))]))
            tops.append(group("us*", [line(lit("us "), var("uv", [], [call("copy", "c2")] if g.p(.3) else [])), line(lit(" uc"), setv("ucv", "cv1"))], fns=[call("set", "shared", "was", "nothing")]))
            mac = g.choice(["m_a", "m_b", "m_c"])
            tops.append(group("mc*", [line(lit("mc "), var("mv", [], [call("macro", "same")]))]))
            tops.append(group("lk*", [line(lit("lk "), var("lv", [], [call("lookup", "tab", kw={"add_field": "found"})]))]))
            tops.append(group("dy.{{ dk }}*", [line(lit("dy "), var("dk")), line(lit(" dv "), var("dv"))]))
            tops.append(group("dz.{{ dk }}", [line(lit("dz "), var("dv"))]))
            d = tdef(tops, [({"host": "gethostname"}, "vs")] if g.p(.3) else [], lookups={"tab": {"v1": ob, "7": "seven-" + ob}}, macros={"same": mac})
            ops.append(lambda d=d: c.add_template(d))
            for _ in range(g.randint(1, 3)):
                x = g.text(tops, reps=(1, 3), noise=0)
                for _ in range(g.randint(1, 4)):
                    w = g.choice(["st", "us", "mc", "lk", "dy", "dz"])
                    x += "\n%s %s" % (w, g.choice(["v1", "7", "12", g.uword()])) + ("\n dv 1" if w == "dy" else "\n uc" if w == "us" else "")
                if g.p(.3):
                    x = "h-%s>\n" % ob + x
                ops.append(lambda x=x: c.add_input(x))
                if g.p(.5):
                    ops.append(lambda: c.parse(one=True))
                    ops.append(lambda: c.result())
                    if g.p(.7):
                        ops.append(lambda: c.clear_result())
                    if g.p(.4):
                        ops.append(lambda: c.clear_input())
            ops.append(lambda: c.parse(one=True))
            ops.append(lambda: c.result())
            plan[ob] = ops
        live = list(objs)
        while live:
            ob = g.choice(live)
            c.on(ob)
            for _ in range(g.choice([1, 1, 2, 4])):
                if plan[ob]:
                    plan[ob].pop(0)()
            if not plan[ob]:
                live.remove(ob)
        for ob in objs:
            c.on(ob).result()
        yield c


# =============================================================== C16 routing
def c16(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c16", k)
        c = Case(kind="groups and inputs").new()
        nt = g.choice([1, 1, 2])
        every = []
        names = ["in1", "in2", "in3", "Default_Input"]
        for m in range(nt):
            tops, gn = [], []
            for j in range(g.randint(2, 4)):
                nm = g.choice(["ga", "gb*", "gc.x*", "gd", "ga"])
                if nm.rstrip("*").split(".")[0] not in [x.rstrip("*").split(".")[0] for x in gn] or g.p(.3):
                    pass
                else:
                    nm = nm[0] + str(j) + nm[1:]
                gn.append(nm)
                gr = group(nm if g.p(.93) else None, [line(lit("k%d " % j), var("a%d" % j)), line(lit(" s%d " % j), var("b%d" % j))],
                           input=g.choice(["", "", "", "in1", "in2", "in1, in2", "in3"]))
                if g.p(.3):
                    gr["kids"].append((group("kid*", [line(lit(" c%d " % j), var("c"))]), []))
                tops.append(gr)
            tn = lambda: [x for x in g.sample(gn, g.randint(1, len(gn)))]
            ins = []
            for _ in range(g.choice([0, 1, 1, 2, 3])):
                ins.append({"name": g.choice(names), "groups": g.choice([["all"], ["all"], tn(), tn(), tn() + ["all"]]), "data": [c16_text(g, len(tops)) for _ in range(g.choice([1, 1, 2]))]})
            # one input name, one groups filter
            seen = {}
            for x in ins:
                x["groups"] = seen.setdefault(x["name"], x["groups"])
            d = tdef(tops, inputs=ins, method=g.choice(["per_input"] * 4 + ["per_template"]))
            c.add_template(d, name=None if m == 0 and g.p(.5) else "t%d" % m)
            every.append(gn)
        for _ in range(g.randint(1, 5)):
            gn = g.choice(every)
            kw = dict(name=g.choice([None, None] + names), template=g.choice([None, "_all_", "_all_", "t0", "t1"]),
                      groups=g.choice([None, None, None, g.sample(gn, g.randint(1, len(gn))), ["all"], [g.choice(gn), "all"], ["nosuch"]]))
            if g.p(.85):
                c.add_input(c16_text(g, 4), **kw)
            else:
                c.set_input(c16_text(g, 4), **kw)
        yield c.parse(one=True).result()


def c16_text(g, n):
    out = []
    for _ in range(g.randint(2, 6)):
        j = g.randint(0, n - 1)
        out.append("k%d %s" % (j, g.uword()))
        if g.p(.5):
            out.append(" s%d %s" % (j, g.uword()))
        if g.p(.3):
            out.append(" c%d %s" % (j, g.uword()))
    return "\n".join(out)


# =============================================================== C17 variables
HOSTS = ["sw%d#show run", "rtr-%d>show ver", "<hw%d>display", "admin@jun%d> show", "RP/0/0:asr%d#show", "A:sros%d# admin", "fw%d (vd) #get",
         "RP/0:B:asr%d#sh#x", "A:B>sros%d#x>y", "ad@min@jun%d> sh>x", "sw%d#sh#run", "r>tr%d>show", "<h<w%d>>x", "a b>c%d#x",
         "no prompt %d"]


def c17(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c17", k)
        keys = g.keyiter()
        vnames = ["va", "vb", "vc", "host", "fname", "own"]

        def load():
            out = {}
            for v in g.sample(vnames, g.randint(1, 4)):
                out[v] = {"host": "gethostname", "fname": "getfilename", "own": "cfv"}.get(v) if g.p(.6) and v in ("host", "fname", "own") \
                    else g.uword() if v in ("host", "fname") else g.choice([g.uword(), "a.b", 5, True]) if v == "va" else g.choice([g.uword(), g.randint(0, 99), [g.uword(), "b"], "text with spaces", True, None, {"x": g.uword(), "y": 1}, ""])
            return out
        c = Case(kind="variables").new(vars=load() if g.p(.6) else None)
        if g.p(.5):
            c.func("variable", "cfv", g.choice(["cv_len", "cv_name"]))
        else:
            vnames.remove("own")
        for m in range(g.choice([1, 1, 2])):
            if g.p(.25):
                c.add_vars(load())
            tops = groups(g, keys, n=(1, 1), fns=0, maxd=1)
            gv = lambda: g.choice(vnames + ["nov"])
            tops.append(group("st*", [line(lit("st "), var("s0")), line(setv("sv", gv())), line(lit(" su "), setv("s1", gv()))]))
            tops.append(group("gs*", [line(lit("gs "), var("g1"))], fns=[call("set", gv(), "g2", *(["dflt"] if g.p(.5) else []))]))
            if g.p(.4):
                tops.append(group("let*", [line(lit("let "), var("l1", [], [call("let", "l2", gv())]))]))
            if g.p(.4):
                tops.append(group("df*", [line(lit("df "), var("d1")), line(lit(" dd "), var("d2", dflt=g.choice(["va", "vb", "vc"])))]))
            if g.p(.4):     # recorded in one text, and for the texts after it
                tops.append(group("rc*", [line(lit("rc "), var("r1", [], [call("record", g.choice(["va", "vb", "vc"]))]))]))
            if g.p(.4):
                tops.append(group("dp.{{ %s }}*" % g.choice(["va", "host", "fname"]), [line(lit("dp "), var("p1"))]))
            if g.p(.4):
                tops.append(group("ap*", [line(lit("ap "), var("x1", [], [call(g.choice(["append", "prepend"]), g.choice(["host", "fname"]))]))]))
            vs = [(load(), g.choice(["", "", "vars", "vars.sub", "{{ host }}.v", "vars*", "a.{{ host }}", "u.{{ nov }}.w"])) for _ in range(g.choice([1, 1, 2, 3]))]
            c.add_template(tdef(tops, vs, method=g.choice(["per_input"] * 3 + ["per_template"])), name="t%d" % m)
            if g.p(.25):
                c.add_vars(load())
        every = tops
        for _ in range(g.randint(1, 3)):
            x = g.text(tops, reps=(1, 2), noise=0, junk=0).split("\n")
            for w in ("st", " su", "gs", "let", "rc", "df", "dp", "ap", " dd"):
                if g.p(.6):
                        x.append("%s %s" % (w, g.uword()) if w != " su" else w)
            h = g.choice(HOSTS)
            if g.p(.6):
                x.insert(g.choice([0, 0, g.randint(0, len(x))]), h % g.randint(1, 9))
            x = "\n".join(x)
            if g.p(.25):
                f = "dir/f%d.txt" % g.randint(1, 3)
                if f not in [o.get("path") for o in c.ops]:
                    c.write_file(f, x)
                x = f
            c.add_input(x, template="_all_")
        yield c.parse(one=True).result()


# =============================================================== C18 structures
def c18(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c18", k)
        keys = g.keyiter()
        c = Case(kind="result structures").new()
        names = []
        ts = []
        for m in range(g.choice([0, 1, 2, 2, 3])):
            tops = groups(g, keys, n=(1, 2), maxd=1)
            for t in tops:
                if g.p(.3):
                    t["name"] = None
            nm = g.choice(["one", "ones", "two", "t%d" % m, "t%d0" % m, None])
            if nm in names or "_root_template_" in names and nm is None:
                nm = "u%d" % m
            names.append(nm or "_root_template_")
            c.add_template(tdef(tops, method=g.choice(["per_input", "per_input", "per_template"])), name=nm)
            ts.append(tops)

        def res():
            pick = g.choice([None, None, None] + names + [list(reversed(names)), names[:1], ["nosuch"], "nosuch", ["nosuch"] + names, "one, two", "".join(names)])
            return c.result(structure=g.choice(["list", "dictionary", "flat_list"]), templates=pick)
        if g.p(.3):
            res()
        for rnd in range(g.choice([1, 1, 2])):
            if ts:
                for _ in range(g.randint(0, 3)):
                    c.add_input(g.text(g.choice(ts), reps=(0, 2), noise=0), template=g.choice(names + ["_all_"]))
            if g.p(.2):
                c.clear_input(g.choice([None] + names))
            c.parse(one=True)
            for _ in range(g.randint(1, 4)):
                res()
            c.clear_result(g.choice([None, None] + ["no" + "s".join(names)] * 2 if rnd == 0 and any(d["method"] == "per_template" for d in c.defs) else [None] + names + [names or None]))
            res()
        yield c


# =============================================================== C19 outputs
ONAMES = ["n%02d" % i for i in range(30)]


def c19_groups(g, nameless=False):
    """records a table can be made of: under recs, and one by one under byname"""
    nm = lambda x: x if not nameless else None
    recs = group(nm("recs*"), [line(lit("rec "), var("k"), lit(" "), var("v", [], [call("to_int")] if g.p(.3) else [])),
                               line(lit(" ex "), var("x", [pat("ORPHRASE")]))])
    byn = group("byname.{{ k }}", [line(lit("byn "), var("k")), line(lit(" d1 "), var("d1")), line(lit(" d2 "), var("d2", dflt=g.choice([None, None, "", "no d2"])))])
    one = group("one", [line(lit("one "), var("o"))])
    return [recs, byn, one]


def c19_text(g):
    out = []
    for n in sorted(g.sample(ONAMES, g.randint(0, 4))):
        x = g.random()
        if x < .5:
            out += ["rec %s %s" % (n, g.choice(["1", g.uword(), "0"]))] + ([" ex " + g.choice(["a b", "q", '"'])] if g.p(.5) else [])
        else:
            out += ["byn " + n] + ([" d1 " + g.uword()] if g.p(.6) else []) + ([" d2 " + g.uword()] if g.p(.4) else [])
    if g.p(.4):
        out.insert(0, "one " + g.uword())
    return "\n".join(out)


def c19_table(g, fmt, recs=False):
    ta = {}
    if recs or g.p(.5):
        ta.update(path=["recs"])
        cols = ["k", "v", "x"]
    else:
        ta.update(path=["byname"], key=g.choice(["k", "name"]), order=ONAMES)
        cols = sorted(["d1", "d2", ta["key"]])
    if g.p(.5):
        ta["headers"] = [g.choice(cols) if g.p(.9) else "nocol"] if g.p(.2) else g.sample(cols, g.randint(1, len(cols))) + ([] if g.p(.7) else ["nocol"])
    else:
        ta["sorted"] = cols
    if g.p(.4):
        ta["missing"] = g.choice(["-", "none"])
    if fmt == "csv":
        if g.p(.3):
            ta["sep"] = g.choice([";", "|", "\t"][:2])
        if g.p(.3):
            ta["quote"] = ""
    return ta


def c19(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c19", k)
        c = Case(kind="outputs").new(vars={"mode": g.choice(["x", "y"]), "num": 5})
        cust = g.p(.4)
        if cust:
            c.func("output", "cfo", "co_wrap").func("formatters", "cff", "cfmt")
        files = []
        raw = True      # what the templates give is still data
        names = []
        for m in range(g.choice([1, 1, 1, 2])):
            gout = g.p(.35)
            tops = c19_groups(g)
            outs, gnames = [], []
            method = g.choice(["per_input"] * 3 + ["per_template"])
            # the order of the keys below byname is that of the texts: rows are made of records only
            nodict = method == "per_template"
            macros = g.sample(["o_len", "o_wrap", "o_first", "o_false"], 2)

            def fns(final):
                x = g.random()
                if x < .25:
                    return [call("macro", g.choice(macros + ["nomacro"]))]
                if x < .35 and cust:
                    return [call("cfo")]
                if x < .5 and final:
                    return [call("traverse", kw={"path": g.choice(["recs", "byname", "one" if nodict else "one.o"]), "strict": False})] if g.p(.5) or nodict else \
                        [call("dict_to_list", kw={"key_name": g.choice(["k", "name"]), "path": "byname"})]
                return []

            def one(name, final, ingroup=False):
                nonlocal raw
                cond = g.choice([None, None, None, ("mode", "x"), ("num", 5), ("novar", "x")])
                ret = ["self"]
                kw = {}
                if not ingroup and g.p(.3):
                    f = "f%d.txt" % len(files)
                    ret = g.choice([["self", "file"], ["file"]])
                    kw.update(url="out%d/" % g.randint(1, 2), filename=f)
                fmt = "raw"
                fs = fns(final)
                if final:
                    fmt = g.choice(["raw", "table", "csv", "table", "csv"] + ([] if ingroup else ["json", "yaml", "pprint"]) + (["cff"] if cust else []))
                    if fmt in ("table", "csv"):
                        kw.update(c19_table(g, fmt, nodict))
                        fs = []
                if not final and ret == ["self", "file"]:
                    ret = ["file"]
                if "file" in ret:
                    fmt = g.choice(["json", "yaml", "pprint", "csv"])
                    fs = fs if fmt != "csv" else []
                    for z in ("path", "headers", "missing", "key", "sep", "quote", "order", "sorted"):
                        kw.pop(z, None)
                    if fmt == "csv":
                        kw.update(c19_table(g, fmt, nodict))
                    files.append((kw["url"] + kw["filename"], fmt if fmt != "csv" else ""))
                if fmt in ("json", "yaml", "pprint", "csv") and "self" in ret:
                    raw = False
                if g.p(.1) and final and fmt == "raw" and not kw and "o_false" not in macros:
                    return output(name, desc=g.choice(["", "what it is"]), fns=[call("is_equal")], load=g.choice([[], [[]], [{}], {"one": {"o": "a"}}]))
                kw.setdefault("order", ONAMES)
                return output(name, cond=cond, fns=fs, fmt=fmt, ret=ret, **kw)
            if gout:
                for t in tops:
                    if g.p(.5):
                        nm = "g%d" % len(gnames)
                        gnames.append(nm)
                        outs.append(one(nm, True, True))
                        t["output"] = g.choice([nm, nm, "nosuch, " + nm])
            no = g.choice([1, 2, 3]) if not gout else 0
            for j in range(no):
                outs.append(one(g.choice(["", "out%d" % j]), j == no - 1))
            if gout and g.p(.3) and not any(o["fmt"] in ("table", "csv") for o in outs):
                outs.append(one("", False))
            names.append("t%d" % m)
            d = tdef(tops, outputs=outs, macros=macros, method=method)
            c.add_template(d, name="t%d" % m)
        for j in range(g.randint(1, 3)):
            c.add_input(c19_text(g), template="_all_")
        c.parse(one=True)
        dec = {"json", "yaml", "pprint"}
        fm = [[o["fmt"] for o in d["outputs"] if "self" in o["ret"]] for d in c.defs]
        used = {f for q in fm for f in q if f in dec}
        # texts are read back by their format; templates with different ones are asked for one by one
        if len(used) <= 1 and not (used and any("csv" in q for q in fm)):
            c.result(structure=g.choice(["list", "dictionary"]), decode=(used or {""}).pop())
        else:
            for nm, q in zip(names, fm):
                u = {f for f in q if f in dec}
                c.result(templates=nm, decode=(u or {""}).pop())
        for f, how in files:
            c.read_file(f, decode=how)
        if raw and not any(d["outputs"] for d in c.defs):
            pass
        if raw and g.p(.7):
            st = g.choice(["list", "dictionary"])
            fmt = g.choice(["raw", "json", "yaml", "pprint"])
            c.result(structure=st, out=output(fmt=fmt), decode="" if fmt == "raw" else fmt)
        if g.p(.3):
            c.clear_result().result()
        yield c


def c19b(seed, n, tier):
    """outputs of result(): nothing is asked of the templates"""
    for k in range(n):
        g = rng(seed, "c19b", k)
        c = Case(kind="outputs of result").new()
        nl = g.p(.3)
        names, together = [], False
        for m in range(g.choice([1, 2])):
            ts = c19_groups(g, nl)
            method = g.choice(["per_input"] * 3 + ["per_template"])
            together = together or method == "per_template"
            c.add_template(tdef(ts if not nl else ts[:1], method=method, macros=["o_len", "o_wrap"]), name="t%d" % m)
            names.append("t%d" % m)
        for j in range(g.randint(1, 3)):
            c.add_input(c19_text(g), template="_all_")
        if g.p(.1):
            c.result(out=output(fmt="json"), decode="json")
        c.parse(one=True)
        for _ in range(g.randint(1, 4)):
            fmt = g.choice(["raw", "json", "yaml", "pprint", "csv", "table"] if not nl else ["raw", "json", "csv", "table"])
            kw, fs = {}, []
            if fmt in ("csv", "table"):
                kw = c19_table(g, fmt, together) if not nl else {"sorted": ["k", "v", "x"]}
            elif g.p(.5):
                fs = [g.choice([call("macro", g.choice(["o_len", "o_wrap", "nom"]))] +
                               ([] if nl or together else [call("dict_to_list", kw={"key_name": "k", "path": g.choice(["byname", "byname", "one", "recs", "nopath"])}),
                                               call("traverse", kw={"path": "recs", "strict": False})]))]
            kw.setdefault("order", ONAMES)
            o = output(fns=fs, fmt=fmt, **kw)
            c.result(structure=g.choice(["list", "dictionary"] + ["flat_list"] * (fmt not in ("json", "yaml", "pprint"))), templates=g.choice([None, None, names[0], list(reversed(names))]), out=o,
                     decode=fmt if fmt in ("json", "yaml", "pprint") else "")
            if g.p(.5):
                c.result()      # they are what they were
        yield c


PROPS = {
    "C13": {"parts": [gen_part(c13, 120)], "cover": ["Start", "ParseCall"]},
    "C15": {"parts": [gen_part(c15, 150)], "cover": ["Start", "Add", "ParseCall"]},
    "C16": {"parts": [gen_part(c16, 300)], "cover": ["Start", "NextDatum"]},
    "C17": {"parts": [gen_part(c17, 250)], "cover": ["Start", "NextDatum"]},
    "C19": {"parts": [gen_part(c19, 200), gen_part(c19b, 100)], "cover": ["Start", "result", "EndParse"]},
    "C18": {"parts": [gen_part(c18, 250)], "cover": ["result", "clear_result"]},
}
