"""Sessions with many of something: templates, inputs, texts, groups, levels, records, columns,
functions, outputs, keys.  What holds for two or three must hold for a dozen."""
import extend as X
from case import Case, Ld, tdef
from checks import group_call, match_chain, rng, tree_groups
from tmpl import *

LET = "abcdefghijklmnopqrs"
UPS = [call("append", "a"), call("prepend", "b"), call("append", "-z"), call("replace", "a", "bb"), call("upper"), call("lower"),
       call("replaceall", "x", "b", "z"), call("prepend", "10"), call("title"), call("swapcase"), call("strip", "b"), call("copy", "cp")]


def many(g):
    return g.randint(11, 14)


def kgroup(j, name, **kw):
    """a group with its own words"""
    w = "k" + LET[j]
    return group(name, [line(lit(w + " "), var("a")), line(lit(" s" + LET[j] + " "), var("b"))], **kw)


def ktext(g, js, n=(3, 8)):
    out = []
    for _ in range(g.randint(*n)):
        j = g.choice(js)
        out.append("k%s %s" % (LET[j], g.uword()))
        if g.p(.6):
            out.append(" s%s %s" % (LET[j], g.uword()))
    return "\n".join(out)


def templates(g):
    """templates by the dozen, of the object or within one"""
    c = Case(kind="many templates").new()
    nt = many(g)
    names = []
    ts = [tdef([kgroup(j, "r%d*" % j)] + ([kgroup(LET.index("s"), "all*")] if g.p(.5) else []), method=g.choice(["per_input"] * 4 + ["per_template"])) for j in range(nt)]
    if g.p(.4):
        p = tdef([])
        for j, d in enumerate(ts):
            d["name"] = g.choice(["", "", "n%d" % j])
            names.append(d["name"] or str(j))
        p["kids"] = ts
        c.add_template(p, filters=g.choice([None, None, [names[10], names[1]]]))
    else:
        for j, d in enumerate(ts):
            names.append("t%d" % j)
            c.add_template(d, name=names[-1])
    for _ in range(g.randint(3, 6)):
        c.add_input(ktext(g, range(nt)) + "\nks " + g.uword(), template=g.choice(["_all_", "_all_", names[1], names[10], g.choice(names)]))
    c.parse(one=True)
    for _ in range(2):
        c.result(structure=g.choice(["list", "dictionary", "flat_list"]), templates=g.choice([None, None, names[1], [names[10], names[2]], list(reversed(names))]))
    c.clear_result(g.choice([names[1], names[10], names[9:]])).result(structure="dictionary")
    c.add_input(ktext(g, range(nt)), template=g.choice(names)).parse(one=True).result()
    return c


def inputs(g):
    """inputs and groups by the dozen"""
    n = many(g)
    c = Case(kind="many inputs").new()
    tops = [kgroup(j, "r%d*" % j, input=g.choice(["", "", "in%d" % g.randint(1, n), "in1, in%d" % n])) for j in range(n)]
    gn = [t["name"] for t in tops]
    ins = [{"name": "in%d" % j, "groups": g.choice([["all"], ["all"], g.sample(gn, g.randint(1, n))]), "data": [ktext(g, range(n)) for _ in range(g.choice([1, 1, 2]))]}
           for j in g.sample(range(1, n + 1), g.randint(n - 3, n))]
    c.add_template(tdef(tops, inputs=ins, method=g.choice(["per_input"] * 4 + ["per_template"])))
    for _ in range(g.randint(0, 4)):
        c.add_input(ktext(g, range(n)), name=g.choice([None, "in1", "in%d" % n, "in10", "new"]), groups=g.choice([None, None, g.sample(gn, 3)]))
    return c.parse(one=True).result()


def texts(g, multi=False):
    """texts by the dozen, some of them equal or nearly so"""
    n = many(g)
    c = Case(kind="many texts").new()
    tops = [tree_groups(g, g.keyiter(), tails=.2, maxd=1), group("cnt*", [line(lit("cn "), var("x", [], [call("count", kw={"var": "cn", "globvar": "gn"} if not multi else {"var": "cn"})])), line(lit(" ce "), setv("y", "cn"))])]
    nt = g.choice([1, 1, 2])
    for m in range(nt):
        c.add_template(tdef(tops, method="per_input" if multi else g.choice(["per_input", "per_template"])), name="t%d" % m)
    seen = []
    for j in range(n):
        x = g.text(tops[:1], reps=(1, 2), noise=0, junk=0) + ("\ncn q\n ce" if g.p(.5) else "")
        if seen and g.p(.25):
            x = g.choice(seen) + g.choice(["", "", " ", "\n", "\nend"])
        seen.append(x)
        c.add_input(x, name=g.choice([None, None, "in%d" % j]), template="_all_" if nt > 1 else "t0")
    if multi:
        return c.parse(multi=True).result(bag=True)
    return c.parse(one=True).result()


def files(g):
    """a directory of a dozen files"""
    n = many(g)
    c = Case(kind="many files")
    tops = [tree_groups(g, g.keyiter(), tails=.2, maxd=1), group("st", [line(lit("st "), var("s0")), line(setv("f", "fname"))])]
    for j in range(n):
        c.write_file("dd/f%d%s" % (j, g.choice([".txt", ".log", ".txt", "x"])), g.text(tops[:1], reps=(1, 2), noise=0) + "\nst " + g.uword())
    c.listdir("dd").new()
    urls = g.choice([["dd"], ["dd"], ["dd/f1.txt", "dd"]])
    urls = [u for u in urls if u == "dd" or any(o.get("path") == u for o in c.ops)]
    ins = [{"name": "in1", "groups": ["all"], "data": [], "urls": urls, "exts": g.choice([[], ["txt"], ["log", "txt"]])}] if g.p(.6) else []
    c.add_template(tdef(tops, [({"fname": "getfilename"}, "")], ins))
    if not ins or g.p(.3):
        c.add_input("dd")
    return c.parse(one=True).result()


def deep(g):
    """groups within groups"""
    tops = [tree_groups(g, g.keyiter(), kidp=(1,), maxd=g.randint(4, 6), tails=.35, endp=.1)]
    if g.p(.3):
        tops.append(tree_groups(g, g.keyiter(), kidp=(1,), maxd=3))
    x = g.text(tops, reps=(1, 2), noise=0, junk=.05, drop=.1).split("\n")[:150]
    return Case(kind="deep").simple(tdef(tops), ["\n".join(x)])


def wide(g):
    """a group with a dozen children, or a dozen groups; records by the dozen"""
    n = many(g)
    if g.p(.5):
        tops = [group("top*", [line(lit("top "), var("t"))], [(group(g.choice(["c%d", "c%d*", "cc.d%d*"]) % j, [line(lit(" k%s " % LET[j]), var("a")), line(lit("  s%s " % LET[j]), var("b"))]),
                                                               [line(lit(" t%s " % LET[j]), var("tail%d" % j))] if g.p(.2) else []) for j in range(n)])]
        out = ["top " + g.uword()]
        for _ in range(40):
            j = g.randint(0, n - 1)
            out.append(g.choice([" k%s %s"] * 4 + ["  s%s %s"] * 3 + [" t%s %s"]) % (LET[j], g.uword()))
            if g.p(.05):
                out.append("top " + g.uword())
        return Case(kind="wide").simple(tdef(tops), ["\n".join(out)])
    tops = [kgroup(j, g.choice(["r%d*", "r%d", "x.r%d*", None] if j else ["r%d"]) and g.choice(["r%d*", "r%d", "x.r%d*"]) % j) for j in range(n)]
    return Case(kind="wide").simple(tdef(tops), [ktext(g, range(n), (30, 40))])


def dynamic(g):
    """paths with several values, and a dozen of each"""
    p = g.choice(["d.{{ x }}.{{ y }}", "d.{{ x }}.e.{{ y }}.{{ z }}*", "{{ x }}{{ y }}.q*", "{{ x }}-{{ y }}.{{ z }}**", "a*.{{ x }}.{{ z }}", "{{ z }}.{{ x }}.{{ y }}.{{ x }}"])
    top = group(p, [line(lit("x "), var("x")), line(lit(" y "), var("y"), lit(" z "), var("z")), line(lit(" v "), var("v"))])
    if g.p(.5):
        top["kids"].append((group(g.choice(["kid.{{ k }}", "kid*", "{{ k }}*"]), [line(lit(" k "), var("k")), line(lit("  w "), var("w"))]), []))
    out, xs = [], ["x%d" % j for j in range(many(g))] + ["1", "10"]
    for _ in range(25):
        out.append("x " + g.choice(xs))
        if g.p(.9):
            out.append(" y %s z %s" % (g.choice(xs[:4]), g.choice(xs[:4])))
        if g.p(.6):
            out.append(" v " + g.uword())
        for _ in range(g.choice([0, 0, 1, 2])):
            out += [" k " + g.choice(xs), "  w " + g.uword()]
    return Case(kind="many values in paths").simple(tdef([top]), ["\n".join(out)], toint=g.p(.3))


def chains(g):
    """long chains of functions, and many variables in one line"""
    fs = [g.choice(UPS) for _ in range(g.randint(7, 12))]
    toks = [lit("q ")]
    n = many(g)
    for j in range(n):
        if j:
            toks.append(lit(g.choice([" ", " ", " - "])))
        toks.append(var("v%d" % j, [], [g.choice(UPS[:8])] if g.p(.3) else []))
    gs = [group("ch*", [line(lit("ch "), var("v", [pat("ORPHRASE")], fs)), line(lit(" co "), var("w", [], list(reversed(fs))))]), group("many*", [line(*toks)])]
    out = []
    for _ in range(6):
        out += ["ch " + g.choice(["up", "xa b", "b", "10"]), " co " + g.uword()]
        s = "".join(t["v"] if t["t"] == "lit" else g.uword() for t in toks)
        out.append(s if g.p(.8) else s + g.choice([" x", " "]))
    return Case(kind="long chains").simple(tdef(gs), ["\n".join(out)])


def gchains(g):
    """a dozen group functions"""
    ls = [line(lit("g "), var("n0"))] + [line(lit(" l%s " % LET[j]), var("n%d" % j)) for j in range(1, 8)]
    gr = group("g*", ls)
    names = ["n%d" % j for j in range(8)]
    for _ in range(g.randint(7, 12)):
        x = g.random()
        if x < .3:
            c = call("set", "tv%d" % g.randint(1, 3), "s%d" % g.randint(1, 4))
        elif x < .5:
            c = call("del", *g.sample(names[1:], 2))
        elif x < .7:
            a, b = g.sample(names, 2)
            c = call("sformat", "{%s}/{%s}" % (a, b), g.choice(names + ["f1", "f2"]), fmt=[{"k": "var", "v": a}, {"k": "lit", "v": "/"}, {"k": "var", "v": b}])
        elif x < .8:
            c = call("record", g.choice(names), "tv3")
        elif x < .9:
            c = call("contains", g.choice(names))
        else:
            c = call("exclude", "zz")
        c["chain"] = True
        gr["fns"].append(c)
    out = []
    for _ in range(8):
        out.append("g " + g.uword())
        for j in range(1, 8):
            if g.p(.85):
                out.append(" l%s %s" % (LET[j], g.uword()))
    return Case(kind="many group functions").simple(tdef([gr], [({"tv1": "one", "tv2": "two", "tv3": "three"}, "")]), ["\n".join(out)])


def joins(g):
    """values made of a dozen pieces"""
    jf = g.choice([[call("joinmatches")], [call("joinmatches", ",")], [call("to_list"), call("joinmatches")], [call("unrange", "-", ","), call("joinmatches", ",")]])
    gr = group("g*", [line(lit("g "), var("n")), line(lit(" j "), var("j", [pat("ORPHRASE")], jf)), line(lit(" k "), var("k"))])
    if g.p(.5):
        gr["lines"].append(line(var("rest", [pat("_line_")], [call("contains", " m"), call("joinmatches")], line=True)))
    out = []
    for _ in range(3):
        out.append("g " + g.uword())
        for _ in range(many(g)):
            out.append(g.choice([" j %s", " j %s", " j a %s", " j %s", " m %s", " k %s"]) % (g.uword() if "unrange" not in jf[0]["f"] else g.choice(["1-3", "5", "9-11"])))
    return Case(kind="many pieces").simple(tdef([gr]), ["\n".join(out)])


def columns(g):
    n = g.randint(10, 14)
    hs = ["C%s" % LET[j] * g.randint(1, 3) for j in range(n)]
    ws = [len(h) + g.randint(1, 6) for h in hs]
    txt = "".join(h.ljust(w) for h, w in zip(hs, ws))
    gr = group("h*", [line(hdr(txt.rstrip() + " ", g.choice([0, 0, 10, n, n - 2])))])
    out = [txt]
    for _ in range(8):
        row = "".join((g.choice(["", g.word(), "a b", "x", "longer"]))[:w].ljust(w) for w in ws)
        out.append(row if g.p(.4) else row.rstrip() if g.p(.6) else row[:g.randint(0, len(row))])
    return Case(kind="many columns").simple(tdef([gr]), ["\n".join(out)])


def defaults(g):
    n = many(g)
    gs = []
    for k in range(2):
        ls = [line(lit("g%s " % LET[k]), var("n", dflt=g.choice([None, "dn"])))]
        ls += [line(lit(" l%s%s " % (LET[k], LET[j])), var("n%d" % j, dflt=g.choice([None, "d%d" % j, "tv%d" % (j % 3), "none"])), *([lit(" "), var("m%d" % j, dflt="dm")] if g.p(.3) else [])) for j in range(n)]
        gs.append(group("g%d*" % k if g.p(.7) else "g%d" % k, ls, default=g.choice([None, None, "gd"])))
    out = []
    for _ in range(6):
        k = g.randint(0, 1)
        out.append("g%s %s" % (LET[k], g.uword()))
        for j in g.sample(range(n), g.randint(0, n)):
            m = [t for t in gs[k]["lines"][j + 1]["toks"] if t["t"] == "var"]
            out.append(" l%s%s %s" % (LET[k], LET[j], " ".join(g.uword() for _ in m)))
    return Case(kind="many defaults").simple(tdef(gs, [({"tv0": "zero", "tv1": "one"}, "")]), ["\n".join(out)] + (["junk"] if g.p(.3) else []))


def variables(g):
    n = many(g)
    vs = []
    for _ in range(g.choice([1, 2, 11])):
        vs.append(({"nv%d" % j: g.uword() for j in g.sample(range(n), g.randint(1, n))}, g.choice(["", "", "vars", "nv.p%d" % g.randint(1, 12), "nv1", "nv10"])))
    tops = [group("s*", [line(lit("s "), var("x"))] + [line(setv("f%d" % j, "nv%d" % j)) for j in range(n)]),
            group("l*", [line(lit("l "), var("y", [], [call("let", "z%d" % j, "nv%d" % j) for j in range(n)]))])]
    c = Case(kind="many variables").new(vars={"nv%d" % j: "base" for j in range(0, n, 3)})
    c.add_template(tdef(tops, vs))
    if g.p(.5):
        c.add_vars({"nv1": "new", "nv10": "ten"})
    for _ in range(g.randint(1, 3)):
        c.add_input("s %s\nl %s" % (g.uword(), g.uword()))
    return c.parse(one=True).result()


def outputs(g):
    """a dozen outputs, one after the other"""
    n = many(g)
    outs = []
    for j in range(n):
        kw = {}
        ret = ["self"]
        if g.p(.3):
            ret, kw = ["file"], {"url": "out/", "filename": "f%d.txt" % j}
        outs.append(output("o%d" % j, cond=g.choice([None, None, ("mode", "x"), ("mode", "y")]), fns=[call("macro", g.choice(["o_wrap", "o_wrap", "o_len", "o_first"]))] if ret == ["self"] else [],
                           fmt="json" if ret == ["file"] else "raw", ret=ret, **kw))
    c = Case(kind="many outputs").new(vars={"mode": "x"})
    c.add_template(tdef([kgroup(0, "r*")], outputs=outs, macros=["o_wrap", "o_len", "o_first"]))
    c.add_input(ktext(g, [0])).add_input(ktext(g, [0]))
    c.parse(one=True).result()
    for o in outs:
        if o["ret"] == ["file"]:
            c.read_file("out/" + o["ftext"], decode="json")
    return c


def goutputs(g):
    """a dozen groups with outputs of their own"""
    n = many(g)
    tops = [kgroup(j, "r%d*" % j, output=g.choice(["o%d" % j, "o%d" % j, "", "o1, o10"])) for j in range(n)]
    outs = [output("o%d" % j, fns=[call("macro", g.choice(["o_wrap", "o_len"]))]) for j in range(n)]
    c = Case(kind="many group outputs").new()
    c.add_template(tdef(tops, outputs=outs, macros=["o_wrap", "o_len"]))
    c.add_input(ktext(g, range(n), (15, 25)))
    return c.parse(one=True).result()


def table(g):
    """a table with a dozen rows and columns"""
    n = many(g)
    cols = ["c%02d" % j for j in range(n)]
    gr = group("recs*", [line(lit("r "), var(cols[0]))] + [line(lit(" l%s " % LET[j]), var(cols[j])) for j in range(1, n)])
    ta = {"path": ["recs"], "sorted": cols, "order": []}
    if g.p(.4):
        ta["headers"] = g.sample(cols, g.randint(2, n))
    if g.p(.4):
        ta["missing"] = "-"
    c = Case(kind="large table").new()
    c.add_template(tdef([gr], outputs=[output(fmt=g.choice(["table", "csv"]), **ta)]))
    for _ in range(g.choice([1, 2])):
        out = []
        for _ in range(many(g)):
            out.append("r " + g.uword())
            for j in g.sample(range(1, n), g.randint(n // 2, n - 1)):
                out.append(" l%s %s" % (LET[j], g.uword()))
        c.add_input("\n".join(out))
    return c.parse(one=True).result()


def keys(g):
    """tables of a dozen keys and more"""
    n = many(g)
    ks = ["k%d" % j for j in range(n)]
    form = g.choice(["python", "json", "block", "csv", "ini"])
    c = Case(kind="many keys").new()
    inc = "tab.txt" if g.p(.3) else ""
    if form == "csv":
        cols = ["key"] + ["f%d" % j for j in range(g.choice([1, 3, 11]))]
        x = Ld("csv", text="\n".join([",".join(cols)] + [",".join([k] + [g.uword() for _ in cols[1:]]) for k in ks]), inc="")
    elif form == "ini":
        x = Ld("ini", text="\n".join("[%s]\n%s" % (s, "\n".join("%s = %s" % (k, g.uword()) for k in ks)) for s in ["s%d" % j for j in range(g.choice([1, 3]))]))
    else:
        x = Ld(form, {k: g.choice([g.uword(), {"f%d" % j: g.uword() for j in range(12)}, [g.uword()] * 2, "1"]) for k in ks})
    path = "tab" if form != "ini" else "tab.s0"
    if inc:
        c.write_file(inc, x.whole(True) if form not in ("csv", "ini") else x.text)
        x = Ld(form, x.value, text="" if form in ("csv", "ini") else x.text, inc=inc)
        if form not in ("csv", "ini"):
            c.ops[-1]["text"] = c.impl[-1]["text"] = x.whole()
    tops = [group("lk*", [line(lit("lk "), var("l", [], [call("lookup", path, kw=g.choice([{}, {"add_field": "found"}]))]))]),
            group("rl*", [line(lit("rl "), var("r", [pat("ORPHRASE")], [call("rlookup", "rt", kw={"add_field": "rf"}, order=ks)]))])]
    c.add_template(tdef(tops, lookups={"tab": x, "rt": {k: "v" + k for k in ks}}))
    c.add_input("\n".join("lk " + k for k in ks + ["k", "k99"]) + "\n" + "\n".join("rl %s" % g.choice(["a%sb", "xk", "%s", "x %s y"]).replace("%s", g.choice(ks)) for _ in range(6)))
    return c.parse(one=True).result()


def extension(g):
    """an extension with a dozen groups, some picked by place"""
    n = many(g)
    e = tdef([kgroup(j, "e%d*" % j) for j in range(n)])
    f = g.choice([{}, {"groups": ["10", "2"]}, {"groups": ["1"]}, {"groups": ["e1*", "11"]}, {"groups": ["10"]}])
    d = tdef([kgroup(14, "own*"), X.ext("ext.txt", e, **f), kgroup(15, "own2*")])
    p = X.plain(d)
    c = Case(kind="many groups extended").new()
    for path, (what, x) in X.files(d).items():
        c.write_file(path, what if isinstance(what, str) else X.text(what, wrap=g.p(.5)))
    c.add_template(c.define(p, text=X.text(d)))
    c.add_input(ktext(g, list(range(n)) + [14, 15], (20, 30)))
    return c.parse(one=True).result()


def macros(g):
    n = many(g)
    names = {"mac%d" % j: g.choice(["m_a", "m_b", "m_c", "m_up", "m_none", "m_true"]) for j in range(n)}
    ch = [call("macro", m) for m in g.sample(list(names), g.randint(7, n))]
    c = Case(kind="many macros").new()
    c.add_template(tdef([group("c*", [line(lit("c "), var("v", [], ch)), line(lit(" d "), var("w", [], [call("macro", "mac1")])), line(lit(" e "), var("x", [], [call("macro", "mac10")]))])], macros=names))
    c.add_input("\n".join("c %s\n d %s\n e %s" % (g.uword(), g.uword(), g.uword()) for _ in range(4)))
    return c.parse(one=True).result()


def params(g):
    n = many(g)
    ins = [{"name": "in%d" % j, "groups": ["all"], "data": [], "urls": [], "load": g.choice(["python", "yaml", "json"]), "param": {"p%d" % i: g.choice([g.uword(), 5, [1, "a"]]) for i in range(g.choice([1, 3, 12]))}} for j in range(n)]
    c = Case(kind="many inputs with parameters").new()
    c.add_template(tdef([kgroup(0, "r*")], inputs=ins))
    return c.get_input_load()


def objects(g):
    n = g.randint(6, 9)
    c = Case(kind="many objects")
    for j in range(n):
        c.on("o%d" % j).new(vars={"v1": "of%d" % j} if g.p(.6) else None)
        if g.p(.5):
            c.func("match", "cfm", g.choice(["cf_up", "cf_up2"][:1]))
        c.add_template(tdef([group("c*", [line(lit("c "), var("v", [], [call("macro", "mm"), call("let", "lv", "v1"), call("record", "rr")])), line(setv("x", "v1")), line(lit(" d "), setv("y", "rr"))])],
                            macros={"mm": g.choice(["m_a", "m_b", "m_c"])}))
    for _ in range(12):
        c.on("o%d" % g.randint(0, n - 1))
        x = g.random()
        if x < .5:
            c.add_input("c %s\n d" % g.uword())
        elif x < .8:
            c.parse(one=True)
        else:
            c.result()
    for j in range(n):
        c.on("o%d" % j).parse(one=True).result()
    return c


SCALE = {"C01": [chains], "C02": [deep, wide], "C03": [wide, deep, dynamic], "C04": [dynamic], "C05": [chains], "C06": [gchains], "C07": [deep], "C08": [defaults], "C09": [joins],
         "C10": [wide], "C11": [columns], "C12": [texts, inputs], "C13": [lambda g: texts(g, True)], "C14": [templates], "C15": [objects], "C16": [inputs], "C17": [variables],
         "C18": [templates], "C19": [outputs, goutputs, table], "C21": [keys], "C22": [extension], "C23": [templates], "C24": [macros], "C25": [files], "C29": [params], "C32": [keys]}


def c36(seed, n, tier, prop=None):
    for f in SCALE[prop]:
        for k in range(n):
            yield f(rng(seed, "scale" + prop, k))


def part(prop):
    def go(w, seed, tier, round_):
        return list(c36(seed, 24 if tier != "thorough" else 150, tier, prop))
    return go
