"""The cases of the properties about several templates, macros, files, the cache, the
command line, what belongs to the caller, and the forms of templates."""
import json
import re

import case as C
from case import Case, tdef
from checks import gen_part, rng, tree_groups
from checks2 import HOSTS, groups, texts
from tmpl import *


# =============================================================== C23 several templates
def a_template(g, n, keys, deep=True, shared=()):
    """a small template that has a bit of everything, under names other templates use too"""
    tops = groups(g, keys, n=(1, 2), maxd=1)
    tops.append(group("mc*", [line(lit("mc "), var("mv", [], [call("macro", "same")]))]))
    tops.append(group("lk*", [line(lit("lk "), var("lv", [], [call("lookup", "tab", kw={"add_field": "found"})])), line(setv("own", "own"))]))
    if g.p(.3):
        tops.append(group("use*", [line(lit("lk "), var("uv", [], [call("lookup", kw={"template": g.choice(["t0", "two", "0", "1"]) + ".mc", "add_field": "tf"})]))]))
    ins = []
    if g.p(.4):
        ins = [{"name": g.choice(["in1", "Default_Input"]), "groups": ["all"], "data": texts(g, tops, (1, 2))}]
    outs = [output(fns=[call("macro", "wrap")])] if g.p(.2) else []
    return tdef(tops, [({"own": "of-%s" % n}, g.choice(["", "", "vars"]))] if g.p(.7) else [], ins, lookups={"tab": {"v1": "tab-%s" % n, "7": n}} if g.p(.8) else {},
                macros=dict({"same": g.choice(["m_a", "m_b", "m_c", "m_h1", "m_h2"])} if g.p(.8) else {}, **({"wrap": g.choice(["o_wrap", "o_len"])} if g.p(.7) else {})),
                outputs=outs, method=g.choice(["per_input"] * 3 + ["per_template"])), tops


def c23(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c23", k)
        c = Case(kind="several templates").new(vars={"own": "base", "x": 1} if g.p(.5) else None)
        names, every = [], []
        for m in range(g.choice([1, 2, 2, 3])):
            keys = iter(g.KEYS)
            nm = g.choice([None, "t0", "two", "t%d" % m])
            if g.p(.6):
                kids = []
                for j in range(g.choice([1, 2, 3])):
                    d, tops = a_template(g, "%d.%d" % (m, j), iter(g.KEYS))
                    d["name"] = g.choice(["", "", "ka", "kb", "two"])
                    kids.append(d)
                    every.append(tops)
                    names.append(d["name"] or str(j))
                p, _ = a_template(g, "p%d" % m, keys)
                p["name"] = g.choice(["", "par"])
                if g.p(.5):      # what is around is dropped
                    p.update(groups=[], lookups={}, inputs=[], outputs=[], macros={}, vars=[], method="per_input")
                p["kids"] = kids
                fl = g.choice([None, None, ["ka"], ["ka", "kb"], ["two"], ["nosuch"], ["par"], [nm or "_root_template_"]])
                c.add_template(p, name=nm, filters=fl)
            else:
                d, tops = a_template(g, str(m), keys)
                every.append(tops)
                fl = g.choice([None, None, None, [nm or "_root_template_"], ["ka"], ["ka", "two"]])
                names.append(nm or "_root_template_")
                c.add_template(d, name=nm, filters=fl)
            if g.p(.2):
                c.add_vars({"own": g.uword()})
            if g.p(.2):
                c.add_lookup("tab", {"v1": "added", "v2": "v"})
        for _ in range(g.randint(1, 5)):
            x = g.text(g.choice(every), reps=(1, 2), noise=0) + "".join("\n%s %s" % (g.choice(["mc", "lk"]), g.choice(["v1", "v2", "7"])) for _ in range(g.randint(0, 3)))
            c.add_input(x, name=g.choice([None, None, "in1"]), template=g.choice(["_all_", "_all_", g.choice(names), "_root_template_", "par"]))
        c.parse(one=True).result(structure=g.choice(["list", "list", "dictionary"]))
        if g.p(.3):
            c.clear_result(g.choice(names)).result()
        yield c


# =============================================================== C24 macros and functions of the user
def c24(seed, n, tier):
    mm = ["m_up", "m_none", "m_true", "m_false", "m_odd", "m_len", "m_tup", "m_list", "m_dict", "m_empty", "m_zero", "m_a", "m_b", "m_c", "m_h1", "m_h2"]
    gm = ["g_false", "g_true", "g_none", "g_add", "g_count", "g_new", "g_nest", "g_hasb"]
    im = ["i_up", "i_sub", "i_true", "i_false"]
    om = ["o_len", "o_wrap", "o_first", "o_false"]
    for k in range(n):
        g = rng(seed, "c24", k)
        c = Case(kind="macros and functions of the user").new()
        cust = {}
        for sc, nm, fns in (("match", "cfm", ["cf_up", "cf_sfx", "cf_odd", "cf_true", "cf_nf"]), ("group", "cfg", ["cg_tag", "cg_false", "cg_up"]),
                            ("input", "cfi", ["ci_up", "ci_stop"]), ("output", "cfo", ["co_wrap"]), ("macro", "ma", ["cm_up"])):
            if g.p(.4):
                f = g.choice(fns)
                own = g.p(.2)
                c.func(sc, f if own else nm, f, own=own)
                cust[sc] = f if own else nm
        if g.p(.2):
            c.func("match", "upper", "cf_sfx")      # in place of a function of that name
        if g.p(.15):
            c.func("group", "contains", "cg_tag")
        both = None
        for m in range(g.choice([1, 1, 2])):
            macros = {"ma": g.choice(mm), "mb": g.choice(mm), "ga": g.choice(gm), "gb": g.choice(gm), "ia": g.choice(im), "oa": g.choice(om)}
            if {macros["ma"], macros["mb"]} == {"m_h1", "m_h2"}:
                macros["mb"] = "m_a"
            macros = {x: macros[x] for x in g.sample(sorted(macros), g.randint(2, 6))}

            def one():
                x = g.random()
                if x < .5:
                    return [call("macro", g.choice(["ma", "mb"]))]
                if x < .7 and "match" in cust:
                    return [call(cust["match"], *g.choice([[], ["arg"]]), kw=g.choice([{}, {}, {"sfx": "kw"}]))]
                return [call(g.choice(["upper", "append"]), *(["-x"]))] if g.p(.5) else []

            def chain():
                fs = one()
                # what follows a macro has to take what it makes
                if g.p(.4) and not (fs and (fs[0]["f"] == "macro" and macros.get(fs[0]["a"][0]["s"]) in ("m_len", "m_list", "m_dict", "m_zero"))):
                    fs += one()
                return [call("upper") if f["f"] == "upper" else f for f in fs]
            gf = []
            for _ in range(g.choice([0, 1, 1, 2])):
                x = g.random()
                if x < .6:
                    ns = g.sample(["ga", "gb"], g.choice([1, 2]))
                    gf.append(call("macro", ", ".join(ns), names=ns))
                elif "group" in cust:
                    gf.append(call(cust["group"], *g.choice([[], ["gt"]])))
                else:
                    gf.append(call("contains", "b"))
            if len(gf) > 1:
                gf = [dict(gf[0], chain=True)] + gf[1:]
            tops = [group("m*", [line(lit("m "), var("a", [], chain())), line(lit(" n "), var("b", [], chain()))], fns=gf),
                    group("k*", [line(lit("k "), var("b", [], chain()))])]
            fi = [call("macro", "ia")] if g.p(.5) else []
            if "input" in cust and g.p(.5):
                fi.append(call(cust["input"]))
                g.shuffle(fi)
            x = [c24_text(g) for _ in range(g.randint(1, 2))]
            ins = [{"name": "in1", "groups": ["all"], "data": x[:1], "fns": fi, "chain": g.p(.5)}]
            fo = [call("macro", "oa")] if g.p(.5) else []
            if "output" in cust and g.p(.5):
                fo.append(call(cust["output"]))
            # a macro text that cannot be read takes nothing away from the others
            bad = g.choice(["<macro>\ndef ma(data:\n    return 'bad'\n</macro>", "<macro>\ndef ok(data):\n    return data\n  def ga(data):\n    return False\n</macro>",
                            "<macro>\nhelper = 5\n</macro>", "<doc>\n<macro>def ma(data): return 'bad'</macro> in words\n</doc>"]) if g.p(.25) else ""
            c.add_template(tdef(tops, inputs=ins, macros=macros, outputs=[output(fns=fo)] if fo else [], raw=bad), name="t%d" % m)
        for _ in range(g.randint(1, 3)):
            c.add_input(c24_text(g), template="_all_")
        c.parse(one=True).result()
        yield c


def c24_text(g):
    out = []
    for _ in range(g.randint(1, 5)):
        w = g.choice(["m", "m", "k"])
        out.append("%s %s" % (w, g.choice([g.uword(), "x%s" % g.uword(), "ab"])))
        if w == "m" and g.p(.7):
            out.append(" n " + g.uword())
    return "\n".join(out)


# =============================================================== C25 data from files
def c25(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c25", k)
        base = g.choice(["", "", "data/", "./"])
        c = Case(kind="data from files")
        if g.p(.3):
            c.env = "tdir"
        tops = groups(g, g.keyiter(), n=(1, 2), maxd=1)
        tops.append(group("st*", [line(lit("st "), var("s0")), line(setv("f", "fname"))]))
        text = lambda: g.text(tops, reps=(1, 2), noise=0) + "\nst " + g.choice([g.uword(), "é" + g.uword()])
        files, dirs = [], []
        for d in g.sample(["d1", "d2", "data/d1", "data", "tdir"], g.randint(1, 4)):
            for f in g.sample(["a.txt", "b.log", "c.txt", "noext", "d.cfg.txt", "e.LOG", "f.mtxt", "g.txt.bak", "h.log.1"], g.randint(1, 4)):
                files.append("%s/%s" % (d, f))
            dirs.append(d)
        if g.p(.3):
            files.append("data/d1/sub/z.txt")
            if "data/d1" not in dirs:
                dirs.append("data/d1")
        if c.env and g.p(.6):       # the same name below the templates directory
            for f in g.sample(files, min(2, len(files))):
                if not f.startswith("tdir/"):
                    files.append("tdir/" + f)
                    if "tdir/" + f.rsplit("/", 1)[0] not in dirs:
                        dirs.append("tdir/" + f.rsplit("/", 1)[0])
        for f in files:
            c.write_file(f, text())
        for d in dirs:
            c.listdir(d)
        strip = lambda p: p[len(base):] if base not in ("", "./") and p.startswith(base) else p
        if base == "data/":
            urls = [strip(x) for x in files + dirs if x.startswith("data/")]
        else:
            urls = [x for x in files + dirs]
        if base == "./":
            urls, base = [x for x in files + dirs], ""
        ins = []
        for j in range(g.choice([1, 1, 2])):
            if not urls:
                break
            u = g.sample(urls, min(len(urls), g.choice([1, 1, 2])))
            ins.append({"name": ["in1", "in2"][j], "groups": ["all"], "data": [], "urls": u, "exts": g.choice([[], [], ["txt"], ["log", "txt"], ["nope"]]),
                        "filts": g.choice([[], [], [], [Lit("t")], [Seq(Lit("."), Cls("S"), Cls("S"))], [Lit("txt"), Lit("c")], [Alt(Lit("a"), Lit("g.txt"))], [Set("be")]]),
                        "load": g.choice(["python", "yaml", "json"]), "inattr": g.p(.5)})
        if ins and g.p(.1):       # a further one of the same name
            ins.append({"name": "in1", "groups": ["all"], "data": [], "load": "python", "param": {"who": "me"}})
        atbase = base and g.p(.5)
        if base and urls and g.p(.3):
            tops[0]["input"] = ""
        c.new(base="" if atbase else base)
        d = tdef(tops, [({"fname": "getfilename"}, g.choice(["", "vars", "vars.*"[:4]]))], ins, method=g.choice(["per_input"] * 3 + ["per_template"]), base=base if atbase else "")
        c.add_template(d)
        if g.p(.4):
            c.get_input_load()
        for _ in range(g.randint(0, 3)):
            x = g.choice(files + dirs + [f[5:] for f in files if f.startswith("tdir/")][:2] * 2)
            c.add_input(x, name=g.choice([None, "in1", "in3"]))
        if g.p(.3):
            c.add_input(text())
        c.parse(one=True).result()
        if g.p(.4):
            for f in g.sample(files, 1):
                c.write_file(f, text())      # read when parsed
            c.clear_result().parse(one=True).result()
        if g.p(.2):
            c.set_input(g.choice(files)).parse(one=True).result()
        yield c


# =============================================================== C26 the cache of functions
def c26(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c26", k)
        c = Case(kind="cache of functions")
        c.job["env"] = {"TTPCACHEFOLDER": g.choice(["cdir", "cdir", "nodir/x", "afile"])}
        c.write_file("afile", "text").write_file("cdir/other", "x")
        for r in range(g.randint(1, 3)):
            c.cache(g.choice(["none", "full", "full", "cut", "cut", "cut", "head", "text", "empty", "other", "version", "major", "class", "dir"]), g.random())
            keys = g.keyiter()
            c.on("o%d" % r).new()
            tops = groups(g, keys, n=(1, 2), maxd=1, fns=.6)
            tops.append(group("mc*", [line(lit("mc "), var("mv", [], [call("macro", "m_a"), call("lookup", "tab", kw={"add_field": "lf"})]))], fns=[call("set", "x", "y")]))
            c.add_template(tdef(tops, [({"h": "gethostname"}, "vars")], lookups={"tab": {"v1-a": "one"}}, macros=["m_a"], outputs=[output(fns=[call("macro", "o_wrap")])] if g.p(.3) else []))
            for _ in range(g.randint(1, 2)):
                c.add_input(g.text(tops, reps=(1, 2), noise=0) + "\nmc v1")
            c.parse(one=True).result()
        yield c


def c26b(seed, n, tier):
    """several processes start with the same cache at once"""
    for k in range(n):
        g = rng(seed, "c26b", k)
        c = Case(kind="processes starting at once")
        c.job["env"] = {"TTPCACHEFOLDER": "cdir"}
        c.write_file("cdir/other", "x").cache(g.choice(["none", "none", "cut", "full", "version"]), g.random())
        tops = groups(g, g.keyiter(), n=(1, 2), maxd=1, fns=.6)
        d = tdef(tops, name="")
        c.cli(d, g.text(tops, noise=0), fmt="json", times=g.choice([3, 4, 6]), script=g.p(.3))
        yield c


# =============================================================== C27 one call, and the command line
def c27(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c27", k)
        c = Case(kind="command line").new()
        tops = groups(g, g.keyiter(), n=(1, 2), maxd=1)
        tops.append(group("st*", [line(lit("st "), var("s0")), line(setv("s1", "cv"))]))
        text = lambda: g.text(tops, reps=(1, 3), noise=0) + "\nst " + g.uword()
        ins, base = [], ""
        if g.p(.4):
            ins = [{"name": g.choice(["in1", "Default_Input"]), "groups": ["all"], "data": [text() for _ in range(g.randint(1, 2))]}]
        elif g.p(.4):
            base = "pre/"
            c.write_file("pre/f.txt", text())
            ins = [{"name": "in1", "groups": ["all"], "data": [], "urls": ["f.txt"], "exts": []}]
        d = tdef(tops, [({"cv": "tag"}, "")] if g.p(.3) else [], ins, method=g.choice(["per_input", "per_input", "per_template"]))
        if g.p(.2):
            kid = dict(d, name=g.choice(["ka", "_root_template_"]))
            d = tdef([], kids=[kid, dict(tdef([tops[0]]), name="kb")])
        vs = {"cv": g.choice([g.uword(), 5, True, None, ["a", "b"]])} if g.p(.6) else None
        data = g.choice([None, text(), "file"]) if ins else g.choice([text(), "file"])
        if data == "file":
            c.write_file("in/data.txt", text())
            data = "in/data.txt"
        if g.p(.75):
            c.cli(d, data, vars=vs, base=base, fmt=g.choice(["json", "yaml", "raw", "pprint", "nosuch", "JSON", "Yaml"]), structure=g.choice(["list", "dictionary"]),
                  templates=g.choice([None, None, None, ["_root_template_"], ["ka"], ["kb", "ka"]]), named=g.choice(["", "", "tvar"]), multi=d["method"] == "per_input" and not d["kids"] and g.p(.15),
                  one=g.p(.3), script=g.p(.5), long=g.p(.3), log=g.choice(["", "", "DEBUG", "ERROR"]))
        for _ in range(g.randint(1, 3)):
            c.quick_parse(g.choice([data or text(), text()] + ([None] if ins else [])), d, vars=vs, toint=g.p(.2), base=base, structure=g.choice(["list", "dictionary", "flat_list"]),
                          parse=g.choice([None, {"one": True}]))
        yield c


# =============================================================== C28 what belongs to the caller
def c28(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c28", k)
        c = Case(kind="what belongs to the caller")
        vs = {"va": g.choice(["a", ["p", "q"], {"x": ["y"]}]), "vb": g.choice([g.uword(), 5, {"k": "w"}]), "host": "gethostname", "shared": "mine"}
        vs = {x: vs[x] for x in g.sample(sorted(vs), g.randint(1, 4))}
        c.userdata("uv", vs)
        objs = ["p", "q"][:g.choice([1, 1, 2])]
        held = ["uv"]
        for ob in objs:
            c.on(ob).new(vars=vs).with_("vars", "uv")
            if g.p(.4):
                v2 = {"va": g.choice([["z"], "new"]), "vc": {"in": [1]}}
                c.userdata("u2" + ob, v2).add_vars(v2).with_("vars", "u2" + ob)
                held.append("u2" + ob)
            tops = groups(g, g.keyiter(), n=(1, 1), maxd=1)
            rec = g.choice([[call("record", "shared")], [call("count", "shared2")], [call("let", "vn", "va")], []])
            tops.append(group("st*", [line(lit("st "), var("s0", [], rec)), line(setv("s1", "va")), line(setv("s2", "vb")), line(lit(" more "), setv("s3", "va"))],
                              fns=[call("set", g.choice(["va", "vc"]), "s4")] if g.p(.5) else []))
            tops.append(group("{{ vb }}.dy*", [line(lit("dy "), var("d0", dflt="nn"))]) if not isinstance(vs.get("vb"), (dict, int)) and "vb" in vs else group("dz*", [line(lit("dy "), var("d0"))]))
            st = g.p(.4)
            ins = []
            if st:
                ins = [{"name": "sin", "groups": ["all"], "data": [], "fns": [call("macro", "ij"), call("macro", "ik")][:2], "chain": True}]
            vt = [({"loc": g.uword(), "h2": "gethostname"}, g.choice(["", "vars"]))] if g.p(.5) else []
            c.add_template(tdef(tops, vt, ins, macros={"ij": "i_join", "ik": "i_key"}, method="per_input", lookups={"tab": {"v1": "x"}}))
            for j in range(g.randint(1, 3)):
                x = g.text(tops, reps=(1, 2), noise=0) + "\nst %s\n more" % g.uword() + "\ndy " + g.uword()
                if st and g.p(.5):
                    v = x.split("\n") if g.p(.6) else {"text": x, "extra": [1, {"y": "z"}]}
                    if isinstance(v, list) and not v:
                        continue
                    nm = "d%d%s" % (j, ob)
                    c.userdata(nm, v).add_input(v, name="sin").with_("data", nm)
                    held.append(nm)
                else:
                    c.add_input(x)
        for ob in objs * g.choice([1, 2]):
            c.on(ob).parse(one=True)
            nm = "r%d%s" % (g.fresh("") and len(held), ob)
            if g.p(.8):
                c.keep(nm, structure=g.choice(["list", "dictionary", "flat_list"])).clear_result()
                held.append(nm)
            for h in g.sample(held, min(len(held), 2)):
                c.look(h)
        for h in held:
            c.look(h)
        yield c


# =============================================================== C29 parameters of inputs
def c29(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c29", k)
        c = Case(kind="parameters of inputs")
        fl = g.p(.4)        # some have data in files
        if fl:
            for f in ("pre/a.txt", "pre/b.log"):
                c.write_file(f, "x " + g.uword())
        c.new(base="pre/" if fl else "")
        for m in range(g.choice([0, 1, 1, 2, 3])):
            ins = []
            tops = [group("x*", [line(lit("x "), var("a"))])]
            for j in range(g.choice([0, 1, 2, 3])):
                if g.p(.25):
                    ins.append({"name": g.choice(["in1", "in2", "Default_Input"]), "groups": ["all"], "data": ["x %s" % g.uword()]})
                    continue
                v = {x: g.choice([g.uword(), 5, True, None, ["a", {"b": 1}], {"c": {"d": ["e"]}}, "it's", "a b: c"]) for x in g.sample(["host", "devices", "p_1", "opts", "user"], g.randint(0, 4))}
                f = g.choice(["python", "json", "yaml"])
                ins.append({"name": g.choice(["in1", "in2", "in3", "Default_Input"]), "groups": ["all"], "data": [], "load": f, "param": v, "say": g.p(.5)})
                if fl and g.p(.6):
                    ins[-1].update(urls=g.choice([["a.txt"], ["b.log", "a.txt"], ["a.txt", "b.log"]]), exts=g.choice([[], [], ["txt"]]), inattr=g.p(.2))
            d = tdef(tops, inputs=ins, name=g.choice(["", "", "tn%d" % m]))
            if g.p(.2):
                d = tdef([], kids=[d])
            c.add_template(d, name=g.choice([None, "t%d" % m, "same"]))
        c.get_input_load()
        if g.p(.5):
            c.add_input("x 1", name=g.choice([None, "in1", "new"]), template="_all_").get_input_load()
            c.parse(one=True).result().get_input_load()
        if g.p(.3):
            c.clear_input(g.choice([None, "same"])).get_input_load()
        yield c


# =============================================================== C30 forms of templates
ALIAS = {"group": ["group", "group", "grp", "g"], "vars": ["vars", "vars", "v", "variables"], "input": ["input", "in", "i"], "output": ["output", "out", "o"]}


def vary(g, d):
    """the template's text written in another way, and whether it stands in a template tag"""
    kinds = []
    for part in ("vars", "macros", "lookups", "inputs", "groups", "outputs"):
        p = dict(tdef(), **{part: d[part]})
        if part == "groups":
            p["vars"] = []
        t = C.template_text(p)
        t = t[len("<template>\n"):-len("\n</template>")]
        if t.strip():
            if part == "groups":
                t = vary_groups(g, t)
            kinds.append(t)
    if g.p(.6):
        g.shuffle(kinds)
    for _ in range(g.choice([0, 0, 1, 2])):
        kinds.insert(g.randint(0, len(kinds)), g.choice(["<!-- note {{ no }} <group> -->", "<doc>\nabout it\n</doc>", "", "<!--\nlines\nmore\n-->"]))
    s = "\n".join(kinds)
    for t, names in ALIAS.items():
        a = g.choice(names)
        if a != t:
            s = re.sub(r"<(/?)%s(?=[ >/])" % t, lambda m: "<%s%s" % (m.group(1), a), s)
    at = "".join(' %s="%s"' % kv for kv in (("results", d["method"]), ("name", d["name"])) if kv[1] not in ("", "per_input"))
    if at or g.p(.4):
        s = "%s<template%s>%s%s%s</template>%s" % (g.choice(["", "\n", "  \n"]), at, g.choice(["\n", "\n\n"]), s, g.choice(["\n", "\n  \n"]), g.choice(["", "\n"]))
    else:
        s = g.choice(["", "\n", "\n\n"]) + s + g.choice(["", "\n"])
    return s


def vary_groups(g, t):
    """lines of groups in other words"""
    out, pre = [], ""
    for ln in t.split("\n"):
        if ln.startswith("<vars"):      # expressions given as variables
            pre = "x"
        if pre or ln.startswith("<"):
            if not pre and g.p(.3):
                ln = re.sub(r' (\w+)="([^"\']*)"', lambda m: g.choice([' %s = "%s"', " %s='%s'", '  %s="%s"']) % m.groups(), ln)
            out.append(ln)
            if ln.startswith("</vars"):
                pre = ""
        else:
            if g.p(.25):
                ln = re.sub(r"{{ ([a-z_0-9]+)( \||  *}})", lambda m: g.choice(["{{%s%s", "{{  %s%s"]) % m.groups(), ln)
            if g.p(.2) and "&" not in ln and ln.strip() and "]]" not in ln:
                ln = "<![CDATA[%s]]>" % ln
            elif g.p(.15):
                m = re.match(r"( *)([a-z])", ln)
                if m:
                    ln = m.group(1) + "&#%d;" % ord(m.group(2)) + ln[m.end():]
            if g.p(.15):
                ln += g.choice([" ", "  ", "\t"])
            out.append(ln)
        if g.p(.15) and not pre:
            out.append(g.choice(["", "   ", "## comment {{ com }}", "  ## another", "  ## note {{ com }}", "\t## note {{ com }}", "## note {{ com }} {{ x }}", "<!-- {{ x }} -->", "\t"]))
    return "\n".join(out)


def c30(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c30", k)
        c = Case(kind="forms of templates")
        if g.p(.3):
            c.env = "tdir"
        tops = groups(g, g.keyiter(), n=(1, 3), maxd=2)
        for t in tops:
            if g.p(.15):
                t["name"] = None
            if g.p(.2):
                t["default"] = "dd"
            if g.p(.3) and t["name"]:
                t["name"] = t["name"].rstrip("*") + g.choice([".sub", "*.x", "**", ""])
        bare = len(tops) == 1 and not tops[0]["kids"] and g.p(.6) and not rex_vars(tops)
        if bare:
            tops[0].update(name="_anonymous_", default=None)
        d = tdef(tops)
        if not bare:
            tops.append(group("st*", [line(lit("st "), var("s0", [], [call("macro", "m_a"), call("lookup", "tab", kw={"add_field": "lf"})])), line(setv("s1", "va"))],
                              fns=[call("contains", "s0")] if g.p(.5) else []))
            d = tdef(tops, [({"va": "one <&> \"two\""}, ""), ({"vb": 5}, "vars")][:g.randint(0, 2)], [{"name": "in1", "groups": ["all"], "data": texts(g, tops, (1, 1)) or ["x"]}] if g.p(.4) else [],
                     lookups={"tab": {"v1-a": "x & y"}} if g.p(.7) else {}, macros=["m_a"] if g.p(.7) else [], outputs=[output(fns=[call("macro", "o_wrap")])] if g.p(.2) else [],
                     method=g.choice(["per_input"] * 3 + ["per_template"]))
        d["name"] = g.choice(["", "", "nm"])
        if bare:
            t = vary_groups(g, "\n".join(line_text(l) for l in tops[0]["lines"]))
            d["method"] = g.choice(["per_input", "per_input", "per_template"])
            at = "".join(' %s="%s"' % kv for kv in (("results", d["method"]), ("name", d["name"])) if kv[1] not in ("", "per_input"))
            if at or g.p(.4):
                t = "<template%s>%s</template>" % (at, g.choice(["\n%s\n", "\n%s", "%s\n"]) % t)
                if g.p(.4):      # in a template of its own
                    t = "<template>\n%s\n</template>" % t
                    kid = d
                    d = tdef([], kids=[kid])
            else:
                t = g.choice(["\n%s\n", "%s", "%s\n"]) % t
        else:
            t = vary(g, d)
        n_ = c.define(d, text=t)
        x = g.random()
        if x < .3:
            f = "tm/t.txt"
            c.write_file(f, t).new().add_template(n_, path=f)
        elif x < .5 and c.env:
            c.write_file("tdir/sub/t.txt", t).new().add_template(n_, path="sub/t.txt")
        elif x < .7:
            c.new(tmpl=n_)
        elif x < .8:
            c.write_file("t.txt", t).new().add_template(n_, path="t.txt", how="file")
        else:
            c.new().add_template(n_)
        if not d["kids"] and g.p(.2):
            c.reload_as("q", n_)
        for _ in range(g.randint(1, 2)):
            c.add_input(g.text(tops, reps=(1, 3), noise=0) + g.choice(["", "\n  ## note %s" % g.uword(), "\n## note w\n\t## note z"]) + "\nst " + g.choice(["v1", "7"]), template="_all_")
        c.parse(one=True).result(structure=g.choice(["list", "dictionary"]))
        yield c


PROPS = {
    "C23": {"parts": [gen_part(c23, 250)], "cover": ["Start", "NextDatum"]},
    "C24": {"parts": [gen_part(c24, 250)], "cover": ["Start", "func"]},
    "C25": {"parts": [gen_part(c25, 250)], "cover": ["Start", "NextDatum", "write_file", "listdir"]},
    "C26": {"parts": [gen_part(c26, 150), gen_part(c26b, 16)], "cover": ["Start", "cache", "cli"]},
    "C27": {"parts": [gen_part(c27, 120)], "cover": ["cli", "quick_parse"]},
    "C28": {"parts": [gen_part(c28, 250)], "cover": ["Start", "look", "keep", "userdata"]},
    "C29": {"parts": [gen_part(c29, 250)], "cover": ["get_input_load"]},
    "C30": {"parts": [gen_part(c30, 300)], "cover": ["Start", "new"]},
}
