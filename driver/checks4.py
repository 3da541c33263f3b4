"""The cases of the properties about templates and what they are made of: lookups, loaders,
extension, child templates, macros, files."""
import json

import extend as X
from checks import gen_part, rng, tree_groups
from case import Case, Ld, tdef
from checks2 import groups, texts
from tmpl import *

KEYS = ["k1", "k2", "k3", "k-4", "7", "K5"]


# =============================================================== C21 lookups
def value(g, depth=1):
    x = g.random()
    if x < .45 or depth == 0:
        return g.choice([g.uword(), "two words", ""]) if g.p(.8) else g.choice([0, 5, True, None])
    if x < .7:
        return [g.uword() for _ in range(g.randint(0, 2))]
    return {g.choice(["f1", "f2", "v"]): value(g, depth - 1) for _ in range(g.randint(1, 2))}


def csv_table(g, names=None):
    """CSV text and its key columns"""
    cols = g.sample(["key", "f1", "f2", "v"], g.randint(2, 4))

    def field(x):
        return '"%s"' % x.replace('"', '""') if "," in x or '"' in x or g.p(.15) else x
    rows = []
    for k in names or g.sample(KEYS, g.randint(0, 4)):
        r = [g.choice([g.uword(), "a,b", 'say "x"', "", "two words"]) for _ in cols]
        r[0] = k
        rows.append(r)
    if g.p(.3) and rows:
        rows.append([rows[0][0]] + [g.uword() for _ in cols[1:]])       # the last row of a key counts
    if g.p(.3) and rows:
        del rows[-1][-1]                                               # a row that ends early
    key = ""
    if g.p(.4):
        n = g.randint(0, len(cols) - 1)
        if all(len(r) == len(cols) for r in rows):
            for r in rows:
                r[0], r[n] = r[n], r[0]
            key = cols[n] if g.p(.9) else "nocol"
        if key == "" and n:
            key = ""
    heads = [g.choice([x, x, x, x, x, " " + x, x + " "]) for x in cols]     # kept as they are
    if key in cols:
        key = heads[cols.index(key)].strip() if g.p(.3) else cols[cols.index(key)]
        heads[cols.index(key)] = key
    for r in rows:
        r[1:] = [g.choice([x] * 9 + [" " + x, x + " "]) for x in r[1:]]
    lines = [",".join(heads)] + [",".join(field(x) for x in r) for r in rows]
    for _ in range(g.choice([0, 0, 1])):
        lines.insert(g.randint(0, len(lines)), "")
    return "\n".join(lines), key


def ini_text(g, secs=None):
    out = []
    if g.p(.3):
        out += ["[DEFAULT]"] + ["%s = %s" % (k, g.uword()) for k in g.sample(["f1", "dd"], 1)]
    for s in secs or g.sample(["sec", "Sec.2", "other one"], g.randint(1, 2)):
        out.append("[%s]" % s)
        for k in g.sample(KEYS + ["f1", "with space"], g.randint(0, 4)):
            out.append("%s%s%s" % (k, g.choice([" = ", "=", ": ", " :  "]), g.choice([g.uword(), "a = b", "a:b", "two words ", ""])))
            if g.p(.15):
                out.append(g.choice(["# comment = 1", "; other", ""]))
    return "\n".join(out)


def a_load(g, c, n, flat=False, secs=None):
    """a table in any of the forms, in the tag or in a file"""
    form = g.choice(["python", "python", "json", "yaml", "block", "csv", "csv", "ini"])
    form = {"yaml": "block"}.get(form, form)
    inc = "tab%d.txt" % n if g.p(.3) else ""
    if form == "csv":
        t, key = csv_table(g)
        if inc and g.p(.5):      # the text, and the file after it
            rows = t.split("\n")
            cut = g.randint(1, len(rows))
            c.write_file(inc, "\n".join(rows[cut:]))
            return Ld("csv", text="\n".join(rows[:cut]), key=key, inc=inc)
        if inc:
            c.write_file(inc, t)
        return Ld("csv", text="" if inc else t, key=key, inc=inc)
    if form == "ini":
        ss = lambda: secs and g.sample(secs, g.randint(1, 2))
        if inc:
            c.write_file(inc, ini_text(g, ss()))
        return Ld("ini", text=ini_text(g, ss()) if not inc or g.p(.5) else "", inc=inc)
    v = {k: value(g, 1 if flat else 2) for k in g.sample(KEYS, g.randint(1, 4))}
    if not flat and g.p(.5):
        v["sub"] = {k: value(g) for k in g.sample(KEYS, g.randint(1, 4))}
    x = Ld(form, v, inc=inc)
    if inc:
        c.write_file(inc, x.whole())
    return x


def c21(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c21", k)
        c = Case(kind="lookups").new()
        src = [group("src.{{ k }}", [line(lit("src "), var("k")), line(lit(" f1 "), var("f1")), line(lit(" f2 "), var("f2"))]),
               group("flat", [line(lit("flat "), var("v"))])]
        two = g.p(.5)
        if two:
            c.add_template(tdef(src, method=g.choice(["per_input", "per_template"])), name="t0")
        tabs = {"tab": a_load(g, c, 1), "ini": Ld("ini", text=ini_text(g, ["sec"]))}
        if g.p(.5):
            tabs["other"] = a_load(g, c, 2)
        order = ["k1", "k", "K5", "x", "7"]
        g.shuffle(order)
        tabs["rl"] = {o: value(g) or "empty" for o in order[:3]}
        tabs["gl"] = {o: [g.choice(["k*", "*1", "K?", "7", "x*y", "*"]) for _ in range(g.randint(1, 2))] for o in ["n1", "n2", "n3"]}

        def mcall(last=False):
            x = g.random()
            kw = {"add_field": g.choice(["found", "v"])} if g.p(.5) else {}
            if x < .5:
                return call("lookup", g.choice(["tab", "tab", "tab.sub", "ini.sec", "other", "other.sub", "nosuch", "rl"]), kw=kw)
            if x < .6:
                return call("lookup", kw=dict(kw, group=g.choice(["dst", "src", "nosuch"])))
            if x < .7 and two:
                return call("lookup", kw=dict(kw, template=g.choice(["t0.src", "t0", "nosuch.src"])))
            if x < .85:
                return call("rlookup", g.choice(["rl", "rl", "nosuch"]), kw=kw, order=order[:3])
            if g.p(.5):
                kw["multimatch"] = True
            if g.p(.3):
                kw["record"] = g.choice(["recg", "recg2"])
            return call("gpvlookup", "gl", kw=kw, order=["n1", "n2", "n3"])
        m1 = mcall()
        rest = [call("joinmatches")] if g.p(.2) and m1["f"] == "lookup" and "add_field" not in m1["kw"] else []
        g1 = group("ma*", [line(lit("ma "), var("m1", [], ([call("upper")] if g.p(.2) else []) + [m1] + rest)), line(lit(" mb "), var("m2", [], [mcall()]))])

        def gcall():
            kw = {"key": g.choice(["g1", "g1", "g2", "nokey"])}
            kw.update(g.choice([{"name": g.choice(["tab", "tab.sub", "ini.sec", "other", "nosuch"])}, {"name": "tab"}, {"group": g.choice(["dst", "src", "nosuch"])}] +
                               ([{"template": g.choice(["t0.src", "nosuch"])}] if two else [])))
            kw.update(g.choice([{}, {}, {"add_field": "gfound"}, {"update": True}, {"replace": False}]))
            return call("lookup", kw=kw)
        g2 = group("ga*", [line(lit("ga "), var("g1")), line(lit(" gb "), var("g2"))] + ([line(setv("gr", "recg"))] if g.p(.3) else []), fns=[gcall()])
        dst = group("dst.{{ k }}", [line(lit("dst "), var("k")), line(lit(" f1 "), var("f1"))])
        tops = [dst, g1, g2] + ([src[0]] if g.p(.4) else [])
        g.shuffle(tops)
        c.add_template(tdef(tops, lookups=tabs), name="t1")
        if g.p(.3):
            c.add_lookup(g.choice(["tab", "new", "other"]), a_load(g, c, 3))
        for _ in range(g.randint(1, 3)):
            x = []
            for _ in range(g.randint(2, 7)):
                w = g.choice(["src", "src", "flat", "ma", "ma", "ga", "ga", "dst", " mb", " gb", " f1", " f2"])
                x.append("%s %s" % (w, g.choice(KEYS + [g.uword(), "xky"])))
            c.add_input("\n".join(x), template="_all_")
        c.parse(one=True).result()
        if g.p(.5):
            (c.spoil() if g.p(.6) else c.clear_result()).parse(one=True).result()
        yield c


# =============================================================== C32 loaders
def c32(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c32", k)
        c = Case(kind="structured text").new(vars={"va": "base"} if g.p(.5) else None)
        vs = []
        for j in range(g.randint(1, 3)):
            if g.p(.7):
                v = {x: g.choice([g.uword(), g.uword(), 5, True, None, ["a", g.uword()], {"x": [1, {"y": "z"}]}, "it's: \"q\" <b> & #c", "é"]) for x in
                     g.sample(["va", "vb", "vc", "vd"], g.randint(1, 3))}
                x = Ld(g.choice(["python", "json", "block", "block"]), v, inc="vars%d.txt" % j if g.p(.3) else "")
                if x.inc:
                    c.write_file(x.inc, x.whole(True))
            elif g.p(.5):
                x = Ld("ini", text=ini_text(g, ["va", "vb"][:g.randint(1, 2)]), inc="vars%d.txt" % j if g.p(.3) else "")
                if x.inc:
                    c.write_file(x.inc, ini_text(g, ["va", "vb"][:g.randint(1, 2)]))
            else:
                x = Ld("csv", text=csv_table(g, g.sample(["va", "vb", "vc"], 2))[0])
            vs.append((x, g.choice(["", "", "vars", "vars.b", "vs*"])))
        tabs = {"tab%d" % j: a_load(g, c, j, flat=True, secs=KEYS[:3]) for j in range(2)}
        tops = [group("st*", [line(lit("st "), var("s0")), line(setv("s1", g.choice(["va", "vb"])))]),
                group("lk*", [line(lit("lk "), var("l0", [], [call("lookup", "tab0", kw={"add_field": "found"})]), lit(" "), var("l1", [], [call("lookup", "tab1")]))])]
        c.add_template(tdef(tops, vs, lookups=tabs))
        x = ["st " + g.uword()]
        for kk in KEYS:
            x.append("lk %s %s" % (kk, g.choice(KEYS)))
        c.add_input("\n".join(x)).parse(one=True).result()
        if g.p(.4):
            c.add_lookup("tab0", a_load(g, c, 5, flat=True, secs=KEYS[:3])).clear_result().parse(one=True).result()
        yield c


# =============================================================== C22 extension
def an_ext(g, n, keys, depth, files, top, level=0):
    """an extend tag and what it extends with"""
    num = len(files)
    path = g.choice(["", "dir/"]) + "e%d.txt" % num
    files.append(path)
    if not top and g.p(.3):
        ls = [g.mkline(next(keys), depth, g.names(1, "x" + g.fresh(""))) for _ in range(g.randint(1, 2))]
        return X.ext(path, lines=ls)
    gs = [ext_tree(g, keys, depth, files, level + 1) for _ in range(g.randint(1, 3))]
    if level < 2 and g.p(.25):
        gs.insert(g.randint(0, len(gs)), an_ext(g, n, keys, depth, files, False if not top else None, level + 1))
    gs = [x for x in gs if not X.is_ext(x) or x["lines"] is None]
    d = tdef(gs)
    f = {}
    names = [x["name"] for x in gs if not X.is_ext(x)]
    if g.p(.35):
        f["groups"] = g.choice([[str(g.randint(0, len(gs)))], g.sample(names, 1), g.sample(names, min(2, len(names))), ["nosuch"], names[:1] + ["1"]])
    if level == 0:
        vs = [({"ev": g.uword(), "e%d" % j: j}, g.choice(["", "xvars", "evars"])) for j in range(g.choice([0, 0, 1, 2]))]
        d["vars"] = vs
        d["lookups"] = {x: {"v1": "of " + path, "7": path} for x in g.sample(["tab", "tab2"], g.choice([0, 1, 2]))}
        if g.p(.3):
            d["inputs"] = [{"name": x, "groups": ["all"], "data": [g.text([X.plain_group(y) for y in gs if not X.is_ext(y)], noise=0)]} for x in g.sample(["i1", "i2"], g.randint(1, 2))]
        if g.p(.25):
            d["outputs"] = [output(x, fns=[call("macro", "o_wrap")]) for x in g.sample(["o1", "o2"], g.randint(1, 2))]
        if g.p(.3) or d["outputs"]:
            d["macros"] = {"o_wrap": "o_wrap", "m_a": g.choice(["m_a", "m_b"])}
        if top:
            for k, ns in (("vars", ["xvars", "evars"]), ("lookups", ["tab", "tab2"]), ("inputs", ["i1", "i2"]), ("outputs", ["o1", "o2"])):
                if g.p(.2):
                    f[k] = g.sample(ns, g.randint(1, 2))
    e = X.ext(path, d, **f)
    if g.p(.15) and names:      # the file has a mark, which a macro makes the text
        e["mark"] = [x for x in gs if not X.is_ext(x)][0]["lines"][0]["toks"][0]["v"].strip()
        e["filt"]["macro"] = "x_sub%d" % num
    return e


def ext_tree(g, keys, depth, files, level=0):
    t = tree_groups(g, keys, depth, maxd=depth + 1, kidp=(0, 0, 1), tails=.2)
    if level < 3 and g.p(.45):
        for _ in range(g.choice([1, 1, 2])):
            tl = [g.mkline(next(keys), depth + 1, g.names(1, "t" + g.fresh("")))] if g.p(.3) else []
            t["kids"].insert(g.randint(0, len(t["kids"])), (an_ext(g, 0, keys, depth + 1, files, False, level + 1), tl))
    return t


def c22(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c22", k)
        keys = g.keyiter()
        ev = {"vars": {"ev": "base"} if g.p(.3) else None}
        c = Case(kind="extension").new(**ev)
        fl = []
        try:
            gs = [ext_tree(g, keys, 0, fl) for _ in range(g.randint(0, 2))]
            for _ in range(g.randint(1, 2) if not fl or g.p(.6) else 0):
                gs.insert(g.randint(0, len(gs)), an_ext(g, 0, keys, 0, fl, True))
        except StopIteration:
            continue
        gs.append(group("st*", [line(lit("st "), var("s0", [], [call("lookup", "tab", kw={"add_field": "found"}), call("macro", "m_a")])), line(setv("s1", "ev"))]))
        d = tdef(gs, [({"ev": "parent"}, "")] if g.p(.5) else [], lookups={"tab": {"v1": "parent"}} if g.p(.4) else {}, macros={"m_a": "m_c"} if g.p(.3) else {})
        p = X.plain(d)
        names = [x["name"] for x in p["inputs"]]
        if len(set(names)) < len(names):
            continue
        env = "tdir" if g.p(.2) else ""
        if env:
            c.env = env
        raw = []
        for path, (what, e) in X.files(d).items():
            body = what if isinstance(what, str) else X.text(what, wrap=g.p(.5))
            if e.get("mark"):
                body = body.replace(e["mark"], "@M@")
                raw.append("def %s(data):\n    return data.replace('@M@', %r)" % (e["filt"]["macro"], e["mark"]))
            c.write_file((env + "/" if env and g.p(.7) else "") + path, body)
        if raw:
            d["raw"] = "<macro>\n%s\n</macro>" % "\n\n".join(raw)
        n_ = c.define(p, text=X.text(d))
        c.add_template(n_)
        if g.p(.3):     # nothing is left to include in the text it shows
            for path in X.files(d):
                if g.p(.5):
                    c.write_file(path, "gone")
            c.reload_as("q", n_, **ev)
        for _ in range(g.randint(1, 2)):
            c.add_input(g.text(p["groups"], noise=0, reps=(1, 2)) + "\nst v1\nst 7")
        c.parse(one=True).result()
        yield c


PROPS = {
    "C21": {"parts": [gen_part(c21, 250)], "cover": ["Start", "Add"]},
    "C22": {"parts": [gen_part(c22, 250)], "cover": ["Start", "Add", "write_file"]},
    "C32": {"parts": [gen_part(c32, 250)], "cover": ["Start", "write_file", "add_lookup"]},
}
