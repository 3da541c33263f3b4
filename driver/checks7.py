"""The cases of the properties about comparison, validation and what outputs show and send."""
import copy

from case import Case, tdef
from checks import fmt_parts, gen_part, rng
from checks2 import ONAMES, c19_groups, c19_table, c19_text
from tmpl import *


# =============================================================== C34 comparison and validation
def mutated(g, text):
    """a text like another one"""
    rows = text.split("\n")
    for _ in range(g.choice([0, 1, 1, 2, 4])):
        n = g.randint(0, max(0, len(rows) - 1))
        x = g.random()
        if x < .3 and rows:
            rows.pop(n)
        elif x < .6:
            rows.insert(n, g.choice(["rec %s %s" % (g.uword(), g.choice("12")), " ex new", "byn " + g.choice(ONAMES), " d1 1", "one z"]))
        elif rows:
            rows[n] = " ".join(rows[n].split(" ")[:-1] + [g.choice(["1", "x", g.uword()])])
    return "\n".join(rows)


def some_value(g, depth=0):
    x = g.random()
    if depth > 2 or x < .4:
        return g.choice(["1", "x", "", 1, 0, 2, True, None, "a b"])
    if x < .7:
        return {k: some_value(g, depth + 1) for k in g.sample(["recs", "one", "k", "v", "o"], g.randint(0, 3))}
    return [some_value(g, depth + 1) for _ in range(g.randint(0, 3))]


def like_result(g):
    """what a template may have given"""
    r = {}
    if g.p(.7):
        r["recs"] = [{k: g.choice(["1", "x", "a", 1]) for k in ["k", "v", "x"] if g.p(.8)} for _ in range(g.randint(0, 3))]
    if g.p(.6):
        r["one"] = g.choice([{"o": "a"}, {"o": "b", "p": "c"}, "text", [], None])
    if g.p(.4):
        r["byname"] = {n: {"d1": g.choice(["1", "x"])} for n in g.sample(ONAMES, g.randint(1, 2))}
    if g.p(.2):
        r["other"] = some_value(g)
    return r


def c34a(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c34a", k)
        c = Case(kind="comparison").new()
        base = c19_text(g)
        names = ["before", "after", "more"]
        nt = g.choice([1, 1, 2, 2, 3])
        vs = {"was": g.choice([[like_result(g) for _ in range(g.randint(1, 3))], like_result(g)] + [some_value(g)] * g.choice([0, 1]))}
        plain = []      # templates without outputs, for others to compare with
        for m in range(nt):
            method = g.choice(["per_input"] * 5 + ["per_template"])
            tops = c19_groups(g)
            if m:
                g.shuffle(tops)
            intag = g.p(.4)
            used = g.sample(names, g.randint(2, 3))
            ins = [dict(name=nm, groups=["all"], data=[mutated(g, base)]) for nm in used] if intag else []
            first = dict(name=used[0])
            outs = []
            if nt > 1 and m < nt - 1 and g.p(.7):
                plain.append("t%d" % m)
            for j in range(g.choice([1, 1, 1, 2]) if "t%d" % m not in plain else 0):
                kw = {}
                x = g.random()
                if x < .5:
                    ab = g.sample(used, 2)
                    kw["input_before"] = ab[0]
                    if g.p(.7):
                        kw["input_after"] = ab[1]
                elif x < .8 and plain:
                    kw["template_before"] = g.choice(plain)
                else:
                    kw["var_before"] = "was"
                if g.p(.3):
                    kw["verbose_level"] = g.choice([1, 2, 2])
                # the first of what was: only of a list that is not empty
                src = vs["was"] if "var_before" in kw else [1]
                if g.p(.35) and "template_before" not in kw and method == "per_input" and isinstance(src, list) and src:
                    kw["mode"] = g.choice(["iterate", "iterate", "bulk"])
                ret = ["self"]
                if j == 0 and g.p(.6):
                    kw["add_field"] = "difference"
                if j == 0 and len(outs) == 0 and g.p(.25):
                    ret = ["terminal"]
                a = []
                if "input_after" in kw and g.p(.4):
                    a = [kw.pop("input_before"), kw.pop("input_after")]
                outs.append(output(g.choice(["", "o%d" % j]), fns=[call("deepdiff", *a, kw=kw)], ret=ret))
                if ret == ["self"] and "add_field" not in kw:
                    break
            c.add_template(tdef(tops, [(vs, "")], inputs=ins, outputs=outs, method=method), name="t%d" % m)
            if not intag:
                for nm in used:
                    for _ in range(g.choice([1, 1, 2])):
                        c.add_input(mutated(g, base), name=nm, template="t%d" % m)
        c.parse(one=True).result(structure=g.choice(["list", "dictionary"]))
        yield c


RULES = {"string": lambda g: g.choice([{"allowed": g.sample(["a", "b", "aa", "1", "x"], 3)}, {"maxlength": g.randint(0, 3)}, {"minlength": g.randint(1, 3)}, {"forbidden": ["a", "x"]},
                                       {"minlength": 2, "maxlength": 1}, {"allowed": ["a"], "forbidden": ["b", "1"], "maxlength": 1}, {"empty": False}]),
         "integer": lambda g: g.choice([{"min": g.randint(0, 5)}, {"max": g.randint(0, 5)}, {"min": 3, "max": 2}, {"allowed": [1, 2, 10]}, {"forbidden": [1, 5]}]),
         "list": lambda g: g.choice([{"minlength": g.randint(1, 3)}, {"maxlength": g.randint(0, 2)}, {"allowed": ["a", "b"]}, {"empty": False}]),
         "any": lambda g: g.choice([{"maxlength": g.randint(0, 2)}, {"max": 3}, {"min": 1}, {"empty": False, "minlength": 1}, {"allowed": ["a", "1", 1, "x"]}, {"nullable": True}])}


def rule(g, types):
    r = {}
    t = g.choice(types)
    if t != "any":
        r["type"] = t
    if g.p(.6):
        r.update(RULES[t](g))
    if g.p(.3):
        r["required"] = g.choice([True, True, False])
    if "allowed" in r and t in ("any",):
        r.pop("empty", None)
    return r


def schema(g, fields, types=("string", "string", "integer", "any", "list")):
    return {f: rule(g, types) for f in g.sample(fields, g.randint(1, len(fields)))}


def c34b(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c34b", k)
        c = Case(kind="validation")
        sg = schema(g, ["k", "v", "x", "z"])
        recs = {"type": "list", "schema": {"type": "dict", "schema": schema(g, ["k", "v", "x"])}}
        if g.p(.3):
            recs.update(RULES["list"](g) if g.p(.3) else {"minlength": g.randint(1, 3)})
            recs.pop("allowed", None)
        st = {}
        if g.p(.7):
            st["recs"] = recs
        if g.p(.6):
            st["one"] = g.choice([{"type": "dict", "schema": schema(g, ["o", "p"])}, {"required": True}, {"type": "string"}])
        if g.p(.3) or not st:
            st["gone"] = rule(g, ("string", "any"))
        vs = {"sg": sg, "st": st, "so": schema(g, ["o", "p"], ("string", "integer", "any")), "dev": g.choice(["r1", "sw2"])}
        info = lambda names: g.choice([({}, {}), (lambda q: ({"info": q[1]}, {"fmt": q[0]}))(fmt_parts(g, names))])

        def vcall(f, sch, names):
            kw, ex = info(names) if f == "validate" else ({}, {})
            kw = dict(kw)
            if f == "validate":
                if g.p(.4):
                    kw["result"] = g.choice(["ok", "valid"])
                if g.p(.6):
                    kw["errors"] = "errs"
            elif g.p(.4):
                kw["add_errors"] = True
            if g.p(.5):
                kw["allow_unknown"] = g.choice([True, False, False])
            if g.p(.1) and f == "cerberus":
                kw["log_errors"] = True
            a = [sch]
            if g.p(.2):
                a, kw = [], dict(kw, schema=sch)
            return call(f, *a, kw=kw, **ex)
        rfs = []
        if g.p(.75):
            rfs.append(vcall(g.choice(["cerberus", "cerberus", "validate"]), g.choice(["sg"] * 9 + ["nosuch"]), ["k", "v", "dev", "nosuch"]))
            if g.p(.2):
                rfs.append(g.choice([call("set", "dev", "d"), vcall("validate", "sg", ["k", "dev"])]))
                if g.p(.5):
                    rfs.reverse()
        if rfs and (len({f["f"] for f in rfs}) < len(rfs) or g.p(.3)):
            for f in rfs:
                f["chain"] = True
        conv = [call("to_int")] if g.p(.5) else []
        lists = g.p(.3)
        term = g.p(.3)
        join = g.p(.3) and not term     # a printed result has the line feeds of its texts
        v = [pat("ORPHRASE")] if lists else []
        recsg = group("recs*", [line(lit("rec "), var("k"), lit(" "), var("v", v, conv if not lists else [call("split", " ")])),
                                line(lit(" ex "), var("x", [pat("ORPHRASE")], [call("joinmatches")] if join else []))], fns=rfs)
        oneg = group("one", [line(lit("one "), var("o")), line(lit(" p "), var("p"))])
        outs = []
        if g.p(.75):
            x = g.random()
            if x < .5:
                fs = [vcall("validate", g.choice(["st"] * 9 + ["nosuch"]), ["dev", "nosuch"])]
            else:
                fs = [call("traverse", kw={"path": "one", "strict": False}), vcall("validate", "so", ["o", "dev", "p"])]
            outs.append(output("", fns=fs, ret=g.choice([["terminal"], ["self", "terminal"]]) if term else ["self"]))
        method = g.choice(["per_input"] * 3 + ["per_template"])
        nameless = g.p(.15)
        if nameless:
            recsg["name"] = None
        d = tdef([recsg] + ([] if nameless and g.p(.5) else [oneg]), [(vs, "")], outputs=outs, method=method)
        c.new().add_template(d)
        val = lambda: g.choice(["1", "5", "10", "a", "b", "aa", "x"])
        for _ in range(g.randint(1, 3)):
            out = []
            for _ in range(g.randint(0, 5)):
                x = g.random()
                if x < .65:
                    out += ["rec %s %s" % (val(), val() if not lists else g.choice([val(), "%s %s" % (val(), val())]))] + ([" ex " + g.choice([val(), "a b"])] if g.p(.5) else [])
                    if g.p(.2):
                        out.append(" ex " + val())
                else:
                    out += ["one " + val()] + ([" p " + val()] if g.p(.5) else [])
            c.add_input("\n".join(out))
        c.parse(one=True).result()
        if outs and "terminal" in outs[0]["ret"]:
            c.read_terminal("raw")
        yield c


# =============================================================== C35 outputs that present, write and send
TXT = lambda s: {"k": "text", "s": s, "p": []}
VAL = lambda *p: {"k": "val", "p": list(p)}
FOR = lambda x, p, *body: {"k": "for", "x": x, "p": list(p), "body": list(body)}
IF = lambda p, body, other=(): {"k": "if", "p": list(p), "body": list(body), "other": list(other)}


def jinja(g, together):
    """a template over results: a list, or one record of them"""
    rec = lambda r, ks: [TXT(g.choice(["", "- ", "r: "]))] + sum(([g.choice([VAL(r, x), VAL(r, x), {"k": "up", "p": [r, x]}]), TXT(g.choice([" ", ", ", "="]))] for x in ks), []) + [TXT("\n")]
    ks = g.sample(["k", "v", "x", "nokey"], g.randint(1, 3))

    def of(i):
        body = [FOR("r", i + ["recs"], *rec("r", ks))] if g.p(.8) else []
        if g.p(.5):
            body.append(IF(i + ["one"], [TXT("one is "), VAL(*(i + ["one", "o"])), TXT("\n")], [TXT("no one\n")] if g.p(.5) else []))
        if g.p(.3):
            body.append(IF(i + ["recs"], [TXT("has "), {"k": "len", "p": i + ["recs"]}, TXT("\n")]))
        if g.p(.3) and body:
            body.insert(0, TXT("== \n"))
        return body or [TXT("x\n")]
    ns = [TXT("\n")] + (of(["_data_"]) if together else ([TXT("n="), {"k": "len", "p": ["_data_"]}, TXT("\n")] if g.p(.3) else []) + [FOR("i", ["_data_"], *of(["i"]))])
    return ns + [TXT(g.choice(["end", "}", "--"]))]


GRIDS = ["pipe", "tsv", "grid", "psql", "orgtbl"]


def sheet(g, k, together, used):
    ta = c19_table(g, "table", together)
    ta.setdefault("headers", ta.get("sorted"))
    if g.p(.2) and not together:
        ta = {"headers": ["k", "v"], "path": ["recs"]}
    ta.setdefault("order", ONAMES)
    name = g.choice([x for x in ["tab1", "tab2", "My tab", "Sheet%d" % k] if x not in used])
    used.append(name)
    ta["tab"] = name
    if name == "Sheet%d" % k:
        ta["notab"] = True
    ta["hlist"] = g.p(.3)
    return ta


def c35a(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c35a", k)
        c = Case(kind="presented results")
        vs = {"dev": g.choice(["r1", "sw2"]), "num": 5}
        fmt = g.choice(["jinja2", "tabulate", "excel", "excel", "tabulate", "jinja2", "json", "csv"])
        method = g.choice(["per_input"] * 3 + ["per_template"])
        together = method == "per_template"
        names = ["k", "dev", "num", "nosuch"]
        tops = c19_groups(g)
        files = []

        def one(ask=False):
            kw = {}
            f = fmt
            ret = g.choice([["self"], ["file"], ["self", "file"]]) if not ask else ["self"]
            if f == "excel":
                ret = ["file"]
                used = []
                kw["tabs"] = [sheet(g, j, together, used) for j in range(g.randint(1, 3))]
                kw["update"] = g.p(.4)
            if f == "tabulate":
                kw.update(c19_table(g, "table", together), fattrs="tablefmt='%s', disable_numparse=True" % g.choice(GRIDS))
                if "tsv" in kw["fattrs"]:
                    kw["missing"] = "none"
            if f == "csv":
                kw.update(c19_table(g, "csv", together))
            if f == "jinja2":
                kw["jinja"] = jinja(g, together)
            if "file" in ret:
                parts, txt = fmt_parts(g, ["dev", "num"] * 3 + ["nosuch"]) if g.p(.4) else ([{"k": "lit", "v": "f%d" % g.randint(1, 2)}], "")
                txt = txt or parts[0]["v"]
                parts = [dict(x, v=x["v"].replace("/", "_").replace(" ", "_")) for x in parts]
                txt = txt.replace("/", "_").replace(" ", "_")
                kw.update(url="out%d/" % g.randint(1, 2), filename=txt, fparts=parts)
                ext = ".xlsx" if f == "excel" else ""
                known = all(x["k"] == "lit" or x["v"] in vs for x in parts)
                files.append(kw["url"] + ("".join(x["v"] if x["k"] == "lit" else str(vs[x["v"]]) for x in parts) if known else txt) + ext)
            kw.setdefault("order", ONAMES)
            return output(g.choice(["", "out"]), cond=g.choice([None] * 5 + [("dev", "r1")]) if not ask else None, fmt=f, ret=ret, **kw)
        outs = [one() for _ in range(g.choice([1, 1, 2]))]
        for o in outs[:-1]:
            if "self" in o["ret"]:
                outs = [o]
                break
        ask = g.p(.3) and fmt in ("tabulate", "excel", "csv")
        if ask:
            outs = []
            files = []
        c.new().add_template(tdef(tops, [(vs, "")], outputs=outs, method=method))
        for _ in range(g.choice([1, 1, 2])):
            for _ in range(g.randint(1, 3)):
                c.add_input(c19_text(g))
            c.parse(one=True)
            dec = {"tabulate": "tabulate", "json": "json"}.get(fmt, "")
            if ask:
                o = one(True)
                ts = [o, o] if g.p(.4) else [o]
                for o in ts:
                    c.result(out=o, decode=dec)
                    for f in sorted(set(files)):
                        c.read_file(f, decode="excel" if fmt == "excel" else dec)
            else:
                c.result(decode=dec if any("self" in o["ret"] for o in outs) else "")
                for f in sorted(set(files)):
                    c.read_file(f, decode="excel" if fmt == "excel" else dec)
            c.clear_result().clear_input()
        yield c


def c35b(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c35b", k)
        c = Case(kind="printed and sent results")
        servers = ["127.0.0.1", "127.0.0.2"]
        c.job["net"] = servers
        vs = {"dev": g.choice(["r1", "sw2"])}
        method = g.choice(["per_input"] * 3 + ["per_template"])
        tfmt = g.choice(["raw", "json", "csv", "jinja2"])
        outs = []
        nameless = g.p(.2)
        for j in range(g.choice([1, 1, 2])):
            kw = {}
            ret = g.choice([["terminal"], ["syslog"], ["syslog", "self"], ["terminal", "self"]])
            cond = g.choice([None] * 4 + [("dev", "r1")])
            if "syslog" in ret:
                fmt = "raw"
                if g.p(.6) and not nameless:
                    kw["path"] = g.choice([["recs"], ["recs"], ["one"], ["byname"], ["one", "o"], ["no"]])
                kw["log"] = {"servers": g.choice([servers, servers[:1], servers[1:], list(reversed(servers))]), "iterate": g.p(.7), "facility": g.choice([77, 77, 16, 1])}
            else:
                fmt = tfmt
                if fmt == "csv":
                    kw.update(c19_table(g, "csv", True) if not nameless else {"sorted": ["k", "v", "x"]})
                if fmt == "jinja2":
                    kw["jinja"] = jinja(g, method == "per_template")
            kw.setdefault("order", ONAMES)
            outs.append(output("o%d" % j, cond=cond, fmt=fmt, ret=ret, **kw))
            if "self" in ret and fmt != "raw":
                break
        tops = c19_groups(g, nameless)
        c.new().add_template(tdef(tops if not nameless else tops[:1], [(vs, "")], outputs=outs, method=method))
        for _ in range(g.choice([1, 1, 2])):
            for _ in range(g.randint(1, 3)):
                c.add_input(c19_text(g))
            c.parse(one=True).result(decode="json" if tfmt == "json" and any("self" in o["ret"] and o["fmt"] == "json" for o in outs) else "")
            c.read_terminal("text" if tfmt in ("csv", "jinja2") else tfmt)
            for x in servers:
                c.read_log(x)
            c.clear_result().clear_input()
        yield c


PROPS = {
    "C34": {"parts": [gen_part(c34a, 150), gen_part(c34b, 200)], "cover": ["Start", "result"]},
    "C35": {"parts": [gen_part(c35a, 200), gen_part(c35b, 150)], "cover": ["Start", "result", "read_log", "read_terminal", "read_file"]},
}
