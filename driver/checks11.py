"""Group functions that give a record another form: nested, as one item, as keys and values."""
import copy

from case import Case, tdef
from checks import gen_part, line_names, rng
from tmpl import *


def listed(g, fns):
    """functions that occur more than once can only be given in a chain"""
    if len({c["f"] for c in fns}) < len(fns) or g.p(.2):
        fns[0]["chain"] = True
    return fns


def nested_names(g):
    """names with levels, none of which is a level of another"""
    out = []
    for top in g.sample(["a", "b", "c"], g.randint(1, 3)):
        x = g.random()
        if x < .4:
            out.append(top)
        else:
            out += ["%s.%s" % (top, s) for s in g.sample(["x", "y", "z", "x2.p", "x2.q", "deep.er.one"], g.randint(1, 3))]
    g.shuffle(out)
    return out


def expanded(g, j):
    ns = nested_names(g)
    w = "ex%d" % j
    first, rest = ns[:1], ns[1:]
    dyn = g.p(.25)
    name = "%s%s" % (w, g.choice(["*", "", ".sub*"])) if not dyn else g.choice(["%s.{{ nm }}", "%s.{{ nm }}*", "{{nm}}-{{k}}.%s", "%s.{{ nm }}.{{k}}*"]) % w
    ls = [line(lit(w + " "), var("nm" if dyn else "k"), lit(" "), var(first[0], dflt=None))]
    if dyn and "{{k}}" in name:
        ls.append(line(lit(" kk "), var("k")))
    for n, r in enumerate(rest):
        ls.append(line(lit(" l%d%s " % (n, "abc"[j])), var(r, dflt=g.choice([None] * 4 + ["none", "0"]))))
    fns = []
    for _ in range(g.choice([0, 0, 1])):
        fns.append(g.choice([call("contains", g.choice(ns)), call("set", "plain", g.choice(["s.t", "st"])), call("del", g.choice(ns)), call("to_int")]))
    fns.append(call("expand"))
    if g.p(.2):
        fns.append(g.choice([call("set", "plain", "after"), call("del", "a"), call("contains", "b", "a"), call("expand"), call("exclude", *g.sample(["tt", "bad", "z", "b"], 2))]))
    kids = []
    if g.p(.4) and not dyn:
        # lines after it belong to the record the child is in
        tails = [line(lit(" ta%d " % j), var(g.choice(["z.t", "z.a.b", rest[0] if rest else "z.u", "tt"])))] if g.p(.6) else []
        if tails and g.p(.6):
            tails.append(line(lit(" bad%d " % j), var("bad")))
            if g.p(.7):
                fns.append(call("exclude", "bad"))
                if rest and g.p(.7):
                    tails[0] = line(lit(" ta%d " % j), var(g.choice(rest).split(".")[0] + ".q"))
        kids.append((group("kid%d*" % j, [line(lit(" kid%d " % j), var("p.q")), line(lit("  kz "), var("p.r"))], fns=[call("expand")] if g.p(.7) else []), tails))
    return group(name, ls, kids, fns=listed(g, fns))


def itemized(g, j):
    w = "it%d" % j
    key = g.choice(["k", "v"])
    x = g.random()
    name, fns = w + g.choice(["", "*", "**", ".sub", ".sub*"]), None
    if x < .3:
        name = g.choice(["%s.{{ t }}", "%s.{{ t }}*", "{{t}}-x.%s"]) % w
    kw, ex = {}, {}
    if g.p(.45):
        p = g.choice(["list%d" % j, "lists.l%d" % j, "lists.l%d*" % j, "lists.{{ t }}.l%d" % j, "lists.{{t}}", "all"])
        ex["items"] = [dict(i) for i in items(p)]
        ex["items"][-1]["star"] = 1
        kw["path"] = p
    fns = [call("itemize", key, kw=kw, **ex)] if g.p(.5) else [call("itemize", kw=dict(key=key, **kw), **ex)]
    if g.p(.3):
        fns.insert(0, g.choice([call("contains", "v"), call("to_int", "v"), call("set", "plain", "s1"), call("equal", "v", "7")]))
    if kw and g.p(.3):
        fns.append(g.choice([call("contains", "v"), call("to_int"), call("set", "plain", "s1")]))
    return group(name, [line(lit(w + " "), var("k")), line(lit(" v%s " % "abc"[j]), var("v", dflt=g.choice([None, None, "none"]))), line(lit(" t%s " % "abc"[j]), var("t"))], fns=listed(g, fns))


def paired(g, j):
    w = "kv%d" % j
    kn, vn = g.choice([("k", "v"), ("v", "k"), ("k", "t"), ("k", "v")])
    fns = [call("items2dict", kn, vn)] if g.p(.6) else [call("items2dict", kw={"key_name": kn, "value_name": vn})]
    if g.p(.3):
        fns.insert(0, g.choice([call("set", "plain", "s1"), call("contains", "v"), call("to_int", vn)]))
    if g.p(.3):
        fns.append(g.choice([call("set", "plain", "s1"), call("contains", "up"), call("to_int")]))
    return group(w + g.choice(["", "*", "**"]), [line(lit(w + " "), var("k")), line(lit(" v%s " % "abc"[j]), var("v", dflt=g.choice([None, None, "none"]))),
                                                  line(lit(" t%s " % "abc"[j]), var("t", [], [call("to_list")] if g.p(.2) and vn == "t" else []))], fns=listed(g, fns))


def c06b(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c06b", k)
        tops = [g.choice([expanded, itemized, paired])(g, j) for j in range(g.choice([1, 1, 2, 3]))]
        vs = {"plain": "pv"} if g.p(.7) else {}
        if g.p(.2):
            vs["t"] = "tv"
        val = lambda: g.choice(["up", "7", "a", "v1", "x.y", "10", "k", "v", "t", g.uword()])
        data = []
        for _ in range(g.choice([1, 1, 2])):
            out = []
            for _ in range(g.randint(1, 6)):
                gr = g.choice(tops)
                for ls in [gr["lines"]] + [q for x in gr["kids"] * g.choice([1, 2]) for q in (x[0]["lines"], x[1])]:
                    for n_, l in enumerate(ls):
                        if g.p(.75) or n_ == 0:
                            out.append("".join(t["v"] if t["t"] == "lit" else val() for t in l["toks"]))
            data.append("\n".join(out))
        yield Case(kind="records of other forms").simple(tdef(tops, vars=[(vs, "")] if vs else [], method=g.choice(["per_input"] * 3 + ["per_template"])), data, **({"toint": True} if g.p(.1) else {}))


# --------------------------------------------------------------- results equal to what is expected
def altered(g, v):
    """another value, close to this one"""
    v = copy.deepcopy(v)
    x = g.random()
    if isinstance(v, list):
        if not v or x < .2:
            return g.choice([v + v[-1:] if v else [{}], [v], v[0] if v else {}])
        if x < .4:
            return g.choice([v[::-1], v[1:], v[:-1], v + [{}], [v]])
        n = g.randint(0, len(v) - 1)
        v[n] = altered(g, v[n])
        return v
    if isinstance(v, dict):
        if not v or x < .25:
            return g.choice([[v], dict(v, zz="1"), dict(v, zz=None), dict(list(v.items())[1:])])
        k = g.choice(sorted(v))
        v[k] = altered(g, v[k])
        return v
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return g.choice([v + 1, str(v), [v]])
    if v is None:
        return ""
    return g.choice([v + " ", v.upper() + "x", int(v) if v.isdigit() else v + "0", [v], {v: v}])


def c34c(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c34c", k)
        star = g.choice(["", "*"])
        form = g.choice(["per_input", "per_input", "per_template"])
        anon = g.p(.2)
        top = group(None if anon else "g" + star, [line(lit("k "), var("a")), line(lit(" n "), var("n", [], [call("to_int")])), line(lit(" w "), var("w", [pat("ORPHRASE")]))])
        texts, res, everything = [], [], []
        for _ in range(g.choice([1, 1, 2, 3]) if g.p(.95) else 0):
            rows, t = [], []
            for _ in range(g.choice([0, 1, 1, 2, 3])):
                r = {"a": g.choice(["v1", "7", "x&<"])}
                t.append("k " + r["a"])
                if g.p(.5):
                    r["n"] = g.randint(0, 3)
                    t.append(" n %d" % r["n"])
                if g.p(.4):
                    r["w"] = g.choice(["two words", "one"])
                    t.append(" w " + r["w"])
                rows.append(r)
            t = "\n".join(t) or "nothing"
            if t in texts:      # the same text twice is one text
                continue
            texts.append(t)
            everything += rows
            res.append(({} if not rows else rows if anon else {"g": rows if star or len(rows) > 1 else rows[0]}))
        if form == "per_template":
            rows = everything
            res = {} if not rows else rows if anon else {"g": rows if star or len(rows) > 1 else rows[0]}
        load = res
        while g.p(.55):
            load = altered(g, load)
        if isinstance(load, (str, int)):
            load = [{}]
        if isinstance(load, dict) and set(load) - {"g", "zz"}:
            load = [load]
        c = Case(kind="equal results").new().add_template(tdef([top], outputs=[output(g.choice(["", "cmp"]), desc=g.choice(["", "what it is"]), fns=[call("is_equal")], load=load, loadas=g.choice(["json", "yaml"]))], method=form))
        for t in texts:
            c.add_input(t)
        yield c.parse(one=True).result()


PARTS = {"C06": gen_part(c06b, 150), "C34": gen_part(c34c, 150)}
