"""C31: what a template says through its variables is as if said in place."""
import copy

from case import Case, tdef, template_text
from checks import SUBS, VALS, gen_part, group_call, line_names, match_chain, rng
from tmpl import *

ODD = ["if-name", "1st", "a/b", "x+y", "n:1", "A-B", "_u", "class", "x-", "$v", "if_name", "\u00e9-\u00e9", "10", "v.w", "no!", "a=b", "if--name"]
#: functions whose arguments can be names of variables of the template
ARGS = {"contains_re", "startswith_re", "endswith_re", "notstartswith_re", "notendswith_re", "exclude_re", "exclude", "contains", "equal", "notequal", "sformat"}


class Say:
    """texts moved to variables"""

    def __init__(self, g):
        self.g, self.vars, self.n = g, {}, 0

    def name(self, v, k="cv"):
        self.n += 1
        n = "%s_%d_" % (k, self.n)
        self.vars[n] = v
        return n

    def call(self, c):
        g = self.g
        t = call_text(c)
        if c["f"] in ARGS and g.p(.3) and c["a"] and "s" in c["a"][0]:
            for a in c["a"]:
                old = q(a.get("s", ""))
                if "s" in a and t.count(old) == 1 and not a["s"].startswith(("RX", "tv")) and (a is c["a"][0] or g.p(.6)) and (a is not c["a"][0] or len(c["a"]) == 1 or g.p(.6)):
                    t = t.replace(old, q(self.name(a["s"], "av")), 1)
        return t

    def parts(self, ps, depth=0):
        """some of the parts given by the name of a variable"""
        g = self.g
        if not ps or g.p(.25):
            return ps
        i = g.randint(0, len(ps) - 1)
        j = g.randint(i + 1, len(ps))
        seg = ps[i:j]
        if depth < 2 and g.p(.3):
            seg = self.parts(seg, depth + 1)
        if g.p(.5):
            v = " | ".join(seg)
        else:
            v, k = [], 0
            while k < len(seg):
                m = g.choice([1, 1, 2])
                v.append(" | ".join(seg[k:k + m]))
                k += m
        n = self.name(v)
        return ps[:i] + [g.choice(['chain("%s")', "chain('%s')", "chain(%s)"]) % n] + self.parts(ps[j:], depth + 1)

    def token(self, t):
        g = self.g
        if t["t"] == "ign" and t["pats"] and "re" in t["pats"][0] and not t["pats"][0]["rx"] and g.p(.6):
            return lit('{{ ignore("%s") }}' % self.name(t["pats"][0]["txt"], "pv"))
        if t["t"] != "var":
            return t
        t = copy.deepcopy(t)
        for c in t["fns"]:
            c["txt"] = self.call(c)
        for p in t["pats"]:
            if "re" in p and not p["rx"] and g.p(.5):
                p["txt"] = self.name(p["txt"], "pv")
        ind = t.pop("ind")
        ps = tok_parts(dict(t, ind=[]))
        return lit("{{ %s }}" % " | ".join([ps[0]] + self.parts(ps[1:]) + ind))

    def group(self, gr, sep="."):
        g = self.g
        o = dict(gr, lines=[dict(l, toks=[self.token(t) for t in l["toks"]]) for l in gr["lines"]],
                 kids=[(self.group(k, sep), [dict(l, toks=[self.token(t) for t in l["toks"]]) for l in tail]) for k, tail in gr["kids"]])
        if sep != "." and o["name"]:
            o["name"] = o["name"].replace(".", sep)
        if isinstance(gr["default"], str) and g.p(.6):
            o["default"] = self.name(gr["default"], "dv")
        if gr["fns"] and g.p(.8):
            ps = ["%s(%s)" % (c["f"], gfn_args(c)) for c in gr["fns"]]
            i = g.randint(0, len(ps))      # the first ones as attributes of their own, the rest through a variable
            if len({c["f"] for c in gr["fns"][:i]}) < i or i == len(ps):
                i = 0
            at = ["%s='%s'" % (c["f"], gfn_args(c)) for c in gr["fns"][:i]]
            v = " | ".join(ps[i:]) if g.p(.5) else ps[i:] if g.p(.6) or len(ps) - i < 2 else [" | ".join(ps[i:i + 2])] + ps[i + 2:]
            o["fns"] = []
            o["attrs"] = " ".join(at + ["%s='%s'" % (g.choice(["functions", "chain"]), self.name(v, "fv"))])
        return o


def c31(seed, n, tier):
    macros = ["m_up", "m_none", "m_true", "m_false", "m_odd", "m_len", "m_tup", "m_list", "m_dict", "m_empty", "m_zero", "g_false", "g_true", "g_none", "g_add", "g_count", "g_new", "g_hasb"]
    for k in range(n):
        g = rng(seed, "c31", k)
        odd = list(ODD)
        g.shuffle(odd)
        tvars = {"tv1": "up", "tv2": "10"} if g.p(.5) else {}
        tops, data = [], []
        names = iter(odd)

        def name(d):
            if d == "u":     # another on the same line must not be the same but for signs
                return g.choice(["u", "u-2", "2nd", "u.v"])
            return next(names, d) if g.p(.5) else d

        def v(d):
            pats = g.choice([[], [], [pat("PHRASE"), pat("WORD")], [pat("ORPHRASE")], [pat("DIGIT"), pat("WORD")], [rex(Seq(Set("ugG1ax"), Rep(Cls("S"), 0)))]])
            ch = match_chain(g, tvars, 3)[0] if g.p(.7) else []
            if g.p(.2):     # any of several, given in place or by names
                ch.insert(0, call("contains", *g.sample(["u", "1", "a", "X", ",", "i", "7"] + list(tvars), g.randint(2, 4))))
            jm = [call("joinmatches", *g.choice([[], [","], ["-"]]))] if g.p(.15) and not ch else []
            return var(name(d), pats, ch + jm, dflt=g.choice(["up", "none", "dd"]) if g.p(.2) else None)

        for j in range(g.randint(1, 3)):
            w = "abc"[j]
            gr = group(g.choice(["g%s*", "g%s", "x.g%s*", "y*.g%s"]) % w, [line(lit("k%s " % w), v("v"), *([lit(" ; "), ign(rex(Rep(Cls("d"), 1)) if g.p(.6) else None)] if g.p(.2) else [])),
                                           line(lit(" m%s " % w), v("w"), *([lit(" ; "), v("u")] if g.p(.3) else []))],
                       default=g.choice([None, None, "gd"]))
            gr["lines"][0]["toks"][1].pop("dflt", 0)
            if g.p(.15):
                gr["lines"].append(line(lit(" s%s " % w), var("w", [pat("WORD")], start=True)))
            if g.p(.2):
                gr["lines"].append(line(var("l", [], [call("contains", "zz"), call("joinmatches", ",")], line=True)))
            plain = [x for x in line_names(gr) if x not in ODD and x != "l"]
            if g.p(.6):
                fs = [f for f in ["contains", "containsall", "exclude", "excludeall", "equal", "contains_val", "exclude_val", "void", "del", "set", "record", "to_int", "macro"] + (["sformat"] if plain else [])]
                for _ in range(g.randint(1, 3)):
                    f = g.choice(fs)
                    if f in ("contains_val", "exclude_val", "to_int", "sformat") and any(t["fns"] for l in gr["lines"] for t in l["toks"] if t["t"] == "var"):
                        continue
                    c = group_call(g, gr if f != "sformat" else group("", [line(*[var(x) for x in plain])]), tvars, f)
                    gr["fns"].append(dict(c, chain=True))
                if any(c["f"] == "to_int" for c in gr["fns"]):
                    gr["fns"] = [c for c in gr["fns"] if c["f"] not in ("contains_val", "exclude_val")]
            if g.p(.4):
                gr["kids"].append((group(g.choice(["kid", "kid*", "p.kid"]), [line(lit("  k%sk " % w), v("v2"))], default=g.choice([None, "gk"])), []))
            tops.append(gr)
            for _ in range(g.randint(1, 4)):
                val = lambda: g.choice(VALS)
                x = "k%s %s" % (w, val())
                if len(gr["lines"][0]["toks"]) > 2:
                    x += " ; %s" % g.choice(["7", "12", "x"])
                data.append(x)
                for _ in range(g.choice([0, 1, 1, 2])):
                    data.append(" m%s %s" % (w, val()) + (" ; %s" % val().replace(" ", "") if len(gr["lines"][1]["toks"]) > 2 else ""))
                if g.p(.2):
                    data.append(" s%s %s" % (w, val()))
                if g.p(.2):
                    data.append(" zz %s" % val())
                if gr["kids"] and g.p(.6):
                    data.append("  k%sk %s" % (w, val()))
        say = Say(g)
        sep = g.choice([".", ".", "/", ":", "->"])
        said = [say.group(t, sep) for t in tops]
        vs = [(tvars, "")] if tvars else []
        if g.p(.5):
            vs.append((SUBS, ""))
        if g.p(.2):
            vs.append(({"rec1": "none"}, "saved"))
        where = g.choice(["tag", "tag", "new", "add", "parted"])
        mine = {x: say.vars[x] for x in say.vars if where == "tag" or where == "parted" and g.p(.5)}
        rest = {x: say.vars[x] for x in say.vars if x not in mine}
        if mine:
            vs.insert(g.randint(0, len(vs)), (mine, ""))
        rx = rex_vars(tops)
        d, d2 = tdef(tops, vs + ([(rx, "")] if rx else []), macros=macros), tdef(said, vs + ([(rx, "")] if rx else []), macros=macros)
        if sep != ".":
            d2["attrs"] = ' pathchar="%s"' % sep
        t = template_text(d2)
        c = Case(kind="said through variables")
        c.new(vars=rest if rest and where != "add" else None)
        if rest and where == "add":
            c.add_vars(rest)
        c.add_template(c.define(d, text=t))
        for _ in range(g.choice([1, 1, 2])):
            c.add_input("\n".join(data))
        c.parse(one=True).result()
        yield c


PROPS = {"C31": {"parts": [gen_part(c31, 200)], "cover": ["Start", "Add"]}}
