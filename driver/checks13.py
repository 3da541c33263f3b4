"""What belongs to the caller and what is returned, beside outputs of result()."""
from case import Case, tdef
from checks import gen_part, rng
from checks2 import ONAMES, c19_groups, c19_table, c19_text
from tmpl import *


def c28b(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c28b", k)
        c = Case(kind="what is made of results").new()
        held, names = [], []
        # variables given in several calls, to a parser that may have none
        for j in range(g.choice([0, 1, 2, 3])):
            v = {x: g.choice([g.uword(), 5, ["p"], {"q": "r"}]) for x in g.sample(["va", "vb", "vc"], g.choice([1, 1, 2]))}
            c.userdata("u%d" % j, v).add_vars(v).with_("vars", "u%d" % j)
            held.append("u%d" % j)
        for m in range(g.choice([1, 1, 2])):
            names.append("t%d" % m)
            c.add_template(tdef(c19_groups(g), [({"va": "mine"}, g.choice(["", "vars"]))] if g.p(.3) else [], macros=["o_len", "o_wrap"]), name=names[-1])
        if g.p(.3):
            v = {"vd": g.choice(["z", ["z"]])}
            c.userdata("uz", v).add_vars(v).with_("vars", "uz")
            held.append("uz")
        for j in range(g.choice([1, 2, 2, 3])):
            c.add_input(c19_text(g), template="_all_")
        c.parse(one=True)
        for _ in range(g.randint(1, 4)):
            nm = "r%d" % len(held)
            c.keep(nm, structure=g.choice(["list", "list", "dictionary", "flat_list"]), templates=g.choice([None, None, names[-1]]))
            held.append(nm)
            fmt = g.choice(["csv", "table", "csv", "table", "json", "yaml", "pprint", "raw"])
            kw, fs = {}, []
            if fmt in ("csv", "table"):
                kw = c19_table(g, fmt, False)
            elif g.p(.6):
                fs = [g.choice([call("macro", g.choice(["o_len", "o_wrap"])), call("dict_to_list", kw={"key_name": "k", "path": "byname"}),
                                call("traverse", kw={"path": "recs", "strict": False})])]
            kw.setdefault("order", ONAMES)
            c.result(structure=g.choice(["list", "dictionary"] + ["flat_list"] * (fmt not in ("json", "yaml", "pprint"))), out=output(fns=fs, fmt=fmt, **kw), decode=fmt if fmt in ("json", "yaml", "pprint") else "")
            for h in g.sample(held, min(len(held), 2)):
                c.look(h)
        if g.p(.4):
            # names given in a list
            w = g.sample(names + ["nosuch"], g.randint(1, len(names)))
            c.userdata("names", w)
            held.append("names")
            c.clear_result(w).with_("templates", "names").result()
            if g.p(.5):
                c.result(templates=w).with_("templates", "names")
        for h in held:
            c.look(h)
        yield c


PARTS = {
    "C28": gen_part(c28b, 150),
}
PROPS = {}
