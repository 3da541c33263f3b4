"""The cases of each property: seeded generators over the abstract templates,
and enumerations of small alphabets.  Every case is run on the code and
validated against the specification."""
import itertools

import gen
from case import Case, tdef
from tmpl import *


def rng(seed, prop, n):
    g = gen.G("%s/%s/%s" % (seed, prop, n))
    if prop in ODD and g.p(.4):
        g.odd = .2
        if prop == "c06":   # its functions are for texts
            del g.oddfns[0]
    g.xml = prop == "c12"
    if g.p(UNI.get(prop, 0)):
        g.uni = .3 if prop == "c01" else .25 if prop < "c13" else .1
    return g


UNI = {"c01": .3, "c02": .12, "c03": .1, "c07": .1, "c09": .2, "c10": .1, "c12": .15,
       "c13": .1, "c15": .1, "c16": .1, "c19": .1, "c21": .15, "c32": .15, "c22": .1, "c25": .2, "c27": .1, "c28": .1, "c30": .1, "c34a": .1, "c35a": .1, "c35b": .1}
ODD = {"c02", "c03", "c06", "c07", "c08", "c10", "c12"}


# =============================================================== C01 lines
LINE_ALPH = [lit("a "), lit(" b"), lit(" 1"), lit("a1"), lit(" "), lit(".")]


def words(alpha, n):
    """all texts over alpha of length 0..n"""
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


LITERALS = ["a", "ab", " x", "a.b", "a*", "(a)", "[a]", "a+b", "a?", "$a", "^a", "a{1", "a#", "a-b", "~", "10", "a1b",
            "1.1", "a 1 b", "a  b", "\ta", "a\tb", "  a", "a,", "a:", "a/1", "%", "!", "_", "'a'", "=", "a;b", "@", "`"]


def c01_exhaustive():
    """every short text against a catalogue of lines: one case per line, one data line per text"""
    v = lambda *p, **k: var("v", p, **k)
    W, P, R, O, N = pat("WORD"), pat("PHRASE"), pat("ROW"), pat("ORPHRASE"), pat("DIGIT")
    w = lambda n, *p: var(n, p)
    cat = []
    for p in ([], [W], [P], [R], [O], [N], [N, W], [P, W], [R, N]):
        cat += [[v(*p)], [lit("a "), v(*p)], [v(*p), lit(" a")], [lit("a"), v(*p)], [v(*p), lit("a")],
                [v(*p), lit(" "), var("w")], [v(*p), lit(" "), var("w", [P])], [lit(" "), v(*p)],
                [v(*p), lit("1")], [lit("1 "), v(*p), lit(" a")], [v(*p), ign()], [ign(), lit(" "), v(*p)],
                [v(*p), lit(" "), ign("DIGIT" and pat("DIGIT"))]]
    for e in (Rep(Set("a1"), 1), Rep(Cls("any"), 0), Rep(Cls("d"), 1, 2), Seq(Lit("a"), Rep(Cls("S"), 0)),
              Alt(Lit("a"), Lit("a1"), Seq(Lit(" "), Cls("d"))), Rep(Cls("any"), 1, 0, True),
              Rep(Seq(Cls("S"), Cls("sp")), 1, 2), Rep(Alt(Lit("a "), Lit("a")), 1)):
        cat += [[v(rex(e))], [v(rex(e)), lit(" a")], [lit("a"), v(rex(e))], [v(rex(e)), var("w")],
                [v(rex(e)), lit(" "), var("w", [O])], [lit("a "), ign(rex(e)), lit(" "), v()]]
    cat += [[lit("a"), start()], [lit("a 1 "), start()], [lit(" a  a"), start()], [lit("1a1"), start()]]
    return cat


def c01(seed, n, tier):
    cat = c01_exhaustive()
    depth = 6 if tier == "thorough" else 5
    texts = list(words("a 1", depth)) if tier == "thorough" else list(words("a 1", 5))
    blob = "\n".join(texts)
    r = rng(seed, "c01x", 0)
    if tier != "thorough":
        r.shuffle(cat)
        cat = cat[:max(20, n // 6)]
    for toks in cat:
        yield Case(kind="every text over {a,space,1} of length <= %d" % depth).simple(tdef([group("r*", [line(*toks)])]), [blob])
    for k in range(n):
        g = rng(seed, "c01", k)
        ls = []
        for _ in range(g.choice([1, 1, 2, 3])):
            toks, names = [], g.names(6)
            if g.p(.35):
                toks.append(lit(g.choice([" ", "  ", "\t", "   ", " \t"])))
            for i in range(g.randint(1, 4)):
                if g.p(.75) or not toks:
                    toks.append(lit(g.choice(LITERALS) + g.choice([" ", " ", "  ", "", "\t", ",", "-"])))
                x = g.random()
                if x < .7:
                    ps = g.pats()
                    if g.p(.2):
                        ps = [rex(g.choice([Rep(Set("ab1"), 1), Rep(Cls("any"), 1), Rep(Cls("any"), 0), Rep(Cls("d"), 1, 3),
                                            Seq(Cls("alpha"), Rep(Cls("w"), 0)), Rep(Cls("any"), 1, 0, True),
                                            Alt(Lit("up"), Lit("down")), Rep(Cls("hex"), 2, 4)]))]
                    toks.append(var(names[i], ps, ind=g.choice([[], [], [], [], ["_exact_"]])))
                elif x < .9:
                    toks.append(ign(g.choice([None, None, pat("PHRASE"), pat("IP"), pat("ORPHRASE"), rex(Rep(Cls("any"), 0)), rex(Rep(Cls("d"), 1))])))
                else:
                    toks.append(lit(g.choice(["end", " last", " 5"])))
                    break
            if not any(t["t"] == "var" for t in toks):
                toks += [lit(" k "), var(names[5])]
            # no two capturing parts side by side without text: that is for the exhaustive part
            fixed = [toks[0]]
            for t in toks[1:]:
                if t["t"] in ("var", "ign") and fixed[-1]["t"] in ("var", "ign"):
                    fixed.append(lit(g.choice([" ", " - ", "/"])))
                if t["t"] == "lit" and fixed[-1]["t"] == "lit":
                    fixed[-1] = lit(fixed[-1]["v"] + t["v"])
                else:
                    fixed.append(t)
            ls.append(line(*fixed))
        data = []
        for _ in range(g.randint(4, 10)):
            s = g.instance(g.choice(ls), .35)
            if g.p(.2):
                s = g.bend(s)
            if g.p(.1):
                i = g.randint(0, len(s))
                s = s[:i] + g.choice(list(" \t1ax.,/")) + s[i:]
            data.append(s)
        nl = g.choice(["\n"] * 6 + ["\r\n"])
        tops = [group("r*", [l]) for l in ls[:1]] + [group("q%d*" % i, [l]) for i, l in enumerate(ls[1:])]
        yield Case(kind="random lines").simple(tdef(tops), [nl.join(data)])


# =============================================================== C02 records
def tree_groups(g, keys, depth=0, names=("a", "b*", "c*", "d", "e.f*"), kidp=(0, 1, 1, 2), maxd=2, tails=.3, plain=.8, endp=0.0,
                fns=None, distinct=True):
    nm = (g.choice(names) if not distinct else g.choice(names) + "")
    if distinct:
        stem = nm.rstrip("*")
        nm = stem + g.fresh("") + nm[len(stem):]
    gr = g.simple_group(nm, keys, depth, plain=g.p(plain))
    for _ in range(g.choice(kidp) if depth < maxd else 0):
        k = tree_groups(g, keys, depth + 1, names, kidp, maxd, tails, plain, endp, fns, distinct)
        tl = [g.mkline(next(keys), depth + 1, g.names(1, "t" + g.fresh("")))] if g.p(tails) else []
        gr["kids"].append((k, tl))
    if g.p(endp):
        key = " " * depth + next(keys)
        gr["lines"].append(line(lit(key + " "), end()))
    if fns:
        gr["fns"] = fns(g, gr)
    return gr


def walk(tops):
    """all groups of a tree"""
    for t in tops:
        yield t
        yield from walk([k for k, _ in t["kids"]])


def long_texts(g, k, c):
    """some cases with much other text between the lines: position in the text must not matter"""
    if k % 12 == 5:
        c.filler(g, 200)
    elif k % 60 == 31:
        c.filler(g, 1200, 10000)      # twelve million characters
    return c


def c02(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c02", k)
        keys = g.keyiter()
        tops = [tree_groups(g, keys, tails=.45) for _ in range(g.choice([1, 1, 2, 3]))]
        text = g.text(tops, reps=(1, 4))
        if g.p(.25):    # what is in front of a group must not matter
            text = "\n".join([g.junk() for _ in range(g.randint(1, 40))]) + "\n" + text
        yield long_texts(g, k, Case(kind="nested groups")).simple(tdef(tops), [text])


# =============================================================== C03 paths
def path_text(g, names, maxlen=3, nullp=.12, dyn=()):
    its = []
    for i in range(g.randint(1, maxlen)):
        x = g.random()
        if x < nullp and i > 0:
            its.append("_")
        elif dyn and x < nullp + .3:
            its.append(g.choice(["", "", "p-", "n"]) + "{{ %s }}" % g.choice(dyn) + g.choice(["", "", "*", "**", "-s"]))
        else:
            its.append(g.choice(names) + g.choice(["", "", "*", "**"]))
    return ".".join(its)


def c03(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c03", k)
        keys = g.keyiter()
        ntop = g.choice([1, 1, 2, 2, 3])
        tops = []
        stems = iter(list("pqrstuvwxyzklmno") + ["%s%s" % (a, b) for a in "pqrs" for b in "klmnopqrst"])

        def grp(depth):
            # distinct stems: groups do not fight for one place, except by prefix of their parent
            s = next(stems)
            nm = path_text(g, [s, s + "1"])
            x = g.random()
            if x < .12:
                nm = None
            elif depth and x < .25:
                nm = "/" + nm if not nm.startswith("_") else nm
            elif x > (.94 if depth else .97):
                nm = "/"
            gr = g.simple_group(nm, keys, depth, nlines=(1, 2))
            for _ in range(g.choice([0, 1, 1, 2]) if depth < 2 else 0):
                gr["kids"].append((grp(depth + 1), [g.mkline(next(keys), depth + 1, g.names(1, "t" + g.fresh("")))] if g.p(.25) else []))
            return gr
        tops = [grp(0) for _ in range(ntop)]
        if g.p(.25):       # two top groups of the same path
            tops.append(g.simple_group(tops[0]["name"], keys))
        c = Case(kind="paths")
        c.simple(tdef(tops, method=g.choice(["per_input"] * 3 + ["per_template"])),
                 [g.text(tops, reps=(1, 4), noise=.02) for _ in range(g.choice([1, 1, 2]))], toint=g.p(.15))
        yield c


# =============================================================== C04 dynamic paths
def c04(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c04", k)
        keys = g.keyiter()
        dvals = ["alpha", "7", "10", "007", "a*b", "x*", "v.1", "DOM\\tom", "a\\1", "b\\n", "\\g<0>", "Gi0/1", "-", "1 ", "_", "q(1)", "$1"]
        tv = {}
        if g.p(.4):
            tv["tv"] = g.choice(["site", "a\\tb", "5", 7])
        used = []

        def grp(depth, up):
            mine = ["n%d%s" % (depth, g.fresh("")), "m%d%s" % (depth, g.fresh(""))]
            used.extend(mine)
            dyn = [mine[0]] + ([g.choice(up)] if up and g.p(.4) else []) + (["tv"] if tv and g.p(.4) else []) + (["nope"] if g.p(.05) else [])
            nm = path_text(g, ["k%d%s" % (depth, g.fresh(""))], dyn=dyn)
            if "{{" not in nm:
                nm += ".{{ %s }}" % mine[0] + g.choice(["", "*", "**"])
            key = next(keys)
            ls = [line(lit(" " * depth + key + " "), var(mine[0], g.choice([[], [], [pat("PHRASE"), pat("WORD")]])))]
            ls.append(line(lit(" " * depth + " " + next(keys) + " "), var(mine[1])))
            if g.p(.3):     # the key comes from a later line, or from none
                ls.reverse()
            gr = group(nm, ls)
            for _ in range(g.choice([0, 1, 1]) if depth < 2 else 0):
                gr["kids"].append((grp(depth + 1, up + mine), []))
            return gr
        tops = [grp(0, []) for _ in range(g.choice([1, 1, 2]))]
        if g.p(.3):     # template variables of the same names as captured values
            for x in g.sample(used, min(len(used), 3)):
                tv[x] = g.choice(["from_vars", "fv.x", 12])
        saved = g.uword
        g.uword = lambda: g.choice(dvals[:8]).replace(" ", "") if g.p(.25) else (g.choice(["alpha", "7", "10"]) if g.p(.4) else saved())
        g.word = lambda: g.choice([x for x in dvals if " " not in x])
        data = [g.text(tops, reps=(2, 4), noise=0, drop=.15) for _ in range(g.choice([1, 1, 2]))]
        yield Case(kind="dynamic paths").simple(tdef(tops, vars=[(tv, "")] if tv else ()), data, toint=g.p(.4))


# =============================================================== C05 match functions
VALS = ["up", "Gi0/1", "10", "1.5", "007", "-3", "1-3,7", "aXbXa", "A b c", "a", "1.1.1.1", "x,y,z", "mixedCase", "0", "12 13", "vlan5", "a  b c", "Gi   1"]


SUBR = [Rep(Set("a1"), 1), Lit("Gi"), Rep(Set("0123456789"), 1), Seq(Set("1Gia"), Lit("/")), Seq(Lit("u"), Rep(Cls("alpha"), 1))]
SUBW = ["a", "Gi", "up", "1", "X", "b", "0/1", ",", "i", "7", "z"]
# variables replaceall and resuball can be given: texts, expressions; as a list, by what they are replaced by
SUBS = {"sl": ["Gi", 5, "up", "a", "1"], "sd": {"X": ["Gi", "a"], "": "up", "zz": ["1", 7], "7": "0", "q": {"a": "b"}},
        "xl": [rex_text(e) for e in SUBR[:3]] + [None], "xd": {"X": [rex_text(SUBR[4]), rex_text(SUBR[3])], "N": rex_text(SUBR[2]), "": ["z", 7]}, "xs": "1.1"}
SUBX = {rex_text(e): e for e in SUBR + [Lit(x) for x in SUBW + sorted(SUBS) + ["0", "z"]]}


def suball(g, f):
    """a call of replaceall or resuball"""
    a = [g.choice(SUBW) for _ in range(g.randint(1, 3))]
    for _ in range(g.choice([0, 0, 1, 1, 2])):
        a[g.randint(min(1, len(a) - 1), len(a) - 1)] = g.choice(["sl", "sd"] if f == "replaceall" else ["xl", "xd", "xs", "sl"])
    if a[0] in SUBS and len(a) > 1:
        a[0] = "R"
    ks = [x for x in a if isinstance(SUBS.get(x), dict)]
    for x in ks[1:]:    # the keys of one dictionary go with a call
        a[a.index(x, a.index(ks[0]) + 1)] = "up"
    return call(f, *a, order=list(SUBS[ks[0]]) if ks else [], res=SUBX)


def match_calls(g, tvars):
    """one call of each kind"""
    w = lambda: g.choice(["a", "Gi", "up", "1", "X", "b", "0/1", ",", "i", "7", "z"])
    R = [Rep(Set("a1"), 1), Lit("Gi"), Seq(Lit("0"), Rep(Set("0123456789"), 1)), Rep(Cls("alpha"), 1), Rep(Set("0123456789"), 1),
         Seq(Set("1Gia"), Lit("/")), Seq(Cls("any"), Lit("1"))]

    def re_call(f, *rest, kw=None):
        e = g.choice(R)
        return call(f, rex_text(e), *rest, kw=kw, re=e, txt="%s(%s)" % (f, ", ".join(['"%s"' % rex_text(e)] + [q(x) for x in rest] + ["%s=%s" % (a, q(b)) for a, b in (kw or {}).items()])))
    one = lambda: g.choice([w(), w(), g.choice(list(tvars)) if tvars else w()])
    return {
        "contains": lambda: call("contains", *[one() for _ in range(g.choice([1, 1, 2]))]),
        "exclude": lambda: call("exclude", one()),
        "equal": lambda: call("equal", g.choice(VALS + list(tvars))),
        "notequal": lambda: call("notequal", g.choice(VALS + list(tvars))),
        "startswith_re": lambda: re_call("startswith_re"), "notstartswith_re": lambda: re_call("notstartswith_re"),
        "endswith_re": lambda: re_call("endswith_re"), "notendswith_re": lambda: re_call("notendswith_re"),
        "contains_re": lambda: re_call("contains_re"), "exclude_re": lambda: re_call("exclude_re"),
        "isdigit": lambda: call("isdigit"), "notdigit": lambda: call("notdigit"),
        "greaterthan": lambda: call("greaterthan", str(g.randint(0, 12))), "lessthan": lambda: call("lessthan", str(g.randint(0, 12))),
        "void": lambda: call("void"), "to_int": lambda: call("to_int"), "to_float": lambda: call("to_float"), "to_str": lambda: call("to_str"), "to_list": lambda: call("to_list"),
        "append": lambda: call("append", g.choice(["-z", "sfx"] + list(tvars))), "prepend": lambda: call("prepend", g.choice(["z-", "pfx"] + list(tvars))),
        "sformat": lambda: call("sformat", g.choice(["<{}>".replace("<", "[").replace(">", "]"), "{} end", "pre-{}"])),
        "truncate": lambda: call("truncate", g.randint(1, 3)),
        "item": lambda: call("item", g.randint(-4, 4)),
        "replaceall": lambda: suball(g, "replaceall"), "resuball": lambda: suball(g, "resuball"),
        "resub": lambda: (lambda e: call("resub", rex_text(e), g.choice(["", "Q", "zz"]), *g.choice([[], [2]]), re=e,
                          txt=None))(g.choice(R)),
        "let": lambda: g.choice([call("let", g.choice(["lv", "const"])), call("let", "nf%d" % g.randint(1, 3), g.choice(["v1", 5, True]))]),
        "copy": lambda: call("copy", "cp%d" % g.randint(1, 2)),
        "record": lambda: call("record", "rec%d" % g.randint(1, 2)),
        "count": lambda: call("count", kw={g.choice(["var", "globvar"]): "cnt%d" % g.randint(1, 2)}),
        "macro": lambda: call("macro", g.choice(["m_up", "m_none", "m_true", "m_false", "m_odd", "m_len", "m_tup", "m_list", "m_dict", "m_empty", "m_zero"])),
        "unrange": lambda: call("unrange", "-", ","),
        "upper": lambda: call("upper"), "lower": lambda: call("lower"), "title": lambda: call("title"), "swapcase": lambda: call("swapcase"),
        "capitalize": lambda: call("capitalize"),
        "strip": lambda: call("strip", *g.choice([[], ["a"], ["0"]])), "lstrip": lambda: call("lstrip", *g.choice([[], ["aG"]])),
        "rstrip": lambda: call("rstrip", *g.choice([[], ["1a"]])),
        "replace": lambda: call("replace", w(), g.choice(["", "R"])), "split": lambda: call("split", *g.choice([[","], ["X"], ["/"], []])),
        "startswith": lambda: call("startswith", w()), "endswith": lambda: call("endswith", w()),
        "isalpha": lambda: call("isalpha"), "islower": lambda: call("islower"), "isupper": lambda: call("isupper"),
        "join": lambda: call("join", g.choice(["", ",", "--"])), "nosuch": lambda: call("nosuchfunc"),
    }


LISTY = {"to_list", "split"}
NEEDS_STR = {"contains", "startswith_re", "notstartswith_re", "endswith_re", "notendswith_re", "contains_re", "exclude_re", "isdigit",
             "notdigit", "greaterthan", "lessthan", "truncate", "replaceall", "resub", "resuball", "unrange", "exclude", "macro", "sformat",
             "append", "prepend", "item", "lookup", "rlookup", "gpvlookup", "set"}


def match_chain(g, tvars, maxlen=4, only=None, kind="s"):
    """a chain whose calls get values of a kind they are defined for.
    returns (calls, kind of the result)"""
    fs = match_calls(g, tvars)
    out = []
    for _ in range(g.randint(1, maxlen)):
        names = [x for x in (only or fs)]
        nm = g.choice(names)
        if kind == "l" and nm not in ("item", "join", "append", "prepend", "to_list", "to_str", "to_int", "to_float", "let", "copy", "record", "count", "contains", "exclude"):
            continue
        if kind == "f" and nm not in ("to_list", "let", "copy", "record", "count", "to_float"):
            continue
        if kind in ("i", "?") and nm not in ("to_str", "to_list", "let", "copy", "record", "count", "equal", "notequal", "to_int", "to_list"):
            continue
        if kind == "l" and nm == "to_str":
            continue
        c = fs[nm]()
        if nm == "resub":
            c["txt"] = 'resub("%s", %s%s)' % (rex_text(c["re"]), q(c["a"][1]["s"]), "".join(", %d" % x["i"] for x in c["a"][2:]))
        out.append(c)
        if nm in LISTY:
            kind = "l"
        elif nm == "to_int":
            kind = "?" if kind == "s" else kind
        elif nm == "to_float":
            kind = "f" if kind in "s?i" else kind
        elif nm == "to_str":
            kind = "s"
        elif nm == "join" and kind == "l":
            kind = "s"
        elif nm == "item" and kind == "l":
            fs_ = [x["f"] for x in out]
            kind = "s" if "to_list" not in fs_ else "f" if "to_float" in fs_ else "?"
        elif nm == "let" and len(c["a"]) == 1:
            kind = "s"
        elif nm == "macro":
            kind = {"m_len": "i", "m_list": "l", "m_dict": "f", "m_zero": "i"}.get(c["a"][0]["s"], kind)
    return out, kind


def c05(seed, n, tier):
    macros = ["m_up", "m_none", "m_true", "m_false", "m_odd", "m_len", "m_tup", "m_list", "m_dict", "m_empty", "m_zero"]
    names = sorted(match_calls(rng(0, "", 0), {}))
    for k in range(n):
        g = rng(seed, "c05", k)
        tvars = {"tv1": "Gi", "tv2": "up"} if g.p(.5) else {}
        grs = []
        for j in range(4):
            # one chain opens the group, one is on a further line: a failed check
            # drops the record in the one case, the value in the other
            ch1, _ = match_chain(g, tvars, 4, only=[names[(k + j * 13) % len(names)]] * 2 + names if g.p(.7) else None)
            ch2, _ = match_chain(g, tvars, 4, only=[names[(k * 3 + j) % len(names)]] * 2 + names if g.p(.7) else None)
            l1 = line(lit("k%d " % j), var("v", [pat("PHRASE"), pat("WORD")], ch1))
            l2 = line(lit(" m%d " % j), var("w", g.choice([[pat("ORPHRASE")]] * 3 + [[pat("ROW"), pat("WORD")]]), ch2), *([lit(" ; "), var("u")] if g.p(.4) else []))
            grs.append(group("g%d*" % j, [l1, l2]))
        data = []
        for _ in range(8):
            j = g.randint(0, 3)
            data.append("k%d %s" % (j, g.choice(VALS)))
            if g.p(.8):
                data.append(" m%d %s" % (j, g.choice(VALS)) + (" ; %s" % g.choice(VALS).replace(" ", "") if any(t.get("v") == " ; " for t in grs[j]["lines"][1]["toks"]) else ""))
        vs = [(tvars, "")] if tvars else []
        if g.p(.9):
            vs.append((SUBS, ""))
        if g.p(.3):
            vs.append(({"rec1": "none", "cnt1": 0}, "saved"))
        yield Case(kind="function chains").simple(tdef(grs, vars=vs, macros=macros), ["\n".join(data)] + (["k0 up\nk1 10\n m1 7"] if g.p(.3) else []))


# =============================================================== C06 group functions
def line_names(gr, kids=False):
    out = [t["n"] for l in gr["lines"] for t in l["toks"] if t["t"] in ("var", "set")]
    return out


def fmt_parts(g, names):
    parts, txt = [], ""
    for _ in range(g.randint(1, 3)):
        if g.p(.5):
            w = g.choice(["x-", " of ", "/", "id="])
            parts.append({"k": "lit", "v": w})
            txt += w
        n = g.choice(names)
        parts.append({"k": "var", "v": n})
        txt += "{%s}" % n
    return parts, txt


def group_call(g, gr, tvars, f=None):
    ns = line_names(gr) + (["missing"] if g.p(.2) else [])
    some = lambda k=3: g.sample(ns, min(len(ns), g.randint(1, k)))
    one = lambda: g.choice(ns)
    vals = ["up", "10", "7", "a", "none"] + list(tvars)
    f = f or g.choice(["contains", "containsall", "exclude", "excludeall", "equal", "contains_val", "exclude_val", "void", "del", "set",
                       "record", "sformat", "to_int", "macro", "lookup"])
    if f in ("contains", "containsall", "exclude", "excludeall", "del"):
        return call(f, *some())
    if f in ("equal", "contains_val", "exclude_val"):
        return call(f, one(), g.choice(vals))
    if f == "set":
        return g.choice([lambda: call(f, g.choice(list(tvars) + ["plain"])), lambda: call(f, g.choice(list(tvars) + ["plain"]), "tgt"),
                         lambda: call(f, "nosuch", "tgt", "dflt"), lambda: call(f, "rec1", "got")])()
    if f == "record":
        return call(f, one(), *g.choice([[], ["rec1"]]))
    if f == "sformat":
        parts, txt = fmt_parts(g, ns + list(tvars) + (["absent"] if g.p(.1) else []))
        return call(f, txt, "fmt", fmt=parts)
    if f == "to_int":
        return call(f, *g.choice([[], some()]))
    if f == "macro":
        m = [g.choice(["g_false", "g_true", "g_none", "g_add", "g_count", "g_new", "g_nest", "g_hasb", "nosuchmacro"]) for _ in range(g.choice([1, 1, 2]))]
        return call(f, *m, names=m)
    if f == "lookup":
        return call(f, one(), g.choice(["tab", "tab.sub"]), **{"kw": g.choice([{}, {"add_field": "found"}, {"replace": False}, {"update": True}])})
    return call(f)


def c06(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c06", k)
        keys = g.keyiter()
        tvars = {"tv1": "up", "tv2": "10"} if g.p(.5) else {}

        def fns(g, gr):
            for ln in gr["lines"]:
                for t in ln["toks"]:
                    if t["t"] == "var" and g.p(.15):
                        t["dflt"] = tag(g.choice(["none", "up", "10"]))
            if g.p(.25):
                return []
            out = [group_call(g, gr, tvars) for _ in range(g.choice([1, 1, 2, 3]))]
            if g.p(.12):    # a variable named like one of the record's
                nm = g.choice(line_names(gr))
                tvars[nm] = "of-template"
                parts, txt = fmt_parts(g, [nm, "tv1"])
                tvars.setdefault("tv1", "up")
                out.append(call("sformat", txt, "fmt2", fmt=parts))
            if any(c["f"] == "to_int" for c in out):    # these are for texts
                out = [c for c in out if c["f"] not in ("contains_val", "exclude_val")]
            if len({c["f"] for c in out}) < len(out) or g.p(.4):    # an attribute name can be given once
                for c in out:
                    c["chain"] = True
            return out
        late = g.p(.2)      # rejected, or no longer, by what follows a child record
        tops = [tree_groups(g, keys, fns=fns, tails=.7 if late else .15, maxd=2, kidp=(1, 1, 2) if late else (0, 1, 1, 2)) for _ in range(g.choice([1, 1, 2]))]
        for gr in walk(tops) if late else []:
            tv = [t["n"] for _, tl in gr["kids"] for l in tl for t in l["toks"] if t["t"] == "var"]
            if tv:
                gr["kids"][-1][1].append(g.mkline(next(keys), 1, g.names(1, "t" + g.fresh(""))))
                if g.p(.8):
                    gr["fns"] = [call(g.choice(["exclude", "exclude", "contains", "equal"]), g.choice(tv))]
                    if gr["fns"][0]["f"] == "equal":
                        gr["fns"][0] = call("equal", g.choice(tv), "up")
        saved = g.uword
        g.uword = lambda: g.choice(["up", "10", "7", "a", "007"]) if g.p(.5) else saved()
        lk = {"tab": {"up": "UP", "10": {"f1": "x", "f2": "y"}, "sub": {"7": "seven", "a": "A"}}}
        c = Case(kind="group functions").simple(
            tdef(tops, vars=[(tvars, "")] if tvars else [], lookups=lk,
                 macros=["g_false", "g_true", "g_none", "g_add", "g_count", "g_new", "g_nest", "g_hasb"]),
            [g.text(tops, reps=(2, 4), noise=0, drop=.4) for _ in range(g.choice([1, 1, 2]))])
        yield c


# =============================================================== C07 closing
def closing(g, gr, depth, keys):
    """adds closing lines to a group: own keyword, a bare mark, or the opening line of nothing"""
    ind = " " * depth
    for _ in range(g.choice([1, 1, 1, 2])):
        kw = g.choice(["!", "exit", "end", next(keys)])
        x = g.random()
        if x < .5:
            gr["lines"].append(line(lit(ind + kw), end()))
        elif x < .8:
            gr["lines"].append(line(lit(ind + kw + " "), var(g.fresh("e"), end=True)))
        else:
            gr["lines"].append(line(lit(ind + kw + " "), ign(), end()))


def c07(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c07", k)
        keys = g.keyiter()
        kill = g.p(.4)      # groups also close when their opening line is filtered

        def tree(depth):
            stem = g.fresh("g")
            gr = g.simple_group(stem + g.choice(["", "*"]), keys, depth)
            if kill and g.p(.5):
                t = [t for t in gr["lines"][0]["toks"] if t["t"] == "var"][0]
                t["fns"] = [call("contains", g.choice(["v", "1", "e"]))]
            for _ in range(g.choice([0, 1, 1, 2]) if depth < 2 else 0):
                gr["kids"].append((tree(depth + 1), [g.mkline(next(keys), depth + 1, g.names(1, "t" + g.fresh("")))] if g.p(.2) else []))
            if g.p(.65):
                closing(g, gr, depth, keys)
            return gr
        tops = [tree(0) for _ in range(g.choice([1, 1, 2]))]
        if g.p(.15):   # a second opening line
            l = tops[0]["lines"][0]
            tops[0]["lines"].insert(1, line(lit(next(keys) + " "), var("s2", start=True)))
        texts = []
        for _ in range(g.choice([1, 1, 2])):
            out = []
            for _ in range(g.randint(2, 4)):
                out += g.body(g.choice(tops), .02, reps=(0, 2), junk=.15, drop=.3)
                if g.p(.4):
                    out += [g.choice(["!", " !", "exit", " exit", "end", "  exit", "  !"])]
                if g.p(.5):     # lines after the closing line
                    t = g.choice(tops)
                    out += [g.instance(g.choice(t["lines"])) for _ in range(g.randint(1, 2))]
                    if t["kids"]:
                        out += g.body(t["kids"][0][0], 0)
            texts.append("\n".join(out))
        yield Case(kind="closing lines").simple(tdef(tops), texts)


# =============================================================== C08 defaults
def c08(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c08", k)
        keys = g.keyiter()
        tv = {"dv": g.choice(["from_var", 42, False]), "dd": {"qq": "dict default", "a0": "d0"}} if g.p(.4) else {}
        empt = g.p(.25)     # opening lines without variables

        def tree(depth):
            gr = g.simple_group(g.choice(["", "x."]) + g.fresh("g") + g.choice(["", "*", "*"]), keys, depth, nlines=(1, 4))
            if empt and g.p(.6):
                gr["lines"].insert(0, line(lit(" " * depth + next(keys)), start()))
            for l in gr["lines"]:
                for t in l["toks"]:
                    if t["t"] == "var" and g.p(.35):
                        t["dflt"] = tag(g.choice(["none", "", 0, 5, False, None, "dv"]))
            if g.p(.3):     # a value found in one of two lines
                vs = [t for l in gr["lines"] for t in l["toks"] if t["t"] == "var"]
                gr["lines"].append(g.mkline(next(keys), depth + 1, [g.choice(vs)["n"]]))
                if g.p(.3):
                    gr["lines"][-1]["toks"][1]["dflt"] = tag(g.choice(["none", 3, ""]))
            if g.p(.2):
                gr["lines"].append(line(setv(g.fresh("u"), g.choice(["const", 7, True, "dv"]))))
            if g.p(.3):
                gr["default"] = g.choice(["gd", ""] + (["dv"] if isinstance(tv.get("dv"), str) else []))
            if tv and g.p(.1):
                gr["default"], gr["vars_default"] = tv["dd"], "dd"
            for _ in range(g.choice([0, 1, 1, 2]) if depth < 2 else 0):
                gr["kids"].append((tree(depth + 1), []))
            return gr
        tops = [tree(0) for _ in range(g.choice([1, 2, 2]))]
        if tv and g.p(.5):     # groups that are nothing but a default
            for _ in range(g.choice([1, 1, 2])):
                e = group(g.choice(["", "x.", "/"]) + g.fresh("e") + g.choice(["", "*", "**"]), [], default=tv["dd"], vars_default="dd")
                t = g.choice(tops)
                if g.p(.4):
                    tops.insert(g.randint(0, len(tops)), e)
                else:
                    t["kids"].insert(g.randint(0, len(t["kids"])), (e, []))
        fed = [t for t in tops if g.p(.7)]
        texts = [(g.text(fed, reps=(1, 3), noise=0, drop=.5) if fed else "nothing here\n at all") for _ in range(g.choice([1, 1, 2]))]
        yield long_texts(g, k, Case(kind="defaults")).simple(tdef(tops, vars=[(tv, "")] if tv else []), texts)


# =============================================================== C09 joined and _line_ values
def c09(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c09", k)
        g.again = .4
        keys = g.keyiter()
        tops = []
        for j in range(g.choice([1, 1, 2])):
            depth = 0

            def tree(depth):
                gr = g.simple_group(g.fresh("g") + g.choice(["", "*"]), keys, depth, nlines=(1, 2))
                nm = g.fresh("j")
                chain = g.choice([[], [call("to_list")], [call("split", ",")], [call("to_int")], [call("to_str")], [call("upper")],
                                  [call("replace", "nil", "")], [call("replace", "nil", ""), call("split", ",")]])
                jm = call("joinmatches", *g.choice([[], [","], [" "], [";;"]]))
                for _ in range(g.choice([1, 1, 2])):
                    key = next(keys)
                    kind = g.random()
                    if kind < .6:
                        t = var(nm, [pat("PHRASE"), pat("WORD")], chain + [jm])
                        toks = [lit(" " * depth + " " + key + " "), t]
                        if g.p(.25):
                            toks += [lit(" , "), var(g.fresh("w"))]
                    elif kind < .85:
                        t = var(nm, [], ([call("contains", g.choice(["v", "1", "x"]))] if g.p(.4) else []) + chain + ([jm] if g.p(.3) else []), line=True)
                        toks = [lit(" " * depth + " "), t] if g.p(.7) else [t]
                    else:
                        t = var(nm, [], [jm])
                        toks = [lit(" " * depth + " " + key + " "), t, lit(" in "), var(nm + "x", [], [call("joinmatches", "-")])]
                    gr["lines"].append(line(*toks))
                if depth == 0 and g.p(.3):
                    gr["kids"].append((tree(1), []))
                if g.p(.35):
                    gr["lines"].append(line(lit(" " * depth + g.choice(["!", "exit", "end"])), end()))
                return gr
            tops.append(tree(0))
        if g.p(.12):     # a group made of a _line_ only
            tops.append(group(g.fresh("all"), [line(var("cfg", [], [call("contains", "v")] if g.p(.5) else [], line=True))]))
        saved = g.uword
        g.uword = lambda: "%s,%s" % (saved(), saved()) if g.p(.25) else (g.choice(["10", "7", "0", "0", "nil", "nil", "nil"]) if g.p(.35) else saved())
        texts = [g.text(tops, reps=(1, 3), noise=0, drop=.15, junk=.15) for _ in range(g.choice([1, 1, 2]))]
        yield Case(kind="joined values").simple(tdef(tops), texts)


# =============================================================== C10 several templates lines for one data line
def c10(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c10", k)
        shared = g.sample(g.KEYS, g.choice([2, 3, 4]))     # few keywords: lines of several groups match the same data
        marks = g.p(.3)     # mostly bare marks of a start
        names = ["a" * j + x for j in range(1, 6) for x in ("", "b", "c", "ab", "d")]    # names that begin like others
        names = iter(g.sample(names, len(names)) if g.p(.6) else ["g%d" % j for j in range(1, 26)])

        def tree(depth):
            meth = g.choice(["", "", "table"])
            ls = []
            for i in range(g.randint(1, 4)):
                key = g.choice(shared)
                ind = depth if i == 0 or g.p(.3) else depth + 1
                toks = [lit(" " * ind + key + " ")]
                x = g.random() if not marks or g.p(.5) else .8
                v = var(g.fresh("v"), g.choice([[], [pat("PHRASE"), pat("WORD")], [pat("DIGIT")]]), start=(i > 0 and g.p(.25)))
                if x < .75:
                    toks.append(v)
                    if g.p(.3):
                        toks += [lit(" "), var(g.fresh("w"))]
                elif x < .9:
                    toks = [lit(" " * ind + key + " up"), start()]
                else:
                    toks = [lit(" " * ind), var(g.fresh("l"), line=True)]
                ls.append(line(*toks))
            gr = group(next(names) + g.choice(["", "*"]), ls, method=meth)
            for _ in range(g.choice([0, 1, 1, 2]) if depth < 2 else 0):
                gr["kids"].append((tree(depth + 1), []))
            if g.p(.2):
                gr["lines"].append(line(lit(" " * depth + g.choice(shared) + " off"), end()))
            return gr
        tops = [tree(0) for _ in range(g.choice([1, 1, 2, 3] if not marks else [2, 3, 4]))]
        out = []
        for _ in range(g.randint(4, 12)):
            out.append(" " * g.choice([0, 0, 1, 1, 2, 3]) + g.choice(shared) + " " + g.choice(["up", "up", "off", "10", "7", "a b", "v w x", "Gi0/1", "1 2"]))
        yield Case(kind="competing lines").simple(tdef(tops), ["\n".join(out)])


# =============================================================== C11 headers
def c11(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c11", k)
        tops, texts = [], []
        cols = []
        for j in range(g.choice([1, 1, 2])):
            nc = g.randint(1, 6)
            hs = g.sample(["Port", "Name", "Status", "Vlan", "Duplex", "Speed", "Type", "Id", "A"], nc)
            ws = [len(h) + g.randint(1, 8) for h in hs]
            ws0 = g.choice(["", "", "", " ", "   ", "\t", "\t", "\t ", " \t", "\t\t"])
            ind = len(ws0.replace("\t", "    "))       # a tab counts for four
            txt = ws0 + "".join(h.ljust(w) for h, w in zip(hs, ws))
            if g.p(.7):
                txt = txt.rstrip() + g.choice([" ", "  "])
            nreq = g.choice([0, 0, nc, g.randint(1, nc), nc + 2])
            gr = group("h%d*" % j, [line(hdr(txt, nreq))])
            if g.p(.3):
                gr["lines"].append(line(lit("  note "), var("note", [pat("ORPHRASE")])))
            if g.p(.2):
                gr["lines"].append(line(lit("===="), end()))
            tops.append(gr)
            cols.append((txt, hs, ws, ind))
        out = []
        for _ in range(g.randint(3, 9)):
            txt, hs, ws, ind = g.choice(cols)
            x = g.random()
            if x < .15:
                out.append(txt if g.p(.5) else txt.rstrip())
            elif x < .25:
                out.append(g.choice(["", "  note some text", "====", "-----", "  note"]))
            else:
                row = " " * ind
                for i, w in enumerate(ws):
                    v = g.choice(["", g.word(), g.uword(), "a b", "0", "long-" + g.uword()]) if g.p(.85) else ""
                    row += v[:w].ljust(w) if g.p(.95) else v.ljust(w)
                if g.p(.5):
                    row = row.rstrip()
                if g.p(.2):
                    row = row[:g.randint(0, len(row))]
                out.append(row)
        yield Case(kind="headers").simple(tdef(tops), ["\n".join(out)])


# =============================================================== C12 inputs are independent, in order
def c12(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c12", k)
        keys = g.keyiter()
        tops = [tree_groups(g, keys, tails=.2) for _ in range(g.choice([1, 2, 2]))]
        # what one input could leave behind: open groups, closed groups, dynamic path values, variables
        if g.p(.5):
            tops.append(group("dyn.{{ dk }}" + g.choice(["", "*"]), [line(lit("dk "), var("dk")), line(lit(" dv "), var("dv"))]))
            tops.append(group("oth.{{ dk }}.x*", [line(lit("ok "), var("ov"))]))
        if g.p(.4):
            tops.append(group("st*", [line(lit("st "), var("sv", [], [call("record", "seen")])), line(lit(" end of st"), end())]))
            tops.append(group("us*", [line(lit("us "), var("uv", [], [call("let", "z"), ]))], fns=[call("set", "seen", "was", "nothing")]))
        if g.p(.3):
            tops.append(group("ct*", [line(lit("ct "), var("cv", [], [call("count", kw={"var": "c1", "globvar": "c2"})]))],
                              fns=[call("set", "c1", "n1", "zero"), call("set", "c2", "n2", "zero"), dict(call("void"), f="to_int", a=[tag("cv")])]))
            for x in tops[-1]["fns"]:
                x["chain"] = True
        texts = [g.text(tops, reps=(1, 3), noise=0, drop=.3) if g.p(.9) else g.choice(["", "\n", "nothing", " "]) for _ in range(g.randint(2, 5))]
        if g.p(.4):
            texts.append(texts[0])      # the same text twice is one input
        ins = []
        if g.p(.4):
            for _ in range(g.randint(1, 3)):
                ins.append({"name": g.choice(["in1", "in2", "Default_Input"]), "groups": ["all"], "data": [g.text(tops, reps=(1, 2), noise=0)]})
        c = Case(kind="several inputs").new().add_template(tdef(tops, inputs=ins, method=g.choice(["per_input"] * 5 + ["per_template"])))
        for t in texts:
            c.add_input(t, name=g.choice([None, None, None, "in1", "in2", "other"]))
        yield c.parse(one=True).result()


def gen_part(f, quick, thorough=None):
    """a part made of generated sessions"""
    def part(w, seed, tier, round_):
        return list(f(seed, quick if tier != "thorough" else (thorough or quick * 4), tier if round_ == 0 else "quick"))
    return part


PROPS = {
    "C01": {"parts": [gen_part(c01, 200)], "cover": ["Start"]},
    "C02": {"parts": [gen_part(c02, 300)], "cover": ["Start", "Add"]},
    "C03": {"parts": [gen_part(c03, 300)], "cover": ["Start", "Add"]},
    "C04": {"parts": [gen_part(c04, 300)], "cover": ["Start", "Add"]},
    "C05": {"parts": [gen_part(c05, 250)], "cover": ["Start", "Add", "Filtered"]},
    "C06": {"parts": [gen_part(c06, 300)], "cover": ["Start", "Add"]},
    "C07": {"parts": [gen_part(c07, 300)], "cover": ["Filtered", "BelowClosed", "IsClosed", "Start", "End", "Add"]},
    "C08": {"parts": [gen_part(c08, 300)], "cover": ["Start", "Add"]},
    "C09": {"parts": [gen_part(c09, 300)], "cover": ["Start", "Join"]},
    "C10": {"parts": [gen_part(c10, 500)], "cover": ["Start", "Join", "Add", "End"]},
    "C11": {"parts": [gen_part(c11, 300)], "cover": ["Start", "Filtered"]},
    "C12": {"parts": [gen_part(c12, 200)], "cover": ["Start", "Add", "NextDatum"]},
}
