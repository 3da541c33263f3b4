"""Seeded generation of templates and texts."""
import random

from tmpl import *

CALL = call


def L_(*v): return lit("".join(v))


class G(random.Random):
    def __init__(self, seed):
        super().__init__(seed)
        self.n = 0
        self.again = .05    # how often a line occurs more than once in a record
        self.oddfns = [call("to_int"), call("replace", "nil", "")]
        self.uni = 0        # how often a value has characters that are not ASCII
        self.xml = False    # whether texts are written in templates, which cannot have control characters
        self.odd = 0        # how often a variable's values become 0, -1 or empty text

    def p(self, x):
        return self.random() < x

    def fresh(self, pre="v"):
        self.n += 1
        return "%s%d" % (pre, self.n)

    # ------------------------------------------------------------ values
    def wide(self):
        """texts with letters, digits and blanks of other scripts, and control characters"""
        q = ["\u540d\u540d", "a\u00f1o", "\u00d8", "x\u0436", "a\u0663", "\uff17a"]
        if self.uni != .1:
            q += ["a\u00a0b", "\u00a0", "a\u0085", "x\u2028y", "\u3000w", "\u2003", "\u0096b", "\ufeffx"]
            if not self.xml:
                q += ["a\x0bb", "\x0cz", "\x1fq", "a\x00b"]
        return self.choice(q)

    def word(self):
        if self.uni and self.p(self.uni):
            return self.wide()
        return self.choice(["a", "b", "Gi0/1", "x-y", "up", "10", "007", "A.b", "Z_9", "7", "vlan5", "1.2"])

    def uword(self):
        """a value not seen before"""
        if self.uni and self.p(self.uni):
            return self.wide() if self.p(.6) else self.fresh("\u540d")
        if self.odd and self.p(self.odd):
            return self.choice(["0", "0", "nil", "nil", "-1"])
        return self.fresh(self.choice(["v", "w", "Te0/", "x-"]))

    def value(self, p):
        """a text the pattern matches"""
        if p is None:
            return self.uword() if self.p(.7) else self.word()
        if "re" in p:
            return self.rexval(p["re"])
        k = p["p"]
        if k == "WORD":
            return self.uword()
        if k in ("PHRASE",):
            return " ".join(self.uword() for _ in range(self.randint(2, 3)))
        if k == "ROW":
            return self.choice([" ", "  ", "   "]).join(self.uword() for _ in range(self.randint(2, 3)))
        if k == "ORPHRASE":
            return " ".join(self.uword() for _ in range(self.randint(1, 3)))
        if k == "DIGIT" and self.uni > .25 and self.p(.2):
            return self.choice(["\u0663", "1\uff17", "\u096b0"])
        if k == "DIGIT":
            return str(self.randint(0, 4000))
        if k == "IP":
            return ".".join(str(self.randint(0, 255)) for _ in range(4))
        if k == "PREFIX":
            return self.value(pat("IP")) + "/%d" % self.randint(0, 32)
        if k == "IPV6":
            return self.choice(["fe80::1", "2001:db8::1", "::1", "1:2:3:4:5:6:7:8", "fd00::"])
        if k == "PREFIXV6":
            return self.value(pat("IPV6")) + "/%d" % self.randint(0, 128)
        if k == "MAC":
            return self.choice(["aa:bb:cc:dd:ee:0%d" % self.randint(0, 9), "aabb.ccdd.ee0%d" % self.randint(0, 9),
                                "aa-bb-cc-dd-ee-ff", "aa.bb.cc.dd.ee.ff", "aabb:ccdd:eeff"])
        if k == "_line_":
            return self.choice(["", " "]) + " ".join(self.uword() for _ in range(self.randint(1, 3)))
        raise ValueError(p)

    def rexval(self, e):
        k = e["k"]
        if k == "cls":
            return {"S": "q", "any": self.choice("a 1"), "d": self.choice("0123456789"), "hex": self.choice("0aF"),
                    "sp": " ", "ws": " ", "alpha": self.choice("abXY"), "w": self.choice("a_9")}[e["v"]]
        if k == "set":
            return self.choice(e["v"])
        if k == "lit":
            return e["v"]
        if k == "seq":
            return "".join(self.rexval(x) for x in e["v"])
        if k == "alt":
            return self.rexval(self.choice(e["v"]))
        hi = e["hi"] or e["lo"] + 3
        return "".join(self.rexval(e["e"]) for _ in range(self.randint(e["lo"], hi)))

    def tokval(self, t):
        ps = t["pats"]
        if t["t"] == "var" and t["isline"] and len(ps) > 1:
            ps = ps[1:]
        return self.value(self.choice(ps) if ps else None)

    # ------------------------------------------------------------ text of a line
    def instance(self, ln, noise=0.0):
        out = []
        toks = ln["toks"]
        for n, t in enumerate(toks):
            if t["t"] in ("lit",):
                s = t["v"]
                if self.p(noise):
                    s = self.bend(s)
                out.append(s)
            elif t["t"] in ("var", "ign"):
                out.append(self.tokval(t))
            else:
                break
        s = "".join(out)
        if toks and toks[-1]["t"] in ("start", "end", "set"):
            s = s.rstrip()
        if self.p(noise / 2):
            s += self.choice([" ", "\t", " x", "  "])
        return s

    def bend(self, s):
        """a near miss or an equivalent spelling"""
        k = self.randint(0, 6)
        if self.uni > .1 and self.p(.3):
            return s.replace(" ", self.choice(["\u00a0", "\u2003", " \u00a0", "\u0085"] + ([] if self.xml else ["\x0b", "\x0c"])), 1) if self.p(.5) else s + self.choice(["\u00a0", "\u2028"] + ([] if self.xml else ["\x0c"]))
        if k == 0:
            return s.replace(" ", "  ")
        if k == 1:
            return " " + s
        if k == 2:
            return s[1:] if s else s
        if k == 3:
            return "".join(self.choice("0123456789") if c.isdigit() else c for c in s)
        if k == 4:
            return s.replace(" ", "\t", 1)
        if k == 5:
            return s.upper()
        return s + self.choice(["z", " ", "1"])

    # ------------------------------------------------------------ text of a template
    def junk(self):
        return self.choice(["", "!", "junk " + self.uword(), " " + self.uword(), "# " + self.uword(), "  deep x", "exit"])

    def body(self, g, noise, depth=0, reps=(0, 2), junk=0.1, drop=0.25):
        """lines of one occurrence of group g, the opening line first"""
        out = []
        ls = [l for l in g["lines"] if not self.uncond(l)]
        if not ls:
            items = []
        else:
            starts = [l for n, l in enumerate(ls) if n == 0 or g["method"] == "table" or self.is_start(l)]
            out.append(self.instance(self.choice(starts) if self.p(.8) else ls[0], noise))
            items = [("l", l) for l in ls if l not in starts or self.p(.15)]
        for k, tail in g["kids"]:
            items += [("k", k)] * self.randint(*reps) if not self.p(.2) else [("k", k)]
            items += [("l", l) for l in tail]
        if self.p(.3):
            self.shuffle(items)
        for kind, x in items:
            if self.p(junk):
                out.append(self.junk())
            if kind == "l":
                if not self.p(drop):
                    out.append(self.instance(x, noise))
                for _ in range(3):
                    if self.p(self.again):
                        out.append(self.instance(x, noise))
            else:
                out += self.body(x, noise, depth + 1, reps, junk, drop)
        return out

    def is_start(self, l):
        return any(t["t"] == "start" or (t["t"] == "var" and "start" in t["acts"]) or t["t"] == "hdr" for t in l["toks"])

    def uncond(self, l):
        return len(l["toks"]) == 1 and l["toks"][0]["t"] == "set"

    def text(self, groups, noise=0.05, reps=(1, 3), **kw):
        out = []
        if self.p(.3):
            out += [self.junk() for _ in range(self.randint(1, 3))]
        gs = list(groups)
        for _ in range(self.randint(*reps)):
            g = self.choice(gs)
            out += self.body(g, noise, **kw)
            if self.p(.15):
                out.append(self.junk())
        if self.p(.1) and len(out) > 1:
            i, j = self.randrange(len(out)), self.randrange(len(out))
            out[i], out[j] = out[j], out[i]
        return "\n".join(out)

    # ------------------------------------------------------------ templates
    KEYS = ["interface", "desc", "vlan", "ip address", "router", "neighbor", "area", "route", "mtu 10", "sub", "unit", "on",
            "member", "zone", "speed", "state", "peer", "as", "tag", "rule"]

    def names(self, n, pre=""):
        return ["%s%s%d" % (pre, self.choice("abcxyz"), i) for i in range(n)]

    def pats(self):
        k = self.random()
        if k < .55:
            return []
        if k < .9:
            return [pat(self.choice(["WORD", "PHRASE", "ORPHRASE", "ROW", "DIGIT", "IP", "PREFIX", "MAC", "IPV6"]))]
        return [pat(self.choice(["DIGIT", "IP", "PHRASE"])), pat("WORD")]

    def mkline(self, key, indent, names, plain=True, start_=False, end_=False, extra=None):
        toks = [lit(" " * indent + key + " ")]
        for n, v in enumerate(names):
            if n:
                toks.append(lit(self.choice([" ", " - ", " mask "])))
            kw = dict(extra or {})
            if self.odd and self.p(self.odd * 2):
                kw.setdefault("fns", [self.choice(self.oddfns)])
            toks.append(var(v, [] if plain else self.pats(), **kw))
        return line(*toks)

    def simple_group(self, name, keys, depth=0, nlines=(1, 3), kids=0, pre="", plain=True):
        """keys: iterator of keywords, each used once"""
        names = self.names(12, pre or chr(97 + depth))
        it = iter(names)
        ls = [self.mkline(next(keys), depth, [next(it) for _ in range(self.choice([1, 1, 2]))], plain)]
        for _ in range(self.randint(*nlines) - 1):
            ls.append(self.mkline(next(keys), depth + 1, [next(it) for _ in range(self.choice([1, 1, 2]))], plain))
        return group(name, ls)

    def keyiter(self):
        ks = list(self.KEYS)
        self.shuffle(ks)
        while True:
            for k in ks:
                yield k
            ks = [k + "x" for k in ks]
