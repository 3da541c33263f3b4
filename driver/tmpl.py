"""Abstract templates: builders, and their rendering as TTP template text.

The same abstract template is given to the specification (as JSON) and, rendered
as text, to the implementation.
"""

import zlib


def S(v): return {"s": v}
def I(v): return {"i": v}
def B(v): return {"b": v}
def L(v): return {"l": v}
def D(v): return {"d": v}
NONE = {"z": 0}


def pyval(t):
    """tagged value -> python value"""
    (k, v), = t.items()
    if k in ("s", "i", "b"):
        return v
    if k == "z":
        return None
    if k == "l":
        return [pyval(x) for x in v]
    if k == "d":
        return {a: pyval(b) for a, b in v.items()}
    raise ValueError(t)


def tag(v):
    if isinstance(v, bool):
        return B(v)
    if isinstance(v, int):
        return I(v)
    if isinstance(v, str):
        return S(v)
    if v is None:
        return NONE
    if isinstance(v, (list, tuple)):
        return L([tag(x) for x in v])
    if isinstance(v, dict):
        return D({str(a): tag(b) for a, b in v.items()})
    raise ValueError(v)


# ---------------------------------------------------------------- expressions
def Cls(v): return {"k": "cls", "v": v}
def Lit(v): return {"k": "lit", "v": v}
def Set(v): return {"k": "set", "v": v}
def Seq(*v): return {"k": "seq", "v": list(v)}
def Alt(*v): return {"k": "alt", "v": list(v)}
def Rep(e, lo, hi=0, lazy=False): return {"k": "rep", "e": e, "lo": lo, "hi": hi, "lazy": lazy}


CLASS_TEXT = {"S": r"\S", "any": ".", "d": r"\d", "hex": "[0-9a-fA-F]", "sp": " ", "ws": r"[ \t]",
              "alpha": "[a-zA-Z]", "w": r"\w"}


def rex_text(e):
    k = e["k"]
    if k == "cls":
        return CLASS_TEXT[e["v"]]
    if k == "set":
        return "[" + "".join("\\" + c if c in "]^-\\" else c for c in e["v"]) + "]"
    if k == "lit":
        import re
        return re.escape(e["v"])
    if k == "seq":
        return "".join(rex_text(x) for x in e["v"])
    if k == "alt":
        return "(?:" + "|".join(rex_text(x) for x in e["v"]) + ")"
    if k == "rep":
        lo, hi = e["lo"], e["hi"]
        q = {(0, 0): "*", (1, 0): "+", (0, 1): "?"}.get((lo, hi)) or (
            "{%d,}" % lo if hi == 0 else "{%d,%d}" % (lo, hi))
        return "(?:" + rex_text(e["e"]) + ")" + q + ("?" if e["lazy"] else "")
    raise ValueError(e)


# ---------------------------------------------------------------- calls
def call(f, *a, kw=None, **extra):
    """a function call: arguments are python values, extra fields go to the spec only"""
    c = {"f": f, "a": [tag(x) for x in a], "kw": {k: tag(v) for k, v in (kw or {}).items()}}
    c.update(extra)
    return c


def q(v):
    if isinstance(v, str):
        assert '"' not in v and "\\" not in v and "\n" not in v, v
        return '"%s"' % v
    return repr(v)


def args_text(c, sep=", "):
    lo = (lambda t: t.lower() if t in ("True", "False", "None") else t) if c.get("lower") else str
    a = [lo(q(pyval(x))) for x in c["a"]]
    a += ["%s=%s" % (k, lo(q(pyval(v)))) for k, v in c["kw"].items()]
    return sep.join(a)


def call_text(c):
    if "txt" in c:
        return c["txt"]
    f = c["f"]
    if not c["a"] and not c["kw"]:
        return f
    return "%s(%s)" % (f, args_text(c))


# ---------------------------------------------------------------- tokens
def lit(v): return {"t": "lit", "v": v}


def pat(name): return {"p": name}


def rex(e):
    t = rex_text(e)
    # a pipe separates functions: such an expression is given as a template variable
    return {"re": e, "txt": t if "|" not in t else "RX%d" % (zlib.crc32(t.encode()) % 10**8), "rx": t if "|" in t else ""}


def rex_vars(o):
    """{name: text} of the expressions given as variables"""
    out = {}
    if isinstance(o, dict):
        if o.get("rx"):
            out[o["txt"]] = o["rx"]
        for v in o.values():
            out.update(rex_vars(v))
    elif isinstance(o, (list, tuple)):
        for v in o:
            out.update(rex_vars(v))
    return out


def var(n, pats=(), fns=(), start=False, end=False, dflt=None, line=False, ind=()):
    """ind: _exact_ / _exact_space_ indicators; joinmatches is given as a call in fns"""
    acts = []
    if line:
        acts.append("join")
    if start:
        acts.append("start")
    if end:
        acts.append("end")
    for c in fns:
        if c["f"] == "joinmatches":
            acts.append("join")
    pats = list(pats)
    if line:
        pats = [pat("_line_")] + pats
    t = {"t": "var", "n": n, "pats": pats, "fns": list(fns), "acts": acts, "isline": bool(line), "ind": list(ind)}
    if dflt is not None:
        t["dflt"] = tag(dflt)
    return t


def ign(p=None): return {"t": "ign", "pats": [p] if p else []}
def start(): return {"t": "start"}
def end(): return {"t": "end"}
def setv(n, v): return {"t": "set", "n": n, "v": tag(v)}
def hdr(text, cols=0): return {"t": "hdr", "v": text, "cols": cols}


def pat_text(p):
    return p["p"] if "p" in p else 're("%s")' % p["txt"]


def tok_text(t):
    k = t["t"]
    if k == "lit":
        return t["v"]
    if k == "start":
        return "{{ _start_ }}"
    if k == "end":
        return "{{ _end_ }}"
    if k == "ign":
        if not t["pats"]:
            return "{{ ignore }}"
        p = t["pats"][0]
        return '{{ ignore("%s") }}' % (p["p"] if "p" in p else p["txt"])
    if k == "set":
        return "{{ %s | set(%s) }}" % (t["n"], q(pyval(t["v"])))
    if k == "hdr":
        return t["v"] + "{{ _headers_%s }}" % (" | columns(%d)" % t["cols"] if t["cols"] else "")
    return "{{ " + " | ".join(tok_parts(t)) + " }}"


def tok_parts(t):
    """of a variable: its name, then patterns, functions and the rest"""
    parts = [t["n"]]
    pats = list(t["pats"])
    if t["isline"]:
        parts.append("_line_")
        pats = pats[1:]
    parts += [pat_text(p) for p in pats]
    if "start" in t["acts"]:
        parts.append("_start_")
    if "end" in t["acts"]:
        parts.append("_end_")
    parts += [call_text(c) for c in t["fns"]]
    if "dflt" in t:
        parts.append("default(%s)" % q(pyval(t["dflt"])) if not t.get("dbare") else "default")
    return parts + t["ind"]


def line(*toks, tail=False):
    inds = [i for t in toks if t["t"] == "var" for i in t["ind"]]
    return {"toks": list(toks), "exact": "_exact_" in inds, "exsp": "_exact_space_" in inds, "tail": tail}


def line_text(l):
    return "".join(tok_text(t) for t in l["toks"])


# ---------------------------------------------------------------- groups
def item(raw):
    """a path item from its text, e.g. 'a*', 'v{{ x }}**'"""
    import re
    body = raw.rstrip("*")
    star = len(raw) - len(body)
    parts, pos = [], 0
    for m in re.finditer(r"{{\s*(\S+?)\s*}}", body):
        if m.start() > pos:
            parts.append({"k": "lit", "v": body[pos:m.start()]})
        parts.append({"k": "var", "v": m.group(1)})
        pos = m.end()
    if pos < len(body):
        parts.append({"k": "lit", "v": body[pos:]})
    return {"raw": raw, "parts": parts, "star": star}


def items(path): return [item(p) for p in path.split(".")] if path else []


def group(name=None, lines=(), kids=(), method="", default=None, fns=(), input="", output="", attrs="", vars_default=None):
    """a group tree node; kids are (group, [tail lines]) pairs or groups.
    default: python value; a dict default is rendered as a reference to a template variable"""
    return {"name": name, "lines": list(lines), "kids": [k if isinstance(k, tuple) else (k, []) for k in kids],
            "method": method, "default": default, "fns": list(fns), "input": input, "output": output, "attrs": attrs,
            "vars_default": vars_default}


PAINT = {"red": ["False", "No", "Failed", "Error", "Failure", "Fail", "false", "no", "failed", "error", "failure", "fail"],
         "green": ["True", "Yes", "Success", "Ok", "true", "yes", "success", "ok"], "yellow": ["Warning", "warning"]}


def output(name="", desc="", cond=None, fns=(), fmt="raw", ret=("self",), url="", filename="", load=None, loadas="json", fparts=None, fattrs="", tabs=(), update=False,
           jinja=(), log=None, paint=None, **ta):
    """an output: what the specification reads, and its text and arguments for the code.
    ta: path, headers, missing, key, sep, quote, order (of the keys), sorted (all headers)
    fparts: filename as parts; tabs: of a workbook, each like ta with tab; log: servers, port, facility, iterate, form"""
    t0 = {"path": [], "headers": [], "order": [], "sorted": [], "missing": "", "key": "", "sep": ",", "quote": '"'}
    t = dict(t0, **ta)
    if filename is None:
        filename = (name + "_" if name else "") + "output_<TIME>.txt"
    log = dict({"servers": [], "facility": 77, "iterate": True}, **(log or {}))
    d = {"name": name, "desc": desc, "cond": [] if cond is None else [S(cond[0]), tag(cond[1])], "fns": list(fns),
         "fmt": fmt, "ta": t, "ret": list(ret), "url": url.rstrip("/") + "/" if url else "", "load": NONE if load is None else tag(load),
         "fname": fparts or [{"k": "lit", "v": filename}], "ftext": filename, "update": update, "jinja": list(jinja),
         "paint": [{"w": w, "on": "\033[0;3%s;40m" % c, "off": "\033[0m"} for c, k in (("1", "red"), ("2", "green"), ("3", "yellow"))
                   for w in ((paint.get(k) or PAINT[k]) if paint is not None else [])],
         "tabs": [dict(t0, **x) for x in tabs], "log": {k: log[k] for k in ("servers", "facility", "iterate")}}
    if fmt == "excel":
        d["ftext"] += ".xlsx"
        d["fname"] = d["fname"] + [{"k": "lit", "v": ".xlsx"}]
    at = {}
    if name:
        at["name"] = name
    if desc:
        at["description"] = desc
    if fmt != "raw":
        at["format"] = fmt
    if list(ret) != ["self"]:
        at["returner"] = ", ".join(ret)
    if url:
        at["url"], at["filename"] = url, filename
        if "<TIME>" in filename:
            del at["filename"]
    if paint is not None:
        at["colour"] = ""
        at.update({k: ", ".join(v) for k, v in paint.items() if v})
    for k in ("missing", "key", "sep", "quote"):
        if k in ta:
            at[k] = ta[k]
    if ta.get("path"):
        at["path"] = ".".join(ta["path"])
    if ta.get("headers"):
        at["headers"] = ", ".join(ta["headers"])
    d["kwargs"] = dict(at)
    if ta.get("path"):
        d["kwargs"]["strict"] = False
    if cond is not None:
        at["condition"] = "%s, %s" % (q(cond[0]), q(cond[1]))
    if len(fns) == 1:
        at[fns[0]["f"]] = args_text(fns[0])
    elif fns:
        at["functions"] = " | ".join("%s(%s)" % (c["f"], args_text(c)) for c in fns)
    if fns:
        d["kwargs"].update({k: at[k] for k in at if k not in d["kwargs"] and k != "condition"})
    if fattrs:
        at["format_attributes"] = d["kwargs"]["format_attributes"] = fattrs
    body = ""
    more = {}
    if load is not None:
        import json
        at["load"] = loadas
        body = "\n" + json.dumps(load).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;") + "\n"
    elif ta.get("path") and not log["servers"]:
        more["strict"] = False
    if jinja:
        body = jinja_text(jinja)
    if tabs:
        def sheet(x):
            r = {"tab_name": x["tab"], "strict": False}
            if x.get("notab"):
                del r["tab_name"]
            if x.get("path"):
                r["path"] = ".".join(x["path"])
            if x.get("headers"):
                r["headers"] = x["headers"] if x.get("hlist") else ", ".join(x["headers"])
            return dict(r, **{k: x[k] for k in ("missing", "key") if k in x})
        more["table"] = d["kwargs"]["table"] = [sheet(x) for x in tabs]
        if update:
            more["update"] = d["kwargs"]["update"] = True
    if log["servers"]:
        more["servers"] = log["servers"] if len(log["servers"]) > 1 else log["servers"][0]
        more["port"] = "@PORT@"
        more["interval"] = 0
        if log["facility"] != 77:
            more["facility"] = log["facility"]
        if not log["iterate"]:
            more["iterate"] = False
        d["kwargs"].update(more)
        if ta.get("path") and len(ta["path"]) == 1:
            more["path"] = at.pop("path")
    if more:
        import json
        if g_form(name, url) and load is None:
            at["load"] = "yaml"
            body = "\n" + "\n".join("%s: %s" % (k, json.dumps(v)) for k, v in more.items()) + "\n"
        else:
            body = "\n" + "\n".join("%s = %r" % kv for kv in more.items()) + "\n"
    d["txt"] = "<output%s>%s</output>" % ("".join(" %s=%s" % (k, ('"%s"' if "'" in v else "'%s'") % v) for k, v in at.items()), body)
    return d


def g_form(name, url):
    return len(name + url) % 3 == 1


def jinja_text(ns, ind=0):
    """a template in the language of jinja2; loops and conditions are lines of their own"""
    out = ""
    for n in ns:
        p = ".".join(n.get("p", []))
        if n["k"] == "text":
            out += n["s"]
        elif n["k"] == "val":
            out += "{{ %s }}" % p
        elif n["k"] == "up":
            out += "{{ %s | upper }}" % p
        elif n["k"] == "len":
            out += "{{ %s | length }}" % p
        elif n["k"] == "for":
            out += " " * ind + "{%% for %s in %s %%}\n" % (n["x"], p) + jinja_text(n["body"], ind + 2) + " " * ind + "{% endfor %}\n"
        else:
            out += " " * ind + "{%% if %s %%}\n" % p + jinja_text(n["body"], ind + 2)
            if n["other"]:
                out += " " * ind + "{% else %}\n" + jinja_text(n["other"], ind + 2)
            out += " " * ind + "{% endif %}\n"
    return out


def group_text(g, depth=0):
    at = ""
    if g["name"] is not None:
        at += ' name="%s"' % g["name"]
    if g["input"]:
        at += ' input="%s"' % g["input"]
    if g["output"]:
        at += ' output="%s"' % g["output"]
    if g["method"]:
        at += ' method="%s"' % g["method"]
    if g["default"] is not None:
        at += ' default="%s"' % (g["vars_default"] if isinstance(g["default"], dict) else g["default"])
    for n, c in enumerate(g["fns"]):
        at += " " + gfn_attr(c, n, g["fns"])
    if g["attrs"]:
        at += " " + g["attrs"]
    out = ["<group%s>" % at]
    out += [line_text(l) for l in g["lines"]]
    for k, tail in g["kids"]:
        out.append(group_text(k, depth + 1))
        out += [line_text(l) for l in tail]
    out.append("</group>")
    return "\n".join(out)


def gfn_attr(c, n, fns):
    if n > 0:
        return "" if fns[0].get("chain") else "%s='%s'" % (c["f"], gfn_args(c))
    if c.get("chain"):
        return "functions='%s'" % " | ".join("%s(%s)" % (x["f"], gfn_args(x)) for x in fns)
    return "%s='%s'" % (c["f"], gfn_args(c))


def gfn_args(c):
    return c["txt"] if "txt" in c else args_text(c)


def flatten(tops):
    """the flat form the specification reads"""
    out = []

    def go(g, parent, idx):
        name = g["name"]
        flat = {"parent": parent, "anon": name is None, "abs": bool(name) and name.startswith("/"),
                "items": items((name or "").lstrip("/")), "idx": idx, "method": g["method"] or "group",
                "dflt": NONE if g["default"] is None else tag(g["default"]),
                "lines": list(g["lines"]) + [dict(l, tail=True) for _, t in g["kids"] for l in t],
                "fns": g["fns"], "inputs": [x.strip() for x in g["input"].split(",") if x.strip()],
                "outs": [x.strip() for x in g["output"].split(",") if x.strip()]}
        out.append(flat)
        me = len(out)
        for n, (k, _) in enumerate(g["kids"]):
            go(k, me, n)

    for n, g in enumerate(tops):
        go(g, 0, n)
    return out


def clean(o):
    """drop rendering-only fields"""
    if isinstance(o, dict):
        return {k: clean(v) for k, v in o.items() if k not in ("txt", "chain", "ind", "rx", "kwargs")}
    if isinstance(o, (list, tuple)):
        return [clean(x) for x in o]
    return o
