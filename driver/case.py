"""A case: one session, described once, for the specification and for the code."""
import json

import tmpl as T


def tdef(groups=(), vars=(), inputs=(), lookups=None, macros=(), outputs=(), method="per_input", kids=(),
         name="", raw="", attrs="", base=""):
    """an abstract template.
    vars: list of (python dict or Ld, path or '')
    inputs: list of dict(name, groups, data[list of text], fns, urls, exts, load, param)
    lookups: {name: python dict or Ld}
    macros: names from the macro library, or {name in the template: name in the library}"""
    return {"groups": list(groups), "vars": list(vars), "inputs": list(inputs), "lookups": dict(lookups or {}),
            "macros": dict(macros) if isinstance(macros, dict) else {m: m for m in macros}, "outputs": list(outputs), "method": method, "kids": list(kids), "name": name,
            "raw": raw, "attrs": attrs, "base": base}


class Ld:
    """structured text: form python, json, yaml, block (yaml, over lines), csv or ini.
    value: of the first four; text: of csv and ini; where: the file the text (of a value: all of it) is in"""

    def __init__(self, form, value=None, text="", key="", inc="", path=""):
        self.form, self.value, self.text, self.key, self.inc, self.path = form, value, text, key, inc, path

    def body(self, assign=False):
        if self.form in ("csv", "ini"):
            return self.text
        return "" if self.inc else self.whole(assign)

    def whole(self, assign=False):
        """the text of a value; assign: a python value is given as assignments"""
        if self.form == "python":
            return "\n".join("%s = %r" % kv for kv in self.value.items()) if assign else repr(self.value)
        if self.form == "json":
            return json.dumps(self.value)
        return block(self.value)

    def attrs(self):
        at = {"load": {"block": "yaml"}.get(self.form, self.form)}
        if self.key:
            at["key"] = self.key
        if self.inc:
            at["include"] = self.inc
        return at

    def spec(self):
        v = self.form not in ("csv", "ini")
        return {"form": "value" if v else self.form, "v": T.tag(self.value) if v else T.NONE, "text": self.text, "key": self.key, "inc": self.inc}


def block(v, ind=0):
    """yaml, over lines"""
    if isinstance(v, dict) and v:
        return "\n".join(" " * ind + json.dumps(k) + ":" + ("\n" + block(x, ind + 2) if isinstance(x, (dict, list)) and x else " " + json.dumps(x)) for k, x in v.items())
    if isinstance(v, list) and v:
        return "\n".join(" " * ind + "- " + (block(x, ind + 2).lstrip() if isinstance(x, dict) and x else json.dumps(x)) for x in v)
    return " " * ind + json.dumps(v)


def loadspec(v):
    return v.spec() if isinstance(v, Ld) else Ld("python", v).spec()


MACROS = {
    "m_up": "def m_up(data):\n    return data.upper()",
    "m_none": "def m_none(data):\n    pass",
    "m_true": "def m_true(data):\n    return True",
    "m_false": "def m_false(data):\n    return False",
    "m_odd": "def m_odd(data):\n    return len(data) % 2 == 1",
    "m_len": "def m_len(data):\n    return len(data)",
    "m_tup": "def m_tup(data):\n    return data + '!', {'nf': data, 'nl': len(data)}",
    "m_list": "def m_list(data):\n    return [data, data]",
    "m_dict": "def m_dict(data):\n    return {'val': data}",
    "m_empty": "def m_empty(data):\n    return ''",
    "m_zero": "def m_zero(data):\n    return 0",
    "g_false": "def g_false(data):\n    return False",
    "g_true": "def g_true(data):\n    return True",
    "g_none": "def g_none(data):\n    pass",
    "g_add": "def g_add(data):\n    data['added'] = 'by_macro'\n    return data",
    "g_count": "def g_count(data):\n    data['nkeys'] = len(data)\n    return data",
    "g_new": "def g_new(data):\n    return {'only': 'new'}",
    "m_a": "def m_a(data):\n    return data + '-a'",
    "m_b": "def m_b(data):\n    return data + '-b'",
    "m_c": "def m_c(data):\n    return 'c-' + data",
    "m_h1": "def m_h1(data):\n    return hlp(data)\n\ndef hlp(data):\n    return '1' + data",
    "m_h2": "def m_h2(data):\n    return hlp(data)\n\ndef hlp(data):\n    return '2' + data",
    "i_up": "def i_up(data):\n    return data.upper()",
    "i_sub": "def i_sub(data):\n    return data.replace('x', 'y')",
    "i_true": "def i_true(data):\n    return True",
    "i_false": "def i_false(data):\n    return False",
    "i_stop": "def i_stop(data):\n    return 'stop' not in data",
    "i_join": "def i_join(data):\n    if isinstance(data, list):\n        return '\\n' + '\\n'.join(data) + '\\n\\n'",
    "i_key": "def i_key(data):\n    if isinstance(data, dict):\n        return '\\n' + data['text'] + '\\n\\n'",
    "o_len": "def o_len(data):\n    return {'len': len(data) if isinstance(data, (list, dict, str)) else 0}",
    "o_wrap": "def o_wrap(data):\n    return {'wrapped': data}",
    "o_first": "def o_first(data):\n    return data[0] if isinstance(data, list) and data else data",
    "o_false": "def o_false(data):\n    return False",
    "g_hasb": "def g_hasb(data):\n    return 'b' in data",
    "g_nest": "def g_nest(data):\n    return {'texts': {k: v for k, v in data.items() if isinstance(v, str)}}",
}


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def macro_text(name, lib):
    return MACROS[lib].replace("def %s(" % lib, "def %s(" % name, 1)


def input_tags(n):
    """an input as the tags that make it: one for each text, or one with addresses"""
    at = {}
    if n["name"] != "Default_Input":
        at["name"] = n["name"]
    if n["groups"] != ["all"]:
        at["groups"] = ", ".join(n["groups"])
    fns = n.get("fns", [])
    if fns and (len(fns) > 1 or n.get("chain")):
        at["functions"] = " | ".join("%s(%s)" % (c["f"], T.args_text(c)) for c in fns)
    elif fns:
        at[fns[0]["f"]] = ", ".join(T.pyval(a) for a in fns[0]["a"]) if fns[0]["f"] == "extract_commands" else T.args_text(fns[0])
    at.update(n.get("attrs", {}))
    out = []
    for x in n["data"]:
        out.append((dict(at, load="text"), x))
    if not n["data"]:
        param = dict(n.get("param", {}))
        urls, exts = n.get("urls", []), n.get("exts", [])
        load = n.get("load", "python")
        if exts:
            if n.get("inattr") and len(exts) == 1:
                at["extensions"] = exts[0]
            else:
                param["extensions"] = exts
        if n.get("filts"):
            fl = [T.rex_text(e) for e in n["filts"]]
            if n.get("inattr") and len(fl) == 1:
                at["filters"] = fl[0]
            else:
                param["filters"] = fl
        if urls:
            if n.get("inattr") and len(urls) == 1:
                at["url"] = urls[0]
            else:
                param["url"] = urls if len(urls) > 1 else urls[0]
        if load == "python":
            body = "\n".join("%s = %r" % kv for kv in param.items())
        elif load == "json":
            body = json.dumps(param)
        else:
            body = "\n".join("%s: %s" % (k, json.dumps(v)) for k, v in param.items())
        if load != "python" or n.get("say"):
            at["load"] = load
        out.append((at, body))
        n["_param"] = param
    return out


def template_text(d):
    """the template as text"""
    out = []
    rx = T.rex_vars(d["groups"])
    for load, path in d["vars"] + ([(rx, "")] if rx else []):
        x = load if isinstance(load, Ld) else Ld("python", load)
        at = {"name": path} if path else {}
        if isinstance(load, Ld):
            at.update(x.attrs())
        out.append("<vars%s>\n%s\n</vars>" % ("".join(' %s="%s"' % kv for kv in at.items()), esc(x.body(True))))
    ms = [(n, m) for n, m in d["macros"].items() if m in MACROS]
    if ms:
        out.append("<macro>\n%s\n</macro>" % esc("\n\n".join(macro_text(*m) for m in ms)))
    for n, tb in d["lookups"].items():
        x = tb if isinstance(tb, Ld) else Ld("python", tb)
        out.append('<lookup name="%s"%s>\n%s\n</lookup>' % (n, "".join(' %s="%s"' % kv for kv in x.attrs().items()), esc(x.body())))
    for n in d["inputs"]:
        for at, body in input_tags(n):
            out.append("<input%s>\n%s\n</input>" % ("".join((" %s='%s'" if '"' in kv[1] else ' %s="%s"') % kv for kv in at.items()), esc(body)))
    for g in d["groups"]:
        out.append(T.group_text(g))
    for o in d["outputs"]:
        out.append(o["txt"])
    for k in d["kids"]:
        out.append(template_text(k))
    if d["raw"]:
        out.insert(0 if len(d["raw"]) % 2 else len(out), d["raw"])
    text = "\n".join(out)
    at = d["attrs"]
    if d["method"] != "per_input":
        at += ' results="%s"' % d["method"]
    if d["base"]:
        at += ' base_path="%s"' % d["base"]
    if d["name"]:
        at += ' name="%s"' % d["name"]
    return "<template%s>\n%s\n</template>" % (at, text)


def flat_inputs(ins):
    out = []
    for n in ins:
        common = {"name": n["name"], "groups": n["groups"], "fns": n.get("fns", []), "exts": n.get("exts", []), "filts": n.get("filts", [])}
        tags = input_tags(n)
        for x in n["data"]:
            out.append(dict(common, data=[{"k": "text", "v": T.S("\n%s\n" % x)}], urls=[], param=T.D({})))
        if not n["data"]:
            out.append(dict(common, data=[], urls=n.get("urls", []), param=T.tag(n["_param"])))
    return out


def flat(d):
    """the template as the specification reads it"""
    paths = sorted({p for _, p in d["vars"] if p})
    gs = T.flatten(d["groups"])
    return {"groups": gs,
            "vars": [{"load": loadspec(load), "path": p} for load, p in d["vars"]],
            "varpaths": [{"path": p, "items": T.items(p)} for p in paths],
            "inputs": flat_inputs(d["inputs"]), "base": [d["base"]] if d["base"] else [],
            "lookups": {k: loadspec(v) for k, v in d["lookups"].items()},
            "macros": dict(d["macros"]), "outputs": d["outputs"], "method": d["method"],
            "kids": [flat(k) for k in d["kids"]], "name": d["name"]}


def tagged(v):
    return {a: T.tag(b) for a, b in (v or {}).items()}


class Case:
    """impl operations and specification operations side by side"""

    def __init__(self, **meta):
        self.defs, self.texts, self.ops, self.impl, self.meta = [], [], [], [], meta
        self.job = {}
        self.env = ""
        self.obj = "p"      # the parser object calls are made on
        self.fill = None    # text matching no line of the template, put into the texts the code gets

    def filler(self, g, n, width=60):
        """from now on texts get about n lines that no template line describes, and the
        specification does not see: what stands between lines must not matter"""
        a, b = g.random(), g.random()      # the same text is filled the same way
        self.fill = lambda rows: [[int(x * rows), max(1, n // 2), width] for x in (a, b)]
        return self

    def on(self, obj):
        self.obj = obj
        return self

    def both(self, spec, impl):
        self.ops.append(dict(spec, obj=self.obj))
        self.impl.append(dict(impl, obj=self.obj))
        return self

    def define(self, d, text=None):
        """text: how the code gets it, when not as the plain text of the template"""
        self.defs.append(flat(d))
        self.texts.append(template_text(d) if text is None else text)
        return len(self.defs)

    def deft(self, d):
        return self.define(d) if isinstance(d, dict) else d

    def _new(self, op, vars, toint, base, tmpl, data, kw):
        k = dict(kw)
        n = self.deft(tmpl) if tmpl else 0
        if n:
            k["template"] = self.texts[n - 1]
        if data is not None:
            k["data"] = data
        if vars is not None:
            k["vars"] = vars
        if toint:
            k["dynamic_path_key_to_int"] = True
        if base:
            k["base_path"] = base
        return {"op": op, "vars": tagged(vars), "toint": toint, "base": base, "tmpls": [n] if n else [],
                "data": [] if data is None else [T.tag(data)]}, k

    def new(self, vars=None, toint=False, base="", tmpl=None, data=None, **kw):
        o, k = self._new("new", vars, toint, base, tmpl, data, kw)
        return self.both(o, {"op": "new", "kw": k})

    def quick_parse(self, data, tmpl, vars=None, toint=False, base="", structure="list", parse=None, **res):
        o, k = self._new("quick_parse", vars, toint, base, tmpl, data, {})
        kw = {"data": k.pop("data", None), "template": k.pop("template")}
        if k:
            kw["ttp_kwargs"] = k
        if parse:
            kw["parse_kwargs"] = parse
        r, rk = self._res(structure, None, None, False)
        if structure != "list":
            kw["result_kwargs"] = rk
        return self.both(dict(o, **r), {"op": "quick_parse", "kw": kw})

    def add_template(self, d, name=None, filters=None, path=None, how=None):
        """path: where the text of the template is, when not given itself"""
        n = self.deft(d)
        kw = {"template": path or self.texts[n - 1]}
        if name:
            kw["template_name"] = name
        if filters:
            kw["filters"] = filters
        return self.both({"op": "add_template", "tmpls": [n], "name": name or "_root_template_", "filters": filters or []},
                         {"op": "add_template", "kw": kw, "how": how or ""})

    def reload_as(self, obj, n, **new):
        """another object gets the full text of the template the current one has; calls go on with it"""
        src = self.obj
        self.on(obj).new(**new)
        return self.both({"op": "add_template", "tmpls": [n], "name": "_root_template_", "filters": []},
                         {"op": "add_template", "kw": {}, "how": "of", "src": src})

    def _input(self, op, data, name, template, groups, dtemplate):
        kw = {"data": data}
        if name:
            kw["input_name"] = name
        if template:
            kw["template_name"] = template
        if groups:
            kw["groups"] = groups
        op_i = {"op": op, "kw": kw}
        if self.fill and isinstance(data, str):
            op_i["fill"] = self.fill(data.count("\n") + 1)
        return self.both({"op": op, "name": name or "Default_Input", "template": template or dtemplate,
                          "groups": groups or ["all"], "data": T.tag(data)}, op_i)

    def add_input(self, data, name=None, template=None, groups=None):
        return self._input("add_input", data, name, template, groups, "_root_template_")

    def set_input(self, data, name=None, template=None, groups=None):
        return self._input("set_input", data, name, template, groups, "_root_template_")

    def clear_input(self, template=None):
        return self.both({"op": "clear_input", "template": template or "_all_"},
                         {"op": "clear_input", "kw": {"template_name": template} if template else {}})

    def add_vars(self, v):
        return self.both({"op": "add_vars", "vars": tagged(v)}, {"op": "add_vars", "kw": {"vars": v}})

    def add_lookup(self, name, table):
        x = table if isinstance(table, Ld) else Ld("python", table)
        kw = dict({"text_data": x.body()} if x.body() or not x.inc else {}, **x.attrs()) if isinstance(table, Ld) else {"text_data": x.body()}
        return self.both({"op": "add_lookup", "name": name, "table": x.spec()},
                         {"op": "add_lookup", "kw": dict(kw, name=name)})

    def func(self, scope, name, fn, own=False):
        """fn: a function of custfns.py"""
        return self.both({"op": "func", "scope": scope, "name": name, "fn": fn},
                         {"op": "func", "scope": scope, "name": None if own else name, "fn": fn})

    def parse(self, multi=False, auto=None, **kw):
        """auto: size of data from which on the parser itself decides for several processes"""
        if multi and auto is None:
            kw["multi"] = True
        self.multi = multi
        return self.both({"op": "parse", "multi": multi}, dict({"op": "parse", "kw": kw}, **({} if auto is None else {"auto": auto})))

    def parse_both(self):
        """one process and several asked for at once"""
        return self.both({"op": "parse_both"}, {"op": "parse", "kw": {"one": True, "multi": True}})

    def _res(self, structure, templates, out, bag):
        kw = {"structure": structure}
        if templates:
            kw["templates"] = templates
        if out:
            kw.update(out["kwargs"])
        return {"structure": structure, "templates": [templates] if isinstance(templates, str) else templates or [],
                "out": [out] if out else [], "bag": bag}, kw

    def result(self, structure="list", templates=None, out=None, bag=False, decode=None):
        o, kw = self._res(structure, templates, out, bag)
        return self.both(dict(o, op="result"), {"op": "result", "kw": kw, "decode": decode or ""})

    def spoil(self):
        """the caller changes what the last call returned, and has the object forget it"""
        self.impl[-1]["spoil"] = True
        return self.clear_result()

    def keep(self, as_, structure="list", templates=None):
        """keeps what result returned"""
        o, kw = self._res(structure, templates, None, False)
        return self.both(dict(o, op="keep", **{"as": as_}), {"op": "alias", "call": "result", "kw": kw, "as": as_})

    def userdata(self, as_, value):
        return self.both({"op": "userdata", "as": as_, "value": T.tag(value)}, {"op": "userdata", "as": as_, "value": value})

    def look(self, as_):
        return self.both({"op": "look", "as": as_}, {"op": "look", "as": as_})

    def with_(self, arg, as_):
        """the last call gets a kept structure for one of its arguments"""
        i = self.impl[-1]
        i.update(op="call_with", call=i["op"], arg=arg, **{"as": as_})
        i["kw"] = {k: v for k, v in i["kw"].items() if k != arg}
        return self

    def clear_result(self, templates=None):
        return self.both({"op": "clear_result", "templates": [templates] if isinstance(templates, str) else templates or []},
                         {"op": "clear_result", "kw": {"templates": templates} if templates else {}})

    def get_input_load(self):
        return self.both({"op": "get_input_load"}, {"op": "get_input_load", "kw": {}})

    def write_file(self, path, text):
        return self.both({"op": "write_file", "path": path, "text": text}, {"op": "write_file", "path": path, "text": text})

    def remove_file(self, path):
        return self.both({"op": "remove_file", "path": path}, {"op": "remove_file", "path": path})

    def read_file(self, path, decode=None):
        return self.both({"op": "read_file", "path": path}, {"op": "read_file", "path": path, "decode": decode or ""})

    def read_terminal(self, how):
        """how: raw or json, values one after the other; or text"""
        return self.both({"op": "read_terminal", "text": how == "text"}, {"op": "read_terminal", "how": how})

    def read_log(self, server):
        return self.both({"op": "read_log", "server": server}, {"op": "read_log", "server": server})

    def listdir(self, path):
        return self.both({"op": "listdir", "path": path}, {"op": "listdir", "path": path})

    def cache(self, what, x=0):
        """what is in the cache of functions from now on; x: how much of it, from 0 to 1"""
        return self.both({"op": "cache"}, {"op": "cache", "what": what, "x": x})

    def cli(self, d, data, vars=None, base="", fmt="json", structure="list", templates=None, named="", multi=False, one=False,
            script=False, long=False, log="", times=1):
        """the command line tool, started times times at once; named: the template is this variable of a python file"""
        n = self.deft(d)
        o, _ = self._new("cli", vars, False, base, n, data, {})
        r, _ = self._res(structure, templates, None, multi)
        sw = {"d": data, "t": "cli_template.txt", "dp": base, "v": json.dumps(vars).replace('"', "'") if vars is not None else None, "o": fmt,
              "s": structure, "ot": ", ".join(templates) if templates else None, "tn": named, "l": log}
        names = {"d": "data", "t": "template", "dp": "data-prefix", "v": "vars", "o": "outputter", "s": "structure", "ot": "out-template",
                 "tn": "template-name", "l": "logging"}
        args = []
        for k, v in sw.items():
            if v not in (None, ""):
                args += ["--%s=%s" % (names[k], v)] if long else ["-" + k, v]
        args += ["--one"] if one else ["--multi"] if multi else []
        text = self.texts[n - 1]
        if named:
            text = "other = 1\n%s = %s\n" % (named, repr(text) if len(text) % 2 or "\\" in text else '"""%s"""' % text)
        return self.both(dict(o, multi=multi, **r), {"op": "cli", "args": args, "text": text, "fmt": fmt, "script": script, "times": times})

    def simple(self, d, data, **kw):
        """one template, some texts, parse, result"""
        self.new(**kw).add_template(d)
        for x in data:
            self.add_input(x)
        return self.parse(one=True).result()

    def spec_json(self, cid, obs):
        return {"id": cid, "defs": T.clean(self.defs), "ops": T.clean(self.ops), "obs": obs, "env": self.env}

    def impl_json(self, cid):
        job = dict(self.job, id=cid, ops=self.impl)
        if self.env:
            job["env"] = dict(job.get("env") or {}, TTP_TEMPLATES_DIR=self.env)
        return job

    def show(self):
        return "\n".join("%s\n" % t for t in self.texts) + "\n".join(json.dumps(o) for o in self.impl)
