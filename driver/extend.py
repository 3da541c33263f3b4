"""Templates with extend tags: their text, and the template they stand for."""
import case
import tmpl as T


def ext(path, d=None, lines=None, tail=(), **filt):
    """d: the extended template; or lines: the only text in it.
    filt: groups, vars, lookups, inputs, outputs: what is taken from it; macro: what its text goes through"""
    return {"ext": path, "d": d, "lines": lines, "filt": {k: v for k, v in filt.items() if v}, "tail": list(tail)}


def is_ext(x):
    return "ext" in x


def tag(e):
    at = "".join(' %s="%s"' % (k, v if isinstance(v, str) else ", ".join(v)) for k, v in e["filt"].items())
    return '<extend template="%s"%s/>' % (e["ext"], at)


def pick(gs, names):
    """the groups (and extensions) a filter of groups leaves"""
    out, n = [], 0
    for x in gs:
        if is_ext(x):
            out.append(x)
            continue
        if not names or x["name"] in names or str(n) in names:
            out.append(x)
        n += 1
    return out


def plain_group(g):
    """a group as it is when its extend tags are replaced"""
    g = dict(g, lines=list(g["lines"]), kids=list(g["kids"]))
    kids = []
    lead = list(g["lines"])

    def put(lines):
        if not lines:
            return
        if kids:
            kids[-1] = (kids[-1][0], kids[-1][1] + list(lines))
        else:
            lead.extend(lines)
    for k, tail in g["kids"]:
        if not is_ext(k):
            kids.append((plain_group(k), list(tail)))
        elif k["lines"] is not None:
            lead.extend(k["lines"])      # lines of the group, in front of its children
            put(tail)
        else:
            for x in inner(k, lead):
                kids.append((x, []))
            put(tail)
    g["lines"], g["kids"] = lead, kids
    return g


def inner(e, lead=None):
    """the groups an extend tag that is within something gives"""
    out = []
    for x in pick(e["d"]["groups"], e["filt"].get("groups")):
        if not is_ext(x):
            out.append(plain_group(x))
        elif x["lines"] is not None:
            lead.extend(x["lines"])
        else:
            out += inner(x, lead)
    return out


def plain(d):
    """a template as it is when its extend tags are replaced"""
    d = dict(d, groups=list(d["groups"]), vars=list(d["vars"]), inputs=list(d["inputs"]), outputs=list(d["outputs"]), lookups=dict(d["lookups"]),
             macros=dict(d["macros"]))
    gs = []
    for x in d["groups"]:
        if not is_ext(x):
            gs.append(plain_group(x))
            continue
        f = x["filt"]
        for y in pick(x["d"]["groups"], f.get("groups")):
            gs += [plain_group(y)] if not is_ext(y) else inner(y)
        e = x["d"]
        d["vars"] += [v for v in e["vars"] if not f.get("vars") or v[1] in f["vars"]]
        d["inputs"] += [v for v in e["inputs"] if not f.get("inputs") or v["name"] in f["inputs"]]
        d["outputs"] += [v for v in e["outputs"] if not f.get("outputs") or v["name"] in f["outputs"]]
        d["lookups"].update({k: v for k, v in e["lookups"].items() if not f.get("lookups") or k in f["lookups"]})
        d["macros"].update(e["macros"])
    d["groups"] = gs
    return d


def group_text(g):
    """the text of a group with its extend tags"""
    marks = {}

    def go(x):
        kids = []
        for k, tail in x["kids"]:
            if is_ext(k):
                m = "EXTENDMARK%dX" % len(marks)
                marks[m] = tag(k)
                kids.append((T.group(m), tail))
            else:
                kids.append((go(k), tail))
        return dict(x, kids=kids)
    s = T.group_text(go(g))
    for m, t in marks.items():
        s = s.replace('<group name="%s">\n</group>' % m, t)
    return s


def text(d, wrap=True):
    """the text of a template with its extend tags"""
    s = []
    for x in d["groups"]:
        s.append(tag(x) if is_ext(x) else group_text(x))
    t = case.template_text(dict(d, groups=[T.group("ALLGROUPSMARK")])).replace('<group name="ALLGROUPSMARK">\n</group>', "\n".join(s))
    if not wrap:
        t = t[t.index(">") + 1:t.rindex("</template>")]
    return t


def files(d, out=None):
    """{path: (what is there, the tag)} of everything the template extends"""
    out = {} if out is None else out
    for x in d["groups"]:
        walk(x, out)
    return out


def walk(x, out):
    if is_ext(x):
        if x["lines"] is not None:
            out[x["ext"]] = ("\n".join(T.line_text(l) for l in x["lines"]), x)
        elif x["ext"] not in out:
            out[x["ext"]] = (x["d"], x)
            files(x["d"], out)
    else:
        for k, _ in x["kids"]:
            walk(k, out)
