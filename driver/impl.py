"""Runs API scripts against the real code (imported from the repository) and
records what it returns.  Executed with the repository's own interpreter:

    impl.py REPO JOBS.json OUT.json

A job is {"id", "ops": [...], "env": {...}, "files": {...}, "timeout": s}; its
observation is the list of values its operations returned.
"""
import json
import os
import shutil
import signal
import sys
import time


def tag(v):
    if isinstance(v, bool):
        return {"b": v}
    if isinstance(v, int):
        return {"i": v} if -2**31 < v < 2**31 else {"x": repr(v)}
    if isinstance(v, str):
        return {"s": v}
    if v is None:
        return {"z": 0}
    if isinstance(v, list):
        return {"l": [tag(x) for x in v]}
    if isinstance(v, dict):
        return {"d": {(k if isinstance(k, str) else "<%s>%s" % (type(k).__name__, k)): tag(x) for k, x in v.items()}}
    if type(v).__name__ == "PrettyOrderedSet":      # a set of places, of deepdiff
        return {"d": {str(x): {"z": 0} for x in v}}
    return {"x": "%s:%s" % (type(v).__name__, v)}


class Hang(Exception):
    pass


def on_alarm(*_):
    raise Hang()


def decoded(v, how):
    """the value a text stands for"""
    if how == "json":
        return json.loads(v)
    if how == "yaml":
        import yaml
        return yaml.safe_load(v)
    if how == "pprint":
        import ast
        return ast.literal_eval(v)
    if how == "tabulate":
        return grid(v)
    return v


def grid(text):
    """the cells of a table drawn as text"""
    out = []
    for line in text.splitlines():
        if not set(line) - set("|-+:= ") and ("--" in line or "==" in line):
            continue
        if "\t" in line:
            out.append([x.strip() for x in line.split("\t")])
        elif line.strip().startswith("|"):
            out.append([x.strip() for x in line.strip().strip("|").split("|")])
        else:
            out.append([line.strip()])
    return seen(out)


def seen(rows):
    """the rows without the blank ones; of a row, up to its last cell that shows something"""
    out = []
    for row in rows:
        row = list(row)
        while row and row[-1] in (None, ""):
            row.pop()
        if row:
            out.append(row)
    return out


def sheets(path):
    """the cells of a workbook"""
    from openpyxl import load_workbook
    wb = load_workbook(path)
    return [[ws.title, seen([["" if x is None else x for x in row] for row in ws.iter_rows(values_only=True)])] for ws in wb.worksheets]


def printed(text, how):
    """the values printed one after the other"""
    if how == "text":
        return text
    if how == "json":
        dec, out = json.JSONDecoder(), []
        while text.strip():
            text = text.lstrip()
            v, n = dec.raw_decode(text)
            out.append(v)
            text = text[n:]
        return out
    import ast
    return [ast.literal_eval(x) for x in text.splitlines()]


class Net:
    """log servers: addresses of this machine that take what is sent to one port of them"""

    def __init__(self, addrs):
        import socket
        for _ in range(50):
            self.socks = {a: socket.socket(socket.AF_INET, socket.SOCK_DGRAM) for a in addrs}
            try:
                port = 0
                for x in self.socks.values():
                    x.bind((addrs[list(self.socks.values()).index(x)], port))
                    port = x.getsockname()[1]
                self.port = port
                break
            except OSError:
                self.close()
        self.got = {a: [] for a in addrs}

    def read(self, addr):
        import re
        x = self.socks[addr]
        x.setblocking(False)
        while True:
            try:
                m = re.match(r"<(\d+)>(.*)", x.recv(1 << 16).decode("utf-8"), re.S)
            except BlockingIOError:
                return self.got[addr]
            self.got[addr].append({"pri": int(m.group(1)), "msg": json.loads(m.group(2))})

    def close(self):
        for x in self.socks.values():
            x.close()


STARTED = time.time()


def moments():
    return [time.localtime(t) for t in range(int(STARTED) - 1, int(time.time()) + 2)]


def timed(path):
    """the name a file got at some moment of this run"""
    if "<TIME>" in path:
        path = path.replace("<TIME>", "%Y-%m-%d_%H-%M-%S")
    if "%" in path:
        return next((p for p in {time.strftime(path, m) for m in moments()} if os.path.exists(p)), path)
    return path


def clocks(v, since):
    """v with the names of clocks for what they showed at a moment since then"""
    import datetime
    import re
    if isinstance(v, list):
        return [clocks(x, since) for x in v]
    if isinstance(v, dict):
        if set(v) == {"x"} and v["x"].isdigit() and since * 1e9 <= int(v["x"]) <= time.time() * 1e9:
            return {"x": "now:get_time_ns"}
        if set(v) == {"s"}:
            s = v["s"]
            m = [time.localtime(t) for t in range(int(since), int(time.time()) + 1)]
            for n, f in (("get_time", "%H:%M:%S"), ("get_date", "%Y-%m-%d"), ("get_timestamp", "%Y-%m-%d %H:%M:%S")):
                if s in [time.strftime(f, x) for x in m]:
                    return {"x": "now:" + n}
            x = re.fullmatch(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\.(\d{3})", s)
            if x:
                t = time.mktime(time.strptime(x.group(1), "%Y-%m-%d %H:%M:%S")) + int(x.group(2)) / 1000
                if since - .0011 <= t <= time.time():
                    return {"x": "now:get_timestamp_ms"}
            x = re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{6})?\+00:00", s)
            if x:
                t = datetime.datetime.fromisoformat(s).timestamp()
                if since - 1e-5 <= t <= time.time() + 1e-5:
                    return {"x": "now:get_timestamp_iso"}
            return v
        return {k: clocks(x, since) for k, x in v.items()}
    return v


def subst(v, port):
    if isinstance(v, str):
        return v.replace("@PORT@", str(port))
    if isinstance(v, dict):
        return {k: subst(x, port) for k, x in v.items()}
    if isinstance(v, list):
        return [subst(x, port) for x in v]
    return v


def cache(pkg, what, x):
    """puts the cache of functions into a state it may be found in"""
    d = os.environ["TTPCACHEFOLDER"]
    f = os.path.join(d, "ttp_dict_cache.pickle")
    if os.path.isdir(f):
        os.rmdir(f)
    elif os.path.isfile(f):
        os.unlink(f)
    if not os.path.isdir(d) or what == "none":
        return
    if what == "dir":
        os.mkdir(f)
        return
    pkg.ttp()
    if not os.path.isfile(f):      # not kept there: nothing to spoil
        return
    with open(f, "rb") as h:
        full = h.read()
    import pickle
    v = pickle.loads(full)
    new = {"full": full, "cut": full[:int(x * len(full))], "head": b"\x00" + full[1:], "text": b"a text\n", "empty": b"",
           "other": pickle.dumps([1]), "class": b"cno_such_module\nX\n."}.get(what)
    if what in ("version", "major"):
        # of another release, knowing other functions
        old = {k: w for k, w in v.items() if not isinstance(w, dict)} if isinstance(v, dict) else {}
        old.update({"version": {"__version__": "0.0.1"}, "major": {"python_major_version": 2}}[what])
        new = pickle.dumps(old)
    with open(f, "wb") as h:
        h.write(new)


def cli(op):
    """runs the command line tool, several times at once, and gives the value it printed"""
    import subprocess
    repo = sys.argv[1]
    with open("cli_template.txt", "w", encoding="utf-8") as f:
        f.write(op["text"])
    env = dict(os.environ)
    if op["script"]:
        cmd = [sys.executable, os.path.join(repo, "ttp", "ttp.py")]
    else:
        cmd = [sys.executable, "-c", "from ttp.ttp import cli_tool; cli_tool()"]
        env["PYTHONPATH"] = repo
    ps = [subprocess.Popen(cmd + op["args"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE) for _ in range(op["times"])]
    got = []
    for p in ps:
        out, err = p.communicate(timeout=60)
        if p.returncode:
            if os.environ.get("VERIF_DEBUG"):
                sys.stderr.write(err.decode())
            return {"x": "exit:%d" % p.returncode}
        got.append(tag(decoded(out.decode(), {"raw": "pprint", "nosuch": "json"}.get(op["fmt"], op["fmt"].lower()))))
    return got[0] if all(x == got[0] for x in got) else {"x": "different:%d" % len(got)}


def spoil(v):
    for x in list(v.values()) if isinstance(v, dict) else v if isinstance(v, list) else []:
        spoil(x)
    if isinstance(v, dict):
        v["spoilt"] = "spoilt"
    elif isinstance(v, list):
        v.append("spoilt")


def run_job(job, cust):
    import ttp as pkg
    cwd = os.getcwd()
    home = os.path.join(cwd, "job_%s" % job["id"])
    os.mkdir(home)
    os.chdir(home)
    try:
        return run_ops(pkg, job, cust)
    finally:
        os.chdir(cwd)
        shutil.rmtree(home, ignore_errors=True)


def stand_in():
    """colours need a module that is not here; it only makes ready terminals of other systems"""
    import types
    try:
        import colorama     # noqa: F401
    except ImportError:
        m = sys.modules["colorama"] = types.ModuleType("colorama")
        m.init = lambda *a, **k: None


def run_ops(pkg, job, cust):
    objs = {}
    obs = []
    saved = {}
    for k, v in (job.get("env") or {}).items():
        saved[k] = os.environ.get(k)
        os.environ[k] = v
    import contextlib
    import io
    import logging
    time.tzset()
    started = time.time()
    stand_in()
    objs["<out>"] = io.StringIO()
    objs["<net>"] = Net(job["net"]) if job.get("net") else None
    if objs["<net>"]:
        logging.disable(logging.NOTSET)
        job["ops"] = subst(job["ops"], objs["<net>"].port)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(job.get("timeout", 60))
    try:
        for op in job["ops"]:
            try:
                with contextlib.redirect_stdout(objs["<out>"]):
                    obs.append(run_op(pkg, objs, op, cust))
                if job.get("clocks"):
                    obs[-1] = clocks(obs[-1], started)
            except Hang:
                obs.append({"x": "hang"})
                break
            except (Exception, SystemExit) as e:
                obs.append({"x": "exc:" + type(e).__name__})
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
    finally:
        signal.alarm(0)
        if objs["<net>"]:
            objs["<net>"].close()
            logging.disable(logging.CRITICAL)
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        time.tzset()
    return obs


def run_op(pkg, objs, op, cust):
    o = op["op"]
    name = op.get("obj", "p")
    kw = op.get("kw", {})
    if "fill" in op:
        rows = kw["data"].split("\n")
        for at, n, width in sorted(op["fill"], reverse=True):
            rows[at:at] = ["%" * width] * n
        kw = dict(kw, data="\n".join(rows))
    if o == "new":
        objs[name] = pkg.ttp(**kw)
        return {"z": 0}
    if o == "quick_parse":
        return tag(pkg.quick_parse(**kw))
    if o == "cache":
        cache(pkg, op["what"], op["x"])
        return {"z": 0}
    if o == "cli":
        return cli(op)
    if o == "alias":       # keep a reference to what a call returned
        objs[op["as"]] = getattr(objs[name], op["call"])(**kw)
        return tag(objs[op["as"]])
    if o == "look":        # what a kept reference shows now
        return tag(objs[op["as"]])
    if o == "userdata":    # keep a user's own structure, to pass and to look at later
        objs[op["as"]] = op["value"]
        return {"z": 0}
    if o == "call_with":   # pass a kept structure as one argument
        kw = dict(kw)
        kw[op["arg"]] = objs[op["as"]]
        if op["call"] == "new":
            objs[name] = pkg.ttp(**kw)
            return {"z": 0}
        return tag(getattr(objs[name], op["call"])(**kw))
    if o == "func":
        objs[name].add_function(getattr(cust, op["fn"]), scope=op["scope"], name=op.get("name"))
        return {"z": 0}
    if o == "write_file":
        if os.path.dirname(op["path"]):
            os.makedirs(os.path.dirname(op["path"]), exist_ok=True)
        with open(op["path"], "w", encoding="utf-8") as f:
            f.write(op["text"])
        return {"z": 0}
    if o == "remove_file":
        os.unlink(op["path"])
        return {"z": 0}
    if o == "read_terminal":
        return tag(printed(objs["<out>"].getvalue(), op["how"]))
    if o == "read_log":
        return tag(objs["<net>"].read(op["server"]))
    if o == "read_file":
        op = dict(op, path=timed(op["path"]))
        if not os.path.exists(op["path"]):
            return {"x": "missing"}
        if op.get("decode") == "excel":
            return tag(sheets(op["path"]))
        with open(op["path"], encoding="utf-8") as f:
            return tag(decoded(f.read(), op.get("decode")))
    if o == "listdir":
        return tag(os.listdir(op["path"]))
    if o == "add_template" and op.get("how") == "file":
        with open(kw["template"], encoding="utf-8") as f:
            objs[name].add_template(**dict(kw, template=f.read()))
        return {"z": 0}
    if o == "add_template" and op.get("how") == "of":      # as the other one shows its template
        objs[name].add_template(template=objs[op["src"]].get_template())
        return {"z": 0}
    if "auto" in op:
        objs[name].multiproc_threshold = op["auto"]
    r = getattr(objs[name], o)(**kw)
    if op.get("decode"):
        if isinstance(r, dict):
            r = {k: decoded(v, op["decode"]) if isinstance(v, str) else v for k, v in r.items()}
        else:
            r = [decoded(v, op["decode"]) if isinstance(v, str) else v for v in r]
    r, v = tag(r) if o in ("result", "get_input_load", "get_template") else {"z": 0}, r
    if op.get("spoil"):     # the caller changes what it was given
        spoil(v)
    return r


def main():
    repo, jobs_file, out_file = sys.argv[1:4]
    sys.path.insert(0, repo)
    sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
    import logging
    logging.disable(logging.CRITICAL)
    logging.getLogger("ttp").setLevel(logging.CRITICAL + 1)
    import custfns
    with open(jobs_file) as f:
        jobs = json.load(f)
    with open(out_file, "w") as out:
        for job in jobs:
            out.write(json.dumps({"id": job["id"], "obs": run_job(job, custfns)}) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
