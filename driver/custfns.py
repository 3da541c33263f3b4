"""Functions added to parsers by cases; the specification knows them by name."""


# match: (value, flag or new fields)
def cf_up(data, *args, **kwargs):
    return "<" + data.upper() + ">", None


def cf_sfx(data, *args, **kwargs):
    return data + "~" + (args[0] if args else kwargs.get("sfx", "none")), None


def cf_odd(data, *args, **kwargs):
    return data, len(data) % 2 == 1


def cf_true(data, *args, **kwargs):
    return data, True


def cf_nf(data, *args, **kwargs):
    return data, {"new_field": {"cnf": data + "+", "cnl": len(data)}}


# group
def cg_tag(data, *args, **kwargs):
    data["tag"] = args[0] if args else kwargs.get("tag", "none")
    return data, None


def cg_false(data, *args, **kwargs):
    return data, False


def cg_up(data, *args, **kwargs):
    return {k: v.upper() if isinstance(v, str) else v for k, v in data.items()}, None


# input
def ci_up(data):
    return (data.upper() if isinstance(data, str) else data), None


def ci_stop(data):
    return data, False


# variable
def cv_len(data, name):
    return len(data) if isinstance(data, str) else 0


def cv_name(data, name):
    return "n:" + name


# macro
def cm_up(data):
    return data.upper()


# output, formatters
def co_wrap(data, *args, **kwargs):
    return {"cust": data}


def cfmt(data, **kwargs):
    return {"fmt": data}
