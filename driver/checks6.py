"""The cases of the properties about addresses and durations."""
import ipaddress

from case import Case, tdef
from checks import gen_part, rng
from tmpl import *

# =============================================================== C33 addresses, hardware addresses, durations
UNITS = [["y", "ys", "yr", "yrs", "yr.", "yrs.", "year", "years"], ["mo", "mos", "mo.", "mth", "mths", "mths.", "month", "months"],
         ["w", "wk", "wks", "week", "weeks"], ["d", "dy", "dys", "day", "days"], ["h", "hr", "hrs", "hour", "hours"],
         ["m", "min", "mins", "minute", "minutes"], ["s", "sec", "secs", "second", "seconds"]]


def ip4(g):
    return g.choice(["%d.%d.%d.%d" % tuple(g.choice([0, 1, 10, 127, 128, 192, 255, g.randint(0, 255)]) for _ in range(4)),
                     "10.%d.0.%d" % (g.randint(0, 3), g.randint(0, 255)), "172.%d.0.1" % g.randint(14, 33), "192.168.1.%d" % g.randint(0, 255), "127.0.0.1", "0.0.0.0", "255.255.255.255",
                     "169.254.%d.1" % g.randint(0, 255), "224.0.0.%d" % g.randint(0, 9), "239.1.1.1", "240.0.0.1", "198.18.0.1", "203.0.113.7"])


def ip6(g):
    x = g.random()
    if x < .3:
        return g.choice(["::", "::1", "fe80::1", "FE80::ABCD:1", "2001:db8::1", "2001:DB8:0:0:1:0:0:1", "fd00::12", "ff02::5", "::ffff:10.0.0.1", "fec0::1", "1::", "0:0:0:0:0:0:0:1",
                         "64:ff00::10.0.0.2", "2001:db8:0:1:1:1:1:1", "100::5", "4000::1"])
    gr = [g.choice(["0", "0", "0", "0000", "1", "db8", "00ab", "FFff", "%x" % g.randint(0, 65535)]) for _ in range(8)]
    if gr[0] in ("64", "2001", "2002", "3fff", "%x" % 0x2001):
        gr[0] = "2a00"
    if x < .6:
        return ":".join(gr)
    a = g.randint(0, 6)
    b = g.randint(a + 1, 8)
    return ":".join(gr[:a]) + "::" + ":".join(gr[b:])


def mask4(p):
    n = (0xffffffff << (32 - p)) & 0xffffffff
    return ".".join(str(n >> s & 255) for s in (24, 16, 8, 0))


def mask(g):
    p = g.choice([0, 1, 8, 9, 15, 16, 23, 24, 25, 27, 30, 31, 32, g.randint(0, 32)])
    return g.choice([str(p), str(p), mask4(p), ".".join(str(255 - int(x)) for x in mask4(p).split("."))])


def ip(g):
    """a text that stands for an address, an interface or neither"""
    x = g.random()
    if x < .3:
        a = ip4(g)
    elif x < .5:
        a = ip4(g) + "/" + mask(g)
    elif x < .62:
        a = ip4(g) + " " + mask(g)
    elif x < .75:
        a = ip6(g)
    elif x < .87:
        a = ip6(g) + "/" + g.choice(["64", "0", "128", "127", "10", "48", "129", "1", str(g.randint(0, 128))])
    else:
        a = g.choice(["999.1.1.1", "1.2.3", "1.2.3.4.5", "10.0.0.1/33", "abc", "1.2.3.04", "fe80:::1", "10.0.0.1 255.0.255.0", "1:2:3", "1::2::3", "10.0.0.1/", "/24", "12345::", "10.0.0.256", "1.2.3.4/a",
                      "g::1", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7:8::", "10.0.0.1/-1", "::1.2.3", "1:2:3:4:5:6:1.2.3.4", "255.255.255.255/255.255.255.254"])
    return a


def net4(g):
    p = g.choice([0, 8, 12, 16, 20, 24, 31, 32, g.randint(0, 32)])
    n = g.getrandbits(32) if g.p(.5) else 0x0a000000
    n &= (0xffffffff << (32 - p)) & 0xffffffff
    return ".".join(str(n >> s & 255) for s in (24, 16, 8, 0)) + "/" + g.choice([str(p), str(p), mask4(p)])


NET6 = ["2001:db8::/120", "2001:db8:0:1::/64", "2001:db8:1::/127", "2001:db8::/32", "::/0", "fe80::/10", "::1/128", "fd00::/8", "2001:db8:0:0:1::/80"]
ANET = ["version", "netmask", "hostmask", "with_prefixlen", "with_netmask", "with_hostmask", "network_address", "broadcast_address", "num_addresses", "prefixlen", "compressed", "exploded", "max_prefixlen"]
ISNET = ["is_multicast", "is_link_local", "is_reserved", "is_unspecified", "is_loopback"]
AIF = ["ip", "netmask", "hostmask", "network", "with_prefixlen", "with_netmask", "with_hostmask", "compressed", "exploded", "version", "max_prefixlen",
       "is_private", "is_multicast", "is_loopback", "is_unspecified", "is_link_local", "is_reserved"]


def near(g, prefix):
    """an address in a network, next to it, or a little further away"""
    n = ipaddress.ip_network(prefix, strict=False)
    bits = n.max_prefixlen
    first, last = int(n.network_address), int(n.broadcast_address)
    off = g.choice([0, 0, 1, 1, 1 << g.randint(0, bits - 2), g.randint(0, 65536)])
    a = g.choice([first - off, first + off, last + off, last - off, first ^ (1 << g.randint(0, bits - 1))]) % (1 << bits)
    cls = ipaddress.IPv4Address if n.version == 4 else ipaddress.IPv6Address
    a = str(cls(a))
    return a if g.p(.7) else "%s/%d" % (a, min(bits, max(0, n.prefixlen + g.choice([-1, 0, 1, 8, bits]))))


def uptime(g):
    x = g.random()
    us = [u for u in range(7) if g.p(.45)] or [g.randint(0, 6)]
    if x < .1:
        g.shuffle(us)
    out = ""
    for n, u in enumerate(us):
        v = str(g.randint(0, 60)) if u else str(g.randint(0, 9))
        w = g.choice(UNITS[u])
        if g.p(.1):
            w = w.upper()
        if x > .95:
            w = g.choice([w + "x", "fortnights", "", "1"])
        if .9 < x < .92:
            v = "1.5"
        out += v + g.choice(["", " ", " "]) + w
        if n < len(us) - 1:
            out += g.choice([", ", ", ", " ", "", ",", "/", " / "])
    return out


def mac(g):
    d = "".join(g.choice("0123456789abcdefABCDEF") for _ in range(g.choice([12, 12, 12, 12, 10, 8, 11, 1, 14, 13])))
    x = g.random()
    if x < .1:
        return g.choice(["xyz", "ab_cd", "no+mac", "--", "aa:bb;cc"])
    k = g.choice([2, 2, 4, 4, 6, 3])
    return g.choice([":", "-", "."]).join(d[i:i + k] for i in range(0, len(d), k)) if g.p(.85) else d


def c33(seed, n, tier):
    for k in range(n):
        g = rng(seed, "c33", k)
        c = Case(kind="addresses and durations")
        vs = {"pf4": net4(g), "pf6": g.choice(NET6)}
        pv = lambda name, fns: var(name, [pat("ORPHRASE")], fns)
        ver = lambda: g.choice([[], [], [], ["ipv4"], ["ipv6"]])
        used = list(vs.values())

        def pref():
            w = g.choice(["pf4", "pf4", "pf6", net4(g), g.choice(NET6)])
            if w not in vs:
                used.append(w)
            return w

        def attrs(names, n=(0, 2)):
            fs = [call(g.choice(names)) for _ in range(g.randint(*n))]
            for j, f in enumerate(fs):      # what a network is asked is of its own
                if f["f"] == "network":
                    fs[j + 1:] = [call(g.choice(ANET + ISNET)) for _ in fs[j + 1:]]
            return fs + ([call("to_str")] if g.p(.3) else [])
        tops = [group("is*", [line(lit("is "), pv("a", [call("is_ip", *ver())])), line(lit(" ii "), pv("b", [call("is_ip", *ver())]))])]
        v = ver()
        chain = [call("is_ip", *v), call("to_ip", *v)] + attrs(AIF)
        if g.p(.3):
            chain = chain[:2] + [call("cidr_match", pref())] + attrs(["is_private", "ip", "version"], (0, 1))
        elif g.p(.2):
            chain = chain[:2] + [call("ip_info")]
        elif g.p(.2):
            chain = chain[:2] + [call("network")] + attrs(ANET, (0, 2))
        tops.append(group("to*", [line(lit("to "), pv("a", chain))]))
        tops.append(group("in*", [line(lit("in "), pv("a", [call("ip_info", *ver())]))]))
        tops.append(group("cm*", [line(lit("cm "), pv("a", [call("cidr_match", pref())])), line(lit(" cn "), pv("b", [call("cidr_match", pref())] + ([call("to_list")] if g.p(.2) else [])))]))
        tops.append(group("nt*", [line(lit("nt "), var("a", [], [call("to_net", *g.choice([[], ["ipv4"]]))] + attrs(ANET + ISNET * g.choice([0, 1]))))]))
        tops.append(group("cd*", [line(lit("cd "), var("a", [], [call("to_cidr")]))]))
        tops.append(group("mc*", [line(lit("mc "), var("a", [], [call("mac_eui")] + ([call("upper")] if g.p(.2) else [])))]))
        tops.append(group("up*", [line(lit("up "), var("a", [pat("ORPHRASE")], [g.choice([call("uptimeparse"), call("uptimeparse", "seconds"), call("uptimeparse", kw={"format": "dict"}), call("uptimeparse", "dict")])]))]))
        tops.append(group("gi*", [line(lit("gi "), var("a"), lit(" "), var("m")), line(lit(" gx "), var("b"))], fns=[call("to_ip", "a", g.choice(["m", "m", "b"]))]))
        tops = g.sample(tops, g.randint(3, len(tops)))
        d = tdef(tops, [(vs, "")])
        c.new().add_template(d)
        for _ in range(g.randint(1, 2)):
            out = []
            for _ in range(g.randint(6, 16)):
                w = tops[g.randint(0, len(tops) - 1)]["name"][:2]
                if w in ("is", "to", "in", "cm"):
                    some = lambda: near(g, g.choice(used)) if w in ("cm", "to") and g.p(.5) else ip(g)
                    out.append("%s %s" % (w, some()))
                    if w in ("is", "cm") and g.p(.5):
                        out.append(" %s %s" % ({"is": "ii", "cm": "cn"}[w], some()))
                elif w == "nt":
                    out.append("nt " + net4(g))
                elif w == "cd":
                    out.append("cd " + g.choice([mask4(g.randint(0, 32)), "0.0.0.255", "24", "255.255", "a.b", "255.255.255.x", ip4(g)]))
                elif w == "mc":
                    out.append("mc " + mac(g))
                elif w == "up":
                    out.append("up " + uptime(g))
                else:
                    out.append("gi %s %s" % (g.choice([ip4(g), ip4(g), ip6(g), "x"]), g.choice([mask(g), mask(g), "64", "255.0.0.1"])))
                    if g.p(.5):
                        out.append(" gx " + mask(g))
            c.add_input("\n".join(out))
        c.parse(one=True).result()
        yield c


PROPS = {
    "C33": {"parts": [gen_part(c33, 250)], "cover": ["Start"]},
}
