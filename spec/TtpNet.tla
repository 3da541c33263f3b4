------------------------------ MODULE TtpNet ------------------------------
(* What addresses, hardware addresses and durations stand for.  Objects    *)
(* made of addresses are values [x |-> "IPv4Interface:10.0.0.1/24"], so    *)
(* all there is to know about one is in its text.                          *)
EXTENDS TtpVal, FiniteSets

Before(s, t) == LET k == IndexFrom(s, t, 1) IN IF k = 0 THEN s ELSE Upto(s, k - 1)
After(s, t) == LET k == IndexFrom(s, t, 1) IN IF k = 0 THEN "" ELSE From(s, k + Len(t))
Num(q) == [k \in 1..Len(q) |-> StrToNat(q[k])]

-----------------------------------------------------------------------------
(* addresses: [ok, ver, by]; by: 4 or 16 bytes                             *)
NoAddr == [ok |-> FALSE, ver |-> 4, by |-> <<>>]
Octet(s) == AllDigits(s) /\ Len(s) <= 3 /\ (Len(s) = 1 \/ Chr(s, 1) # "0") /\ StrToNat(s) <= 255
Addr4(s) == LET q == SplitOn(s, ".") IN
            IF Len(q) = 4 /\ \A k \in 1..4 : Octet(q[k]) THEN [ok |-> TRUE, ver |-> 4, by |-> Num(q)] ELSE NoAddr
HexSeq == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexVal(c) == (CHOOSE k \in 1..16 : HexSeq[k] = LoC(c)) - 1
RECURSIVE HexFrom(_, _, _)
HexFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE HexFrom(s, i + 1, acc * 16 + HexVal(Chr(s, i)))
Group6(s) == s # "" /\ Len(s) <= 4 /\ CharSet(s) \subseteq HexChars
\* parts of one side of "::", the last may be an IPv4 address
Side(s, tail) ==
  IF s = "" THEN [ok |-> TRUE, g |-> <<>>]
  ELSE LET q == SplitOn(s, ":")
           v4 == IF tail /\ ContainsStr(Last(q), ".") THEN Addr4(Last(q)) ELSE NoAddr
           h == IF v4.ok THEN SubSeq(q, 1, Len(q) - 1) ELSE q
       IN IF \E k \in 1..Len(h) : ~Group6(h[k]) THEN [ok |-> FALSE, g |-> <<>>]
          ELSE [ok |-> TRUE, g |-> [k \in 1..Len(h) |-> HexFrom(h[k], 1, 0)]
                                     \o IF v4.ok THEN <<v4.by[1] * 256 + v4.by[2], v4.by[3] * 256 + v4.by[4]>> ELSE <<>>]
Zeros(n) == [k \in 1..n |-> 0]
RECURSIVE BytesOf(_)
BytesOf(g) == IF g = <<>> THEN <<>> ELSE <<g[1] \div 256, g[1] % 256>> \o BytesOf(Tail(g))
Addr6(s) ==
  IF ContainsStr(s, "::")
  THEN LET a == Side(Before(s, "::"), FALSE)  b == Side(After(s, "::"), TRUE) IN
       IF a.ok /\ b.ok /\ Len(a.g) + Len(b.g) <= 7
       THEN [ok |-> TRUE, ver |-> 6, by |-> BytesOf(a.g \o Zeros(8 - Len(a.g) - Len(b.g)) \o b.g)] ELSE NoAddr
  ELSE LET a == Side(s, TRUE) IN
       IF s # "" /\ a.ok /\ Len(a.g) = 8 THEN [ok |-> TRUE, ver |-> 6, by |-> BytesOf(a.g)] ELSE NoAddr
AddrOf(s, want) == IF want = 4 THEN Addr4(s) ELSE IF want = 6 THEN Addr6(s)
                   ELSE IF Addr4(s).ok THEN Addr4(s) ELSE Addr6(s)

MaxLen(ver) == IF ver = 4 THEN 32 ELSE 128
\* how many of byte k's bits the first p bits of an address include
BitsIn(p, k) == LET b == p - 8 * (k - 1) IN IF b < 0 THEN 0 ELSE IF b > 8 THEN 8 ELSE b
MaskBytes(p, n) == [k \in 1..n |-> 256 - 2 ^ (8 - BitsIn(p, k))]
Flip(by) == [k \in 1..Len(by) |-> 255 - by[k]]
NetBytes(by, p) == [k \in 1..Len(by) |-> LET u == 2 ^ (8 - BitsIn(p, k)) IN (by[k] \div u) * u]
LastBytes(by, p) == [k \in 1..Len(by) |-> LET u == 2 ^ (8 - BitsIn(p, k)) IN (by[k] \div u) * u + u - 1]
\* prefix length, as a number, a mask or (IPv4) the inverse of a mask; -1: none
PrefixOf(s, ver) ==
  IF AllDigits(s) /\ Len(s) <= 3 THEN (IF StrToNat(s) <= MaxLen(ver) THEN StrToNat(s) ELSE 0 - 1)
  ELSE IF ver = 6 \/ ~Addr4(s).ok THEN 0 - 1
  ELSE LET m == Addr4(s).by IN
       IF \E p \in 0..32 : MaskBytes(p, 4) = m THEN CHOOSE p \in 0..32 : MaskBytes(p, 4) = m
       ELSE IF \E p \in 0..32 : Flip(MaskBytes(p, 4)) = m THEN CHOOSE p \in 0..32 : Flip(MaskBytes(p, 4)) = m
       ELSE 0 - 1
\* objects: kind "Address", "Interface" or "Network"
NoNet == [ok |-> FALSE, kind |-> "", ver |-> 4, by |-> <<>>, p |-> 0]
NetOf(kind, s, want) ==
  LET a == AddrOf(Before(s, "/"), want)
      p == IF ContainsStr(s, "/") THEN PrefixOf(After(s, "/"), a.ver) ELSE MaxLen(a.ver)
  IN IF ~a.ok \/ p < 0 \/ (kind = "Network" /\ NetBytes(a.by, p) # a.by) THEN NoNet
     ELSE [ok |-> TRUE, kind |-> kind, ver |-> a.ver, by |-> a.by, p |-> p]
\* what to_ip makes of a text: an interface when there is a mask in it
IpOf(s, args) ==
  LET want == IF InSeq(args, "ipv4") THEN 4 ELSE IF InSeq(args, "ipv6") THEN 6 ELSE 0
      t == IF want = 6 THEN s ELSE ReplaceAll(s, " ", "/")
  IN NetOf(IF ContainsStr(t, "/") THEN "Interface" ELSE "Address", t, want)

-----------------------------------------------------------------------------
(* as text                                                                 *)
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN HexSeq[n + 1] ELSE HexText(n \div 16) \o HexSeq[(n % 16) + 1]
Pad4(s) == IF Len(s) < 4 THEN SubSeq("0000", 1, 4 - Len(s)) \o s ELSE s
Groups(by) == [k \in 1..8 |-> by[2 * k - 1] * 256 + by[2 * k]]
Dotted(by) == JoinSeq([k \in 1..4 |-> ToString(by[k])], ".")
\* the first longest run of two or more zero groups: [at, n]
RunFrom(g, k) == LET E == {j \in k..9 : j = 9 \/ g[j] # 0} IN (CHOOSE j \in E : \A i \in E : j <= i) - k
ZeroRun(g) == LET m == CHOOSE n \in {RunFrom(g, k) : k \in 1..8} : \A k \in 1..8 : RunFrom(g, k) <= n IN
              IF m < 2 THEN [at |-> 0, n |-> 0]
              ELSE [at |-> CHOOSE k \in 1..8 : RunFrom(g, k) = m /\ \A j \in 1..(k - 1) : RunFrom(g, j) # m, n |-> m]
Colons(g) == JoinSeq([k \in 1..Len(g) |-> HexText(g[k])], ":")
Text6(by) == LET g == Groups(by)  z == ZeroRun(g) IN
             IF z.n = 0 THEN Colons(g) ELSE Colons(SubSeq(g, 1, z.at - 1)) \o "::" \o Colons(SubSeq(g, z.at + z.n, 8))
AddrText(by) == IF Len(by) = 4 THEN Dotted(by) ELSE Text6(by)
LongText(by) == IF Len(by) = 4 THEN Dotted(by)
                ELSE LET g == Groups(by) IN JoinSeq([k \in 1..8 |-> Pad4(HexText(g[k]))], ":")
Mask(a) == IF a.kind = "Address" THEN "" ELSE "/" \o ToString(a.p)
NetText(a) == AddrText(a.by) \o Mask(a)
NetVal(a) == [x |-> "IPv" \o ToString(a.ver) \o a.kind \o ":" \o NetText(a)]
IsNet(v) == DOMAIN v = {"x"} /\ (StartsWith(v.x, "IPv4") \/ StartsWith(v.x, "IPv6"))
OfNet(v) == NetOf(From(Before(v.x, ":"), 5), After(v.x, ":"), 0)
AddrVal(by) == NetVal([ok |-> TRUE, kind |-> "Address", ver |-> IF Len(by) = 4 THEN 4 ELSE 6, by |-> by, p |-> 0])

\* powers of two as text, as TLC's integers have 32 bits
RECURSIVE Doubled(_, _)
Doubled(s, carry) ==
  IF s = "" THEN (IF carry = 0 THEN "" ELSE ToString(carry))
  ELSE LET n == 2 * DigitVal[Chr(s, Len(s))] + carry IN Doubled(Upto(s, Len(s) - 1), n \div 10) \o ToString(n % 10)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN "1" ELSE Doubled(Pow2(n - 1), 0)
BigVal(n, less) == IF n < 31 THEN I(2 ^ n - less)
                   ELSE LET t == Pow2(n) IN      \* ends in 2, 4, 6 or 8
                        IF n = 31 /\ less > 0 THEN I(2147483647 - (less - 1))
                        ELSE [x |-> Upto(t, Len(t) - 1) \o ToString(DigitVal[Chr(t, Len(t))] - less)]

InNet(by, t) == LET n == NetOf("Network", t, 0) IN Len(by) = Len(n.by) /\ NetBytes(by, n.p) = n.by
Private4 == {"0.0.0.0/8", "10.0.0.0/8", "127.0.0.0/8", "169.254.0.0/16", "172.16.0.0/12", "192.0.2.0/24", "192.168.0.0/16",
             "198.18.0.0/15", "198.51.100.0/24", "203.0.113.0/24", "240.0.0.0/4"}
Private6 == {"::1/128", "::/128", "::ffff:0:0/96", "100::/64", "2001:db8::/32", "fc00::/7", "fe80::/10"}
Whole(a) == a.kind # "Interface" \/ a.ver = 4 \/ a.p = 128
RECURSIVE Is(_, _)
Is(a, what) ==
  LET by == a.by
      end(p) == [a EXCEPT !.kind = "Address", !.by = p] IN
  \* of a network: what its first and its last address are, both
  CASE a.kind = "Network" -> Is(end(NetBytes(by, a.p)), what) /\ Is(end(LastBytes(by, a.p)), what)
    [] what = "is_private" -> IF a.ver = 4 THEN \E t \in Private4 : InNet(by, t) ELSE \E t \in Private6 : InNet(by, t)
    [] what = "is_multicast" -> IF a.ver = 4 THEN InNet(by, "224.0.0.0/4") ELSE by[1] = 255
    [] what = "is_loopback" -> IF a.ver = 4 THEN by[1] = 127 ELSE InNet(by, "::1/128") /\ Whole(a)
    \* (the library never says so of an IPv4 interface)
    [] what = "is_unspecified" -> ~(a.ver = 4 /\ a.kind = "Interface") /\ (\A k \in 1..Len(by) : by[k] = 0) /\ Whole(a)
    [] what = "is_link_local" -> IF a.ver = 4 THEN InNet(by, "169.254.0.0/16") ELSE InNet(by, "fe80::/10")
    [] what = "is_reserved" -> IF a.ver = 4 THEN by[1] >= 240
                               ELSE by[1] < 32 \/ (by[1] >= 64 /\ by[1] < 252) \/ (by[1] = 254 /\ by[2] < 128)
IsNames == {"is_private", "is_multicast", "is_loopback", "is_unspecified", "is_link_local", "is_reserved"}
AddrAttrs == {"compressed", "exploded", "version", "max_prefixlen"}
IfAttrs == AddrAttrs \cup {"ip", "netmask", "hostmask", "network", "with_prefixlen", "with_netmask", "with_hostmask"}
NetAttrs == AddrAttrs \cup {"netmask", "hostmask", "with_prefixlen", "with_netmask", "with_hostmask",
                            "network_address", "broadcast_address", "num_addresses", "prefixlen"}
AttrsOf(a) == CASE a.kind = "Address" -> AddrAttrs \cup IsNames [] a.kind = "Interface" -> IfAttrs \cup IsNames [] OTHER -> NetAttrs \cup (IsNames \ {"is_private"})
Attr(a, n) ==
  LET m == MaskBytes(a.p, Len(a.by)) IN
  CASE n = "compressed" -> S(NetText(a))
    [] n = "exploded" -> S(LongText(a.by) \o Mask(a))
    [] n = "version" -> I(a.ver)
    [] n = "max_prefixlen" -> I(MaxLen(a.ver))
    [] n = "ip" -> AddrVal(a.by)
    [] n = "netmask" -> AddrVal(m)
    [] n = "hostmask" -> AddrVal(Flip(m))
    [] n = "network" -> NetVal([a EXCEPT !.kind = "Network", !.by = NetBytes(@, a.p)])
    [] n = "with_prefixlen" -> S(AddrText(a.by) \o "/" \o ToString(a.p))
    [] n = "with_netmask" -> S(AddrText(a.by) \o "/" \o AddrText(m))
    [] n = "with_hostmask" -> S(AddrText(a.by) \o "/" \o AddrText(Flip(m)))
    [] n = "network_address" -> AddrVal(NetBytes(a.by, a.p))
    [] n = "broadcast_address" -> AddrVal(LastBytes(a.by, a.p))
    [] n = "num_addresses" -> BigVal(MaxLen(a.ver) - a.p, 0)
    [] n = "prefixlen" -> I(a.p)
StrVal(v) == IF IsNet(v) THEN S(After(v.x, ":")) ELSE v
IpInfo(a) ==
  LET net == [a EXCEPT !.kind = "Network", !.by = NetBytes(@, a.p)]
      bits == MaxLen(a.ver) - a.p
      is == [n \in IsNames |-> B(Is(a, n))]
      all == [n \in AddrAttrs |-> Attr(a, n)]
  IN IF a.kind = "Address" THEN D(("ip" :> S(AddrText(a.by))) @@ is @@ all)
     ELSE D(is @@ all @@ [n \in {"ip", "netmask", "hostmask", "network", "with_prefixlen", "with_netmask", "with_hostmask"} |-> StrVal(Attr(a, n))]
            @@ [n \in {"network_address", "broadcast_address", "num_addresses", "prefixlen"} |-> StrVal(Attr(net, n))]
            @@ ("hosts" :> BigVal(bits, 2)))
\* networks overlap when the shorter prefix is that of both
Overlap(a, b) == LET p == Min2(a.p, b.p) IN a.ver = b.ver /\ NetBytes(a.by, p) = NetBytes(b.by, p)
Single(a) == IF a.kind = "Address" THEN [a EXCEPT !.p = MaxLen(a.ver)] ELSE a

\* bits that are set in a mask
RECURSIVE OnesIn(_)
OnesIn(n) == IF n = 0 THEN 0 ELSE (n % 2) + OnesIn(n \div 2)
RECURSIVE SumOnes(_, _)
SumOnes(q, k) == IF k > Len(q) THEN 0 ELSE OnesIn(StrToNat(q[k])) + SumOnes(q, k + 1)
CidrOf(s) == LET q == SplitOn(s, ".") IN IF \A k \in 1..Len(q) : AllDigits(q[k]) THEN I(SumOnes(q, 1)) ELSE S(s)

-----------------------------------------------------------------------------
(* hardware addresses                                                      *)
RECURSIVE Pairs(_)
Pairs(s) == IF Len(s) <= 2 THEN <<s>> ELSE <<Upto(s, 2)>> \o Pairs(From(s, 3))
Eui(s) ==
  LET t == Lower(ReplaceAll(ReplaceAll(ReplaceAll(s, ".", ""), ":", ""), "-", "")) IN
  IF t = "" \/ \E k \in 1..Len(t) : ~IsAlphaC(Chr(t, k)) /\ ~IsDigitC(Chr(t, k)) THEN s
  ELSE JoinSeq(Pairs(IF Len(t) < 12 THEN t \o SubSeq("000000000000", 1, 12 - Len(t)) ELSE t), ":")

-----------------------------------------------------------------------------
(* durations: years to seconds in that order, each at most once            *)
Units == <<[n |-> "years", w |-> {"y", "ys", "year", "years"}, dot |-> {"yr", "yrs"}, sec |-> 31536000],
           [n |-> "months", w |-> {"month", "months"}, dot |-> {"mo", "mos", "mth", "mths"}, sec |-> 2592000],
           [n |-> "weeks", w |-> {"w", "wk", "wks", "week", "weeks"}, dot |-> {}, sec |-> 604800],
           [n |-> "days", w |-> {"d", "dy", "dys", "day", "days"}, dot |-> {}, sec |-> 86400],
           [n |-> "hours", w |-> {"h", "hr", "hrs", "hour", "hours"}, dot |-> {}, sec |-> 3600],
           [n |-> "mins", w |-> {"m", "min", "mins", "minute", "minutes"}, dot |-> {}, sec |-> 60],
           [n |-> "secs", w |-> {"s", "sec", "secs", "second", "seconds"}, dot |-> {}, sec |-> 1]>>
RECURSIVE Span(_, _, _)      \* how far characters of a set go on
Span(s, i, C) == IF i <= Len(s) /\ Chr(s, i) \in C THEN Span(s, i + 1, C) ELSE i
LowerChars == {LowerSeq[k] : k \in 1..26}
\* [ok, q]: q the parts found, each [n, v, sec]
RECURSIVE UpFrom(_, _, _, _)
UpFrom(s, i, u, q) ==
  IF i > Len(s) THEN [ok |-> q # <<>>, q |-> q]
  ELSE LET j == Span(s, i, DigitChars)
           k == Span(s, j, SpaceChars)
           e == Span(s, k, LowerChars)
           w == SubSeq(s, k, e - 1)
           hits == {n \in u..7 : w \in Units[n].w \cup Units[n].dot}
       IN IF j = i \/ hits = {} THEN [ok |-> FALSE, q |-> <<>>]
          ELSE LET n == CHOOSE n \in hits : TRUE
                   d == IF w \in Units[n].dot /\ e <= Len(s) /\ Chr(s, e) = "." THEN e + 1 ELSE e
                   b == Span(s, d, SpaceChars)
                   c == IF n < 7 /\ b <= Len(s) /\ Chr(s, b) \in {",", "/"} THEN Span(s, b + 1, SpaceChars) ELSE b
               IN UpFrom(s, c, n + 1, Append(q, [n |-> Units[n].n, v |-> SubSeq(s, i, j - 1), sec |-> Units[n].sec]))
RECURSIVE Total(_, _)
Total(q, k) == IF k > Len(q) THEN 0 ELSE StrToNat(q[k].v) * q[k].sec + Total(q, k + 1)
Uptime(s, form) ==
  LET r == UpFrom(Lower(s), Span(s, 1, SpaceChars), 1, <<>>) IN
  IF ~r.ok THEN S(s)
  ELSE IF form = "seconds" THEN I(Total(r.q, 1))
  ELSE D([n \in {r.q[k].n : k \in 1..Len(r.q)} |-> S(r.q[CHOOSE k \in 1..Len(r.q) : r.q[k].n = n].v)])

-----------------------------------------------------------------------------
NetFns == {"to_ip", "is_ip", "to_net", "to_cidr", "ip_info", "cidr_match", "mac_eui", "uptimeparse"}
\* [v, flag]: "N" none, "T", "F", or "E" an error
NetApply(v, f, args, want, vars) ==
  LET R(w, g) == [v |-> w, flag |-> g]
      ip == IF IsNet(v) THEN OfNet(v) ELSE IF IsS(v) THEN IpOf(v.s, want) ELSE NoNet
  IN
  CASE f = "is_ip" -> R(v, IF ip.ok THEN "T" ELSE "F")
    [] f = "to_ip" -> IF ip.ok THEN R(NetVal(ip), "N") ELSE R(v, "E")
    [] f = "to_net" -> LET n == NetOf("Network", v.s, IF InSeq(want, "ipv4") THEN 4 ELSE IF InSeq(want, "ipv6") THEN 6 ELSE 0)
                       IN IF n.ok THEN R(NetVal(n), "N") ELSE R(v, "E")
    [] f = "to_cidr" -> R(CidrOf(v.s), "N")
    [] f = "ip_info" -> R(IF ip.ok THEN IpInfo(ip) ELSE v, "N")
    [] f = "cidr_match" ->
         LET t == Get(vars, args[1].s, args[1])
             n == NetOf("Network", t.s, 0)
         IN IF ~ip.ok THEN R(v, "N") ELSE R(v, IF Overlap(Single(ip), n) THEN "T" ELSE "F")
    [] f = "mac_eui" -> R(S(Eui(StrOf(v))), "N")
    [] f = "uptimeparse" -> R(Uptime(v.s, IF args = <<>> THEN "seconds" ELSE args[1].s), "N")
=============================================================================
