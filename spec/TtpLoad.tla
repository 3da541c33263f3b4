------------------------------ MODULE TtpLoad ------------------------------
(* Structured text: the value a text stands for.  A load is                *)
(* [form, v, text, key, inc]: Python, JSON and YAML texts are represented  *)
(* by the value they stand for (form "value"); CSV and INI texts are read  *)
(* here.  inc is the path of a file to be read with the text, or "".       *)
EXTENDS TtpVal

Lines(text) == SplitOn(text, "\n")
FileText(inc, files) == IF inc # "" /\ Has(files, inc) THEN files[inc].s ELSE ""

(* CSV: fields of a row, in quotes when they hold separators or quotes *)
RECURSIVE CsvFields(_, _, _, _)
\* st: "new" field, "in" plain text, "q" within quotes, "qq" after a quote within quotes
CsvFields(s, i, st, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE LET c == Chr(s, i) IN
       CASE st = "q" -> IF c = "\"" THEN CsvFields(s, i + 1, "qq", cur) ELSE CsvFields(s, i + 1, "q", cur \o c)
         [] st = "qq" /\ c = "\"" -> CsvFields(s, i + 1, "q", cur \o c)
         [] c = "," -> <<cur>> \o CsvFields(s, i + 1, "new", "")
         [] st = "new" /\ c = "\"" -> CsvFields(s, i + 1, "q", cur)
         [] OTHER -> CsvFields(s, i + 1, "in", cur \o c)
RECURSIVE CsvBody(_, _, _, _, _)
CsvBody(rows, k, hs, key, acc) ==
  IF k > Len(rows) THEN acc
  ELSE LET f == rows[k]
           rec == [h \in {hs[j] : j \in 1..Len(f)} |-> S(f[CHOOSE j \in 1..Len(f) : hs[j] = h])]
       IN CsvBody(rows, k + 1, hs, key, Put(acc, rec[key].s, D(Drop(rec, key))))
CsvTable(text, key) ==
  LET rows == SelectSeq(Lines(text), LAMBDA r : r # "")
      fs == [k \in 1..Len(rows) |-> CsvFields(rows[k], 1, "new", "")]
  IN IF rows = <<>> THEN EmptyD
     ELSE LET k == IF key = "" THEN fs[1][1] ELSE key
          IN IF \E j \in 1..Len(fs[1]) : fs[1][j] = k THEN D(CsvBody(fs, 2, fs[1], k, EmptyFn)) ELSE EmptyD

(* INI: sections of options; those of DEFAULT count for every section *)
IniDelim(s) == LET a == IndexFrom(s, "=", 1)  b == IndexFrom(s, ":", 1)
               IN IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a < b THEN a ELSE b
RECURSIVE IniRead(_, _, _, _)
IniRead(ls, k, sec, acc) ==
  IF k > Len(ls) THEN acc
  ELSE LET l == Strip(ls[k]) IN
       IF l = "" \/ Chr(l, 1) \in {"#", ";"} THEN IniRead(ls, k + 1, sec, acc)
       ELSE IF Chr(l, 1) = "[" /\ EndsWith(l, "]")
       THEN LET n == SubSeq(l, 2, Len(l) - 1)
            IN IniRead(ls, k + 1, n, IF Has(acc, n) THEN acc ELSE Put(acc, n, EmptyFn))
       ELSE LET p == IniDelim(l)
            IN IniRead(ls, k + 1, sec,
                       Put(acc, sec, Put(acc[sec], RStrip(Upto(l, p - 1)), S(LStrip(From(l, p + 1))))))
IniTable(texts) ==
  LET RECURSIVE All(_, _)
      All(k, acc) == IF k > Len(texts) THEN acc ELSE All(k + 1, IniRead(Lines(texts[k]), 1, "DEFAULT", acc))
      m == All(1, ("DEFAULT" :> EmptyFn))
      df == m["DEFAULT"]
  IN D([n \in IF df = EmptyFn THEN DOMAIN m \ {"DEFAULT"} ELSE DOMAIN m |-> D(Update(df, m[n]))])

LoadOf(x, files) ==
  CASE x.form = "csv" -> CsvTable(x.text \o "\n" \o FileText(x.inc, files), x.key)
    [] x.form = "ini" -> IniTable(<<FileText(x.inc, files), x.text>>)
    [] OTHER -> x.v
============================================================================
