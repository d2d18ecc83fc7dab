-------------------------------- MODULE Ids ---------------------------------
(* 128-bit ids, their texts and order; storage keys; data forms; timestamps. *)
(* A word is <<flag, d>>: a 4-bit flag and ten base-64 digits, the first one *)
(* the most significant. An id is <<value word, origin word>>; the flag of   *)
(* the value is the variety, that of the origin (0..3) the version:          *)
(* 0 name, 1 hash, 2 event, 3 derived.                                       *)
EXTENDS Integers, Sequences, FiniteSets

DigitOf(c) == CASE c >= 48 /\ c <= 57  -> c - 48
                [] c >= 65 /\ c <= 90  -> c - 55
                [] c = 95              -> 36
                [] c >= 97 /\ c <= 122 -> c - 60
                [] c = 126             -> 63
                [] OTHER               -> 0 - 1
CharOf(d) == CASE d < 10 -> 48 + d
               [] d < 36 -> 55 + d
               [] d = 36 -> 95
               [] d < 63 -> 60 + d
               [] OTHER  -> 126
VERSIONS == <<36, 37, 43, 45>>            \* $ % + -
SLASH == 47

Pad(ds) == [k \in 1..10 |-> IF k <= Len(ds) THEN ds[k] ELSE 0]
ZeroD == Pad(<<>>)
MaxD == [k \in 1..10 |-> 63]
NIL == <<<<0, ZeroD>>, <<0, ZeroD>>>>
ErrorId == <<<<0, MaxD>>, <<0, MaxD>>>>

(* ------------------------------ texts ----------------------------------- *)
RECURSIVE Trimmed(_)
Trimmed(ds) == IF Len(ds) > 1 /\ ds[Len(ds)] = 0 THEN Trimmed(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
PrintWord(w) == LET t == Trimmed(w[2]) IN [k \in 1..Len(t) |-> CharOf(t[k])]
Print(u) == (IF u[1][1] # 0 THEN <<CharOf(u[1][1]), SLASH>> ELSE <<>>)
            \o PrintWord(u[1])
            \o (IF u[2] # <<0, ZeroD>> THEN <<VERSIONS[u[2][1] + 1]>> \o PrintWord(u[2]) ELSE <<>>)

AllBase(t) == \A k \in 1..Len(t) : DigitOf(t[k]) >= 0
WordText(t) == Len(t) \in 1..10 /\ AllBase(t)
ToWord(f, t) == <<f, Pad([k \in 1..Len(t) |-> DigitOf(t[k])])>>
VersionAt(t) == {k \in 1..Len(t) : \E v \in 1..4 : t[k] = VERSIONS[v]}
Parse(text) ==
  LET vary == Len(text) >= 2 /\ text[2] = SLASH
      hexok == vary => (text[1] >= 48 /\ text[1] <= 57) \/ (text[1] >= 65 /\ text[1] <= 70)
      t == IF vary THEN SubSeq(text, 3, Len(text)) ELSE text
      at == VersionAt(t)
      cut == IF at = {} THEN Len(t) + 1 ELSE CHOOSE k \in at : \A j \in at : k <= j
      v == SubSeq(t, 1, cut - 1)
      o == SubSeq(t, cut + 1, Len(t))
      ver == IF at = {} THEN 0 ELSE (CHOOSE x \in 1..4 : VERSIONS[x] = t[cut]) - 1
  IN  IF ~hexok \/ ~WordText(v) \/ (at # {} /\ ~WordText(o)) THEN ErrorId
      ELSE <<ToWord(IF vary THEN DigitOf(text[1]) ELSE 0, v),
             IF at = {} THEN <<0, ZeroD>> ELSE ToWord(ver, o)>>

(* ------------------------------ order ----------------------------------- *)
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF a = <<>> THEN b # <<>>
                 ELSE IF b = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE SeqLess(Tail(a), Tail(b))
WordLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ SeqLess(a[2], b[2]))
IdLess(a, b) == WordLess(a[1], b[1]) \/ (a[1] = b[1] /\ WordLess(a[2], b[2]))

\* add n to a word; past the payload it runs into the flag, which no caller does
RECURSIVE AddAt(_, _, _)
AddAt(ds, k, n) == IF n = 0 \/ k = 0 THEN ds
                   ELSE AddAt([ds EXCEPT ![k] = (ds[k] + n) % 64], k - 1, (ds[k] + n) \div 64)
Plus(u, n) == <<<<u[1][1], AddAt(u[1][2], 10, n)>>, u[2]>>
RECURSIVE RunsOver(_, _, _)
RunsOver(ds, k, n) == IF k = 0 THEN n > 0 ELSE RunsOver(ds, k - 1, (ds[k] + n) \div 64)
CanAdd(u, n) == ~RunsOver(u[1][2], 10, n)
WithVersion(u, v) == <<u[1], <<v, u[2][2]>>>>

(* ---------------------------- storage keys ------------------------------ *)
\* order of records: by form, then yarn, then time
KeyLess(i, f, j, g) == f < g \/ (f = g /\ (SeqLess(i[2][2], j[2][2]) \/ (i[2][2] = j[2][2] /\ SeqLess(i[1][2], j[1][2]))))
KeyEq(i, f, j, g) == f = g /\ i[2][2] = j[2][2] /\ i[1][2] = j[1][2]
KeyId(i, v) == <<<<0, i[1][2]>>, <<v, i[2][2]>>>>

(* ------------------------------- forms ---------------------------------- *)
Letters(s) == s
FORMNAMES == <<"zero", "yarn", "log", "tail", "patch", "span", "chain", "graph", "meta", "prev",
               "obj", "sha3", "vv", "lww", "rga", "mx", "json", "csv", "txt", "max">>
FORMTEXT == <<<<122, 101, 114, 111>>, <<121, 97, 114, 110>>, <<108, 111, 103>>, <<116, 97, 105, 108>>,
              <<112, 97, 116, 99, 104>>, <<115, 112, 97, 110>>, <<99, 104, 97, 105, 110>>, <<103, 114, 97, 112, 104>>,
              <<109, 101, 116, 97>>, <<112, 114, 101, 118>>, <<111, 98, 106>>, <<115, 104, 97, 51>>, <<118, 118>>,
              <<108, 119, 119>>, <<114, 103, 97>>, <<109, 120>>, <<106, 115, 111, 110>>, <<99, 115, 118>>,
              <<116, 120, 116>>, <<109, 97, 120>>>>
ErrorForm == 255
FormId(f) == IF f \in 0..(Len(FORMTEXT) - 1) THEN Parse(FORMTEXT[f + 1]) ELSE ErrorId
FormOf(u) == IF u = ErrorId THEN ErrorForm
             ELSE IF \E f \in 1..Len(FORMTEXT) : Parse(FORMTEXT[f]) = u
             THEN (CHOOSE f \in 1..Len(FORMTEXT) : Parse(FORMTEXT[f]) = u) - 1
             ELSE 0

(* ----------------------------- timestamps ------------------------------- *)
\* days since 1970-01-01 -> <<year, month 0..11, day 0..30>> (proleptic Gregorian)
Civil(days) ==
  LET z == days + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5)
      m == IF mp < 10 THEN mp + 2 ELSE mp - 10
      y == yoe + era * 400 + (IF m <= 1 THEN 1 ELSE 0)
  IN  <<y, m, d>>
\* days, second of the day, 100ns ticks -> timestamp digits, calendar by digit
Stamp(days, sec, tick) ==
  LET c == Civil(days)
      months == (c[1] - 2010) * 12 + c[2]
  IN  <<months \div 64, months % 64, c[3], sec \div 3600, (sec \div 60) % 60, sec % 60,
        tick \div 262144, (tick \div 4096) % 64, (tick \div 64) % 64, tick % 64>>
=============================================================================
