------------------------------- MODULE Text --------------------------------
(* RON text frames: how a sequence of bytes is read as operations, how ids
   follow each other, when two frames carry the same operations, and how code
   points are spelled in UTF-8 and UTF-16.

   The reader is a state machine over bytes. Its state is a record; one byte,
   one transition. Reading a frame is folding Step over its bytes.

   Terms. A word is <<flag, high, low>>: 4 + 30 + 30 bits. An id is
   <<flag, high, low, oflag, ohigh, olow>>. A value is
     <<"i", negative, decimal digits>>
     <<"f", negative, exponent, digits>>     0.d1d2.. * 10^exponent
     <<"u", id>>
     <<"s", code points>>
   An operation is <<id, ref, values, terminator>>.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

B30 == 1073741824

NIL     == <<0, 0, 0, 0, 0, 0>>
COMMENT == <<0, 63 * 16777216, 0, 0, 0, 0>>

Inc(id) ==
  IF id[3] < B30 - 1 THEN [id EXCEPT ![3] = @ + 1]
  ELSE IF id[2] < B30 - 1 THEN [id EXCEPT ![3] = 0, ![2] = @ + 1]
  ELSE [id EXCEPT ![3] = 0, ![2] = 0, ![1] = (@ + 1) % 16]

-----------------------------------------------------------------------------
(* Characters *)

IsWS(b)    == b \in {32, 13, 10, 9}
IsDigit(b) == b >= 48 /\ b <= 57
Base(b) ==
  IF b >= 48 /\ b <= 57 THEN b - 48
  ELSE IF b >= 65 /\ b <= 90 THEN b - 55
  ELSE IF b = 95 THEN 36
  ELSE IF b >= 97 /\ b <= 122 THEN b - 60
  ELSE IF b = 126 THEN 63
  ELSE -1
Hex(b) ==
  IF b >= 48 /\ b <= 57 THEN b - 48
  ELSE IF b >= 65 /\ b <= 70 THEN b - 55
  ELSE IF b >= 97 /\ b <= 102 THEN b - 87
  ELSE -1
IsTerm(b)  == b \in {44, 59, 33, 63}                    \* , ; ! ?
Version(b) == CASE b = 36 -> 0 [] b = 37 -> 1 [] b = 43 -> 2 [] b = 45 -> 3 [] OTHER -> -1
IsTok(b)   == Base(b) >= 0 \/ Version(b) >= 0 \/ b = 47 \/ b = 46

-----------------------------------------------------------------------------
(* Tokens: words, ids, integers, floats *)

Pow64 == <<16777216, 262144, 4096, 64, 1>>

WordOf(s, from, to) ==      \* <<high, low>> of the digits s[from..to]
  LET D(k) == IF from + k - 1 <= to THEN Base(s[from + k - 1]) ELSE 0
  IN  << D(1) * Pow64[1] + D(2) * Pow64[2] + D(3) * Pow64[3] + D(4) * Pow64[4] + D(5),
         D(6) * Pow64[1] + D(7) * Pow64[2] + D(8) * Pow64[3] + D(9) * Pow64[4] + D(10) >>

AllBase(s, from, to) == from <= to /\ \A k \in from..to : Base(s[k]) >= 0

NoId == <<>>

\* the id a token spells, or NoId
IdOf(s) ==
  LET n == Len(s)
      var == n >= 2 /\ s[2] = 47
      f == IF var THEN 3 ELSE 1
      vs == {k \in f..n : Version(s[k]) >= 0}
      cut == IF vs = {} THEN n + 1 ELSE CHOOSE k \in vs : \A j \in vs : k <= j
      v == WordOf(s, f, cut - 1)
      o == WordOf(s, cut + 1, n)
  IN  IF n = 0 THEN NoId
      ELSE IF var /\ ~(Hex(s[1]) >= 0 /\ s[1] < 97) THEN NoId
      ELSE IF ~AllBase(s, f, cut - 1) \/ cut - f > 10 THEN NoId
      ELSE IF cut = n + 1 THEN <<IF var THEN Hex(s[1]) ELSE 0, v[1], v[2], 0, 0, 0>>
      ELSE IF ~AllBase(s, cut + 1, n) \/ n - cut > 10 THEN NoId
      ELSE <<IF var THEN Hex(s[1]) ELSE 0, v[1], v[2], Version(s[cut]), o[1], o[2]>>

AllDigits(s, from, to) == from <= to /\ \A k \in from..to : IsDigit(s[k])

SgnLen(s) == IF Len(s) > 0 /\ s[1] \in {43, 45} THEN 1 ELSE 0

IsInt(s) == AllDigits(s, SgnLen(s) + 1, Len(s))

RECURSIVE LexLE(_, _, _)
LexLE(a, b, k) ==           \* digit sequences, missing digits are zeros
  IF k > Len(a) THEN TRUE
  ELSE LET y == IF k <= Len(b) THEN b[k] ELSE 0
       IN  IF a[k] # y THEN a[k] < y ELSE LexLE(a, b, k + 1)

Strip(ds) ==                \* no leading zeros
  LET nz == {k \in 1..Len(ds) : ds[k] # 0}
  IN  IF nz = {} THEN <<>> ELSE SubSeq(ds, CHOOSE k \in nz : \A j \in nz : k <= j, Len(ds))

Max63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
Min63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>

Digits(s, from, to) == [k \in 1..(to - from + 1) |-> s[from + k - 1] - 48]

NoVal == <<"x">>

IntOf(s) ==
  LET neg == s[1] = 45
      ds == Strip(Digits(s, SgnLen(s) + 1, Len(s)))
  IN  IF Len(ds) > 19 \/ (Len(ds) = 19 /\ ~LexLE(ds, IF neg THEN Min63 ELSE Max63, 1)) THEN NoVal
      ELSE <<"i", IF neg /\ ds # <<>> THEN 1 ELSE 0, ds>>

FirstIn(s, set) ==
  LET ks == {k \in 1..Len(s) : s[k] \in set}
  IN  IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j

IsFloat(s) ==
  LET f == SgnLen(s) + 1
      dot == FirstIn(s, {46})
      e == FirstIn(s, {69, 101})
      frac == IF e > 0 THEN e - 1 ELSE Len(s)
      expOk == e = 0 \/ AllDigits(s, IF e < Len(s) /\ s[e + 1] \in {43, 45} THEN e + 2 ELSE e + 1, Len(s))
  IN  IF dot > 0
      THEN (e = 0 \/ dot < e) /\ AllDigits(s, f, dot - 1) /\ AllDigits(s, dot + 1, frac) /\ expOk
      ELSE e > 0 /\ AllDigits(s, f, e - 1) /\ expOk

Dec(ds) == FoldLeft(LAMBDA a, d : a * 10 + d, 0, ds)

ZERODEC == <<-99999999, <<>>>>

FloatOf(s) ==
  LET f == SgnLen(s) + 1
      dot == FirstIn(s, {46})
      e == FirstIn(s, {69, 101})
      end == IF e > 0 THEN e - 1 ELSE Len(s)
      ip == Digits(s, f, IF dot > 0 THEN dot - 1 ELSE end)
      fp == IF dot > 0 THEN Digits(s, dot + 1, end) ELSE <<>>
      all == ip \o fp
      sig == Strip(all)
      eneg == e > 0 /\ s[e + 1] = 45
      esig == IF e = 0 THEN <<>>
              ELSE Strip(Digits(s, IF s[e + 1] \in {43, 45} THEN e + 2 ELSE e + 1, Len(s)))
      ev == IF Len(esig) > 6 THEN 9999999 ELSE Dec(esig)
      ex == Len(ip) - (Len(all) - Len(sig)) + (IF eneg THEN 0 - ev ELSE ev)
      neg == IF s[1] = 45 THEN 1 ELSE 0
  IN  IF Len(s) > 24 THEN NoVal
      ELSE IF sig = <<>> THEN <<"f", neg, ZERODEC[1], ZERODEC[2]>>
      ELSE <<"f", neg, ex, sig>>

\* what a bare token means: a number if it can be one, else an id
BareOf(s) ==
  IF IsInt(s) THEN IntOf(s)
  ELSE IF IsFloat(s) THEN FloatOf(s)
  ELSE LET u == IdOf(s) IN IF u = NoId THEN NoVal ELSE <<"u", u>>

QuotedOf(kind, s) ==
  CASE kind = 61 -> IF IsInt(s) THEN IntOf(s) ELSE NoVal
    [] kind = 94 -> IF IsFloat(s) THEN FloatOf(s) ELSE NoVal
    [] OTHER     -> LET u == IdOf(s) IN IF u = NoId THEN NoVal ELSE <<"u", u>>

-----------------------------------------------------------------------------
(* The reader. Modes:
   S start of an op; ID, RF tokens of the spec; SP after an id; V among values;
   B bare token; Q quote seen; QT quoted token; T string; E escape; X \u digits;
   C UTF-8 continuation; P span opened; Z span size; A before the span's close;
   F after a span; D dot seen; END; BAD.
   lax: the text spells a string in a way the properties leave open (overlong
   or surrogate code points, NUL): either reading or refusing is fine.        *)

Start == [m |-> "S", ops |-> <<>>, id |-> Inc(NIL), ref |-> NIL, vals |-> <<>>, tok |-> <<>>,
          ws |-> FALSE, kind |-> 0, cps |-> <<>>, acc |-> 0, left |-> 0, size |-> 0,
          spread |-> FALSE, n |-> 1, lax |-> FALSE]

Bad(st) == [st EXCEPT !.m = "BAD"]

\* the ops that end with this terminator
Spanned(st, t) ==
  LET N == st.n
      ids[k \in 1..N] == IF k = 1 THEN st.id ELSE Inc(ids[k - 1])
  IN  [k \in 1..N |->
        << ids[k], IF k = 1 THEN st.ref ELSE ids[k - 1],
           IF st.spread THEN Append(st.vals, <<"s", <<st.cps[k]>>>>) ELSE st.vals,
           IF k < N THEN 44 ELSE t >>]

Emit(st, t) ==
  LET new == Spanned(st, t)
      last == new[Len(new)][1]
  IN  [Start EXCEPT !.ops = st.ops \o new, !.id = Inc(last), !.ref = last, !.lax = st.lax]

AddVal(st, v) ==
  IF v = NoVal THEN Bad(st)
  ELSE [st EXCEPT !.vals = Append(@, v), !.tok = <<>>, !.m = "V", !.ws = FALSE]

Value(st, b) ==             \* a byte where a value may start
  IF IsWS(b) THEN [st EXCEPT !.ws = TRUE]
  ELSE IF b \in {61, 94, 62} THEN [st EXCEPT !.m = "Q", !.kind = b]
  ELSE IF b = 39 THEN [st EXCEPT !.m = "T", !.cps = <<>>]
  ELSE IF b = 40 THEN [st EXCEPT !.m = "P"]
  ELSE IF IsTerm(b) THEN Emit(st, b)
  ELSE IF st.ws /\ IsTok(b) THEN [st EXCEPT !.m = "B", !.tok = <<b>>]
  ELSE Bad(st)

AfterSpec(st, b) == IF b = 58 THEN [st EXCEPT !.m = "RF", !.tok = <<>>] ELSE Value(st, b)

NextCp(st, cp, lax) ==
  [st EXCEPT !.m = "T", !.cps = Append(@, cp), !.acc = 0, !.lax = @ \/ lax]

Scalar(cp) == cp # 0 /\ cp <= 1114111 /\ ~(cp >= 55296 /\ cp <= 57343)

Quoted(st, b) ==              \* a byte inside a quoted string
  IF b = 39 THEN
    IF st.spread
    THEN IF st.cps = <<>> THEN Bad(st) ELSE [st EXCEPT !.m = "A", !.n = Len(st.cps)]
    ELSE AddVal(st, <<"s", st.cps>>)
  ELSE IF b \in {10, 13} THEN Bad(st)
  ELSE IF b = 0 THEN [Bad(st) EXCEPT !.lax = TRUE]
  ELSE IF b = 92 THEN [st EXCEPT !.m = "E"]
  ELSE IF b < 128 THEN NextCp(st, b, FALSE)
  ELSE IF b < 192 THEN Bad(st)
  ELSE IF b < 224 THEN [st EXCEPT !.m = "C", !.acc = b - 192, !.left = 1, !.size = 128]
  ELSE IF b < 240 THEN [st EXCEPT !.m = "C", !.acc = b - 224, !.left = 2, !.size = 2048]
  ELSE IF b < 248 THEN [st EXCEPT !.m = "C", !.acc = b - 240, !.left = 3, !.size = 65536]
  ELSE Bad(st)

Escape(st, b) ==
  CASE b = 110 -> NextCp(st, 10, FALSE)
    [] b = 114 -> NextCp(st, 13, FALSE)
    [] b = 116 -> NextCp(st, 9, FALSE)
    [] b = 98  -> NextCp(st, 8, FALSE)
    [] b \in {92, 39, 34, 47} -> NextCp(st, b, FALSE)
    [] b = 117 -> [st EXCEPT !.m = "X", !.acc = 0, !.left = 4]
    [] OTHER   -> Bad(st)

\* the terminator's dot may only follow complete ops
Step(st, b) ==
  CASE st.m = "BAD" -> st
    [] st.m = "S" ->
        IF IsWS(b) THEN st
        ELSE IF b = 64 THEN [st EXCEPT !.m = "ID", !.tok = <<>>]
        ELSE IF b = 46 THEN [st EXCEPT !.m = "D"]
        ELSE Value([st EXCEPT !.ws = TRUE, !.m = "V"], b)
    [] st.m = "ID" ->
        IF IsTok(b) THEN [st EXCEPT !.tok = Append(@, b)]
        ELSE LET u == IdOf(st.tok) IN
             IF u = NoId THEN Bad(st)
             ELSE AfterSpec([st EXCEPT !.id = u, !.tok = <<>>, !.m = "SP", !.ws = FALSE], b)
    [] st.m = "SP" -> AfterSpec(st, b)
    [] st.m = "RF" ->
        IF IsTok(b) THEN [st EXCEPT !.tok = Append(@, b)]
        ELSE LET u == IdOf(st.tok) IN
             IF u = NoId THEN Bad(st)
             ELSE Value([st EXCEPT !.ref = u, !.tok = <<>>, !.m = "V", !.ws = FALSE], b)
    [] st.m = "V" -> Value(st, b)
    [] st.m = "B" ->
        IF IsTok(b) THEN [st EXCEPT !.tok = Append(@, b)]
        ELSE LET s2 == AddVal(st, BareOf(st.tok)) IN IF s2.m = "BAD" THEN s2 ELSE Value(s2, b)
    [] st.m = "Q" ->
        IF IsWS(b) THEN st
        ELSE IF IsTok(b) THEN [st EXCEPT !.m = "QT", !.tok = <<b>>] ELSE Bad(st)
    [] st.m = "QT" ->
        IF IsTok(b) THEN [st EXCEPT !.tok = Append(@, b)]
        ELSE LET s2 == AddVal(st, QuotedOf(st.kind, st.tok))
             IN IF s2.m = "BAD" THEN s2 ELSE Value(s2, b)
    [] st.m = "T" -> Quoted(st, b)
    [] st.m = "E" -> Escape(st, b)
    [] st.m = "X" ->
        IF Hex(b) < 0 THEN Bad(st)
        ELSE LET a == st.acc * 16 + Hex(b) IN
             IF st.left = 1 THEN NextCp(st, a, ~Scalar(a))
             ELSE [st EXCEPT !.acc = a, !.left = @ - 1]
    [] st.m = "C" ->
        IF b < 128 \/ b >= 192 THEN Bad(st)
        ELSE LET a == st.acc * 64 + (b - 128) IN
             IF st.left = 1 THEN NextCp(st, a, ~Scalar(a) \/ a < st.size)
             ELSE [st EXCEPT !.acc = a, !.left = @ - 1]
    [] st.m = "P" ->
        IF IsWS(b) THEN st
        ELSE IF b = 39 THEN [st EXCEPT !.m = "T", !.spread = TRUE, !.cps = <<>>]
        ELSE IF IsDigit(b) THEN [st EXCEPT !.m = "Z", !.tok = <<b>>]
        ELSE Bad(st)
    [] st.m = "Z" ->
        IF IsDigit(b) THEN [st EXCEPT !.tok = Append(@, b)]
        ELSE LET ds == Strip(Digits(st.tok, 1, Len(st.tok))) IN
             IF ds = <<>> \/ Len(ds) > 9 THEN Bad(st)
             ELSE LET s2 == [st EXCEPT !.n = Dec(ds), !.tok = <<>>]
                  IN  IF b = 41 THEN [s2 EXCEPT !.m = "F"]
                      ELSE IF IsWS(b) THEN [s2 EXCEPT !.m = "A"] ELSE Bad(st)
    [] st.m = "A" ->
        IF IsWS(b) THEN st ELSE IF b = 41 THEN [st EXCEPT !.m = "F"] ELSE Bad(st)
    [] st.m = "F" ->
        IF IsWS(b) THEN st ELSE IF IsTerm(b) THEN Emit(st, b) ELSE Bad(st)
    [] st.m = "D" -> IF b = 10 THEN [st EXCEPT !.m = "END"] ELSE Bad(st)
    [] st.m = "END" -> Bad(st)

Run(bytes) == FoldLeft(Step, Start, bytes)

Outcome(r) == [ops |-> r.ops, clean |-> r.m \in {"S", "END"}, lax |-> r.lax]
Read(bytes) == Outcome(Run(bytes))

\* a stream is any number of frames, each with its terminator but the last
StreamStep(s, b) ==
  IF s.cur.m = "END" THEN IF IsWS(b) THEN s ELSE [done |-> Append(s.done, s.cur.ops), cur |-> Step(Start, b)]
  ELSE [s EXCEPT !.cur = Step(@, b)]
ReadStream(bytes) ==
  LET s == FoldLeft(StreamStep, [done |-> <<>>, cur |-> Start], bytes)
  IN  [frames |-> Append(s.done, s.cur.ops), clean |-> s.cur.m \in {"S", "END"}]

\* what a writer makes of the last op's terminator: a frame ends its last chunk
Closed(ops) ==
  IF ops # <<>> /\ ops[Len(ops)][4] = 44 THEN [ops EXCEPT ![Len(ops)][4] = 59] ELSE ops

-----------------------------------------------------------------------------
(* Values the machine reports. Doubles come as the interval of decimals that
   round to them: <<"f", negative, lowE, lowDigits, highE, highDigits>>.      *)

DecLE(e1, d1, e2, d2) == IF e1 # e2 THEN e1 < e2 ELSE LexLE(d1, d2, 1)

SameVal(s, r) ==
  /\ s[1] = r[1]
  /\ CASE s[1] = "f" -> /\ s[2] = r[2]
                        /\ DecLE(r[3], r[4], s[3], s[4])
                        /\ DecLE(s[3], s[4], r[5], r[6])
       [] OTHER -> s = r

SameVals(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameVal(a[k], b[k])

SameOp(s, r)  == s[1] = r[1] /\ s[2] = r[2] /\ SameVals(s[3], r[3])
SameOpT(s, r) == SameOp(s, r) /\ s[4] = r[4]

SameOps(a, b)  == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameOp(a[k], b[k])
SameOpsT(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameOpT(a[k], b[k])

Plain(ops) == SelectSeq(ops, LAMBDA o : o[1] # COMMENT)

-----------------------------------------------------------------------------
(* Unicode *)

Utf8(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

Utf16(cp) ==
  IF cp < 65536 THEN <<cp>>
  ELSE <<55296 + (cp - 65536) \div 1024, 56320 + (cp % 1024)>>

Utf8S(cps)  == FoldLeft(LAMBDA a, cp : a \o Utf8(cp), <<>>, cps)
Utf16S(cps) == FoldLeft(LAMBDA a, cp : a \o Utf16(cp), <<>>, cps)

\* a decoder of bytes: state <<code points, accumulator, bytes left, least>>;
\* strict: what no decoder may accept; lax: overlong and surrogate forms
U8Start == [cps |-> <<>>, acc |-> 0, left |-> 0, least |-> 0, bad |-> FALSE, lax |-> FALSE]
U8Step(s, b) ==
  IF s.bad THEN s
  ELSE IF s.left > 0 THEN
    IF b < 128 \/ b >= 192 THEN [s EXCEPT !.bad = TRUE]
    ELSE LET a == s.acc * 64 + (b - 128) IN
         IF s.left > 1 THEN [s EXCEPT !.acc = a, !.left = @ - 1]
         ELSE [s EXCEPT !.cps = Append(@, a), !.left = 0,
                        !.lax = @ \/ a < s.least \/ ~Scalar(a)]
  ELSE IF b < 128 THEN [s EXCEPT !.cps = Append(@, b), !.lax = @ \/ b = 0]
  ELSE IF b < 192 \/ b >= 248 THEN [s EXCEPT !.bad = TRUE]
  ELSE IF b < 224 THEN [s EXCEPT !.acc = b - 192, !.left = 1, !.least = 128]
  ELSE IF b < 240 THEN [s EXCEPT !.acc = b - 224, !.left = 2, !.least = 2048]
  ELSE [s EXCEPT !.acc = b - 240, !.left = 3, !.least = 65536]

DecodeUtf8(bytes) ==
  LET s == FoldLeft(U8Step, U8Start, bytes)
  IN  [ok |-> ~s.bad /\ s.left = 0, cps |-> s.cps, lax |-> s.lax]
=============================================================================
