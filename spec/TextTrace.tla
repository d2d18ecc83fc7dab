----------------------------- MODULE TextTrace ------------------------------
(* Checks recorded calls of the text encoding against Text.                  *)
EXTENDS Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLE i

\* a reading: its bytes, what the machine reported, how it ended, ops after the end
ReadingOk(b, ops, st, more) ==
  LET x == Read(b) IN
  /\ more = 0
  /\ st # "OK"
  /\ IF x.lax
     THEN TRUE
     ELSE /\ SameOpsT(x.ops, ops)
          /\ (st = "ENDOFFRAME") = x.clean

\* a frame the machine wrote: it has to be flawless
WrittenOk(b, ops, st, more) == Read(b).clean /\ ~Read(b).lax /\ ReadingOk(b, ops, st, more)

\* operations given as values are those of the text written
WrOk(e) == /\ WrittenOk(e.out, e.ops, e.st, e.more)
           /\ SameOpsT(Read(e.out).ops, Closed(e.in))
           /\ Len(e.in) = 0 <=> e.out = <<>>

RtOk(e) == LET x == Read(e.src)
               y == Read(e.one)
               z == Read(e.two)
           IN  /\ WrittenOk(e.one, e.ops1, e.st1, e.more1)
               /\ WrittenOk(e.two, e.ops2, e.st2, e.more2)
               /\ y.ops = Closed(x.ops)
               /\ z.ops = y.ops
               /\ e.two = e.one          \* writing is settled at once

\* one op sequence, several spellings: one canonical text, a fixed point
CanonOk(e) == /\ \A k \in 2..Len(e.src) : Closed(Read(e.src[k]).ops) = Closed(Read(e.src[1]).ops)
              /\ \A k \in 1..Len(e.src) : /\ Read(e.src[k]).clean
                                          /\ Closed(Read(e.src[k]).ops) = Read(e.one[k]).ops
                                          /\ e.one[k] = e.one[1]
                                          /\ e.two[k] = e.one[1]

\* no chunk structure: the same ops, terminators aside, and a fixed point
ReserOk(e) == /\ e.st = "OK"
              /\ Len(e.out) = Len(e.src)
              /\ \A k \in 1..Len(e.src) :
                   LET x == Read(e.src[k]).ops
                       y == Read(e.out[k])
                   IN  /\ y.clean
                       /\ Len(x) = Len(y.ops)
                       /\ \A j \in 1..Len(x) : /\ SubSeq(x[j], 1, 3) = SubSeq(y.ops[j], 1, 3)
                                               /\ y.ops[j][4] = IF j = Len(x) THEN 59 ELSE 44
              /\ e.again = e.out

\* the values of a frame under other ids
AmendOk(e) == LET x == Read(e.src).ops
                  n == Len(x)
                  ids[k \in 1..n] == IF k = 1 THEN e.id ELSE Inc(ids[k - 1])
              IN  /\ WrittenOk(e.out, e.ops, e.st, e.more)
                  /\ Len(e.ops) = n
                  /\ \A k \in 1..n :
                       /\ SameVals(x[k][3], e.ops[k][3])
                       /\ IF e.rename
                          THEN e.ops[k][1] = ids[k] /\ e.ops[k][2] = (IF k = 1 THEN e.ref ELSE ids[k - 1])
                          ELSE e.ops[k][1] = x[k][1] /\ e.ops[k][2] = x[k][2]

EqVal(a, b) == a[1] = b[1] /\ a = b
EqOp(a, b) == /\ a[1] = b[1] /\ a[2] = b[2] /\ Len(a[3]) = Len(b[3])
              /\ \A k \in 1..Len(a[3]) : EqVal(a[3][k], b[3][k])
CmpOk(e) == LET a == Plain(Read(e.a).ops)
                b == Plain(Read(e.b).ops)
                eq == Len(a) = Len(b) /\ \A k \in 1..Len(a) : EqOp(a[k], b[k])
            IN  /\ (e.st = "OK") = eq
                /\ (e.st2 = "OK") = eq

SplitOk(e) == LET x == ReadStream(e.src)
                  ps == [k \in 1..Len(e.parts) |-> Read(e.parts[k])]
                  full == SelectSeq(ps, LAMBDA p : p.ops # <<>>)
                  want == SelectSeq(x.frames, LAMBDA f : f # <<>>)
              IN  x.clean => /\ e.st = "OK"
                             /\ \A k \in 1..Len(ps) : ps[k].clean
                             /\ [k \in 1..Len(full) |-> full[k].ops] = want

StrOk(e) == LET strs == FoldLeft(LAMBDA a, o : a \o SelectSeq(o[3], LAMBDA v : v[1] = "s"), <<>>, Read(e.src).ops)
            IN  /\ Len(strs) = Len(e.u8) /\ Len(strs) = Len(e.u16)
                /\ \A k \in 1..Len(strs) : e.u8[k] = Utf8S(strs[k][2]) /\ e.u16[k] = Utf16S(strs[k][2])

EncOk(e) == \A k \in 1..Len(e.cps) :
              LET c == e.cps[k] IN
              /\ e.u8[k] = Utf8(c) /\ e.u16[k] = Utf16(c)
              /\ e.b8[k] = c /\ e.b16[k] = c
              /\ e.n8[k] = Len(Utf8(c)) /\ e.n16[k] = Len(Utf16(c))

Utf8Ok(e) == LET x == DecodeUtf8(e.src) IN
             IF x.lax THEN TRUE
             ELSE /\ (e.st = "OK") = x.ok
                  /\ x.ok => e.cps = x.cps /\ e.raw = x.cps
                  /\ ~x.ok => /\ e.raw # <<>> /\ e.raw[Len(e.raw)] = 0
                              /\ IsPrefix(SubSeq(e.raw, 1, Len(e.raw) - 1), x.cps)

\* UTF-16 units back to code points
RECURSIVE Dec16(_, _)
Dec16(u, k) ==
  IF k > Len(u) THEN <<>>
  ELSE IF u[k] < 55296 \/ u[k] >= 57344 THEN <<u[k]>> \o Dec16(u, k + 1)
  ELSE IF u[k] < 56320 /\ k < Len(u) /\ u[k + 1] >= 56320 /\ u[k + 1] < 57344
       THEN <<65536 + (u[k] - 55296) * 1024 + (u[k + 1] - 56320)>> \o Dec16(u, k + 2)
  ELSE <<0>>
Utf16Ok(e) == e.cps = Dec16(e.src, 1) /\ e.in

Allowed(e) ==
    /\ e.st # "CRASH"
    /\ CASE e.op = "read"  -> ReadingOk(e.src, e.ops, e.st, e.more)
         [] e.op = "wr"    -> WrOk(e)
         [] e.op = "rt"    -> RtOk(e)
         [] e.op = "canon" -> CanonOk(e)
         [] e.op = "reser" -> ReserOk(e)
         [] e.op = "amend" -> AmendOk(e)
         [] e.op = "cmp"   -> CmpOk(e)
         [] e.op = "split" -> SplitOk(e)
         [] e.op = "str"   -> StrOk(e)
         [] e.op = "enc"   -> EncOk(e)
         [] e.op = "utf8"  -> Utf8Ok(e)
         [] e.op = "utf16" -> Utf16Ok(e)

Init == i \in 1..W
Next == /\ i <= Len(Trace)
        /\ IF Allowed(Trace[i]) THEN TRUE ELSE PrintT(<<"REJECTED", i>>)
        /\ i' = i + W
Spec == Init /\ [][Next]_i
Consumed == TLCGet("stats").distinct = Len(Trace) + W
=============================================================================
