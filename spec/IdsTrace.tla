------------------------------ MODULE IdsTrace ------------------------------
(* Checks recorded calls on ids, keys, forms, timestamps, hashes and stacks. *)
EXTENDS Ids, Json, IOUtils, TLC
H == INSTANCE Hash
S == INSTANCE Stack
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLE i

ParseOk(e) == e.id = Parse(e.text)
\* the text of an id is its one canonical text, and says the id
PrintOk(e) == /\ e.text = Print(e.id)
              /\ e.text2 = e.text /\ e.text3 = e.text
              /\ e.back = e.id /\ e.back2 = e.id
              /\ e.word = PrintWord(e.id[1])
CmpOk(e) == LET lt == IdLess(e.a, e.b)  gt == IdLess(e.b, e.a)
                vl == WordLess(e.a[1], e.b[1])  vg == WordLess(e.b[1], e.a[1])
            IN  /\ e.r[1] = lt /\ e.r[2] = ~gt /\ e.r[3] = gt /\ e.r[4] = ~lt
                /\ e.r[5] = (e.a = e.b) /\ e.r[6] = (e.a # e.b)
                /\ (e.a = e.b) => e.r[7]
                /\ e.r[8] = vl /\ e.r[9] = ~vg /\ e.r[10] = vg /\ e.r[11] = ~vl
                /\ e.r[12] = (e.a[1] = e.b[1]) /\ e.r[13] = (e.a[1] # e.b[1])
NextOk(e) == CanAdd(e.a, 1) /\ CanAdd(e.a, e.n) =>
               /\ e.inc = Plus(e.a, 1) /\ e.pp = Plus(e.a, 1) /\ e.wpp = Plus(e.a, 1)
               /\ e.incn = Plus(e.a, e.n) /\ e.plus = Plus(e.a, e.n)
               /\ e.back = e.a
VersOk(e) == /\ e.ev = WithVersion(e.a, 2) /\ e.ev2 = e.ev
             /\ e.de = WithVersion(e.a, 3) /\ e.de2 = e.de
             /\ e.version = e.a[2][1] /\ e.variety = e.a[1][1]
             /\ (e.a = ErrorId) => e.err
             /\ e.zero = (e.a[1] = <<0, ZeroD>>)

\* a key tells its event id and form, as does its byte image
KeyOk(e) == /\ e.form = e.f /\ e.id = KeyId(e.a, 2) /\ e.nid = KeyId(e.a, 0)
            /\ e.bform = e.f /\ e.bid = KeyId(e.a, 2) /\ e.same
            /\ (e.f < Len(FORMTEXT)) => e.img2 = e.img
KeyCmpOk(e) == LET lt == KeyLess(e.a, e.f, e.b, e.g)
                   gt == KeyLess(e.b, e.g, e.a, e.f)
                   eq == KeyEq(e.a, e.f, e.b, e.g)
               IN  /\ e.r[1] = lt /\ e.r[2] = gt /\ e.r[3] = eq /\ e.r[4] = ~eq
                   /\ e.r[5] = lt /\ e.r[6] = gt
FormOk(e) == /\ e.id = FormId(e.f)
             /\ (e.f < Len(FORMTEXT) \/ e.f = ErrorForm) => e.back = e.f
             /\ (e.f < Len(FORMTEXT)) => e.text = FORMTEXT[e.f + 1]
FormOfOk(e) == e.f = FormOf(e.a)
TimeOk(e) == e.w = <<0, Stamp(e.days, e.sec, e.tick)>>

HashOk(e) == LET b == H!ParseHash(e.how, e.text)
                 n == Len(b)
             IN  /\ e.known = n /\ e.defined = (n > 0)
                 /\ H!Bits(e.bytes, n) = b
                 /\ \A k \in {1, 2} :
                      LET how == <<"h", "b">>[k]
                          m == H!Tellable(how, n)
                          t == <<e.hex, e.b64>>[k]
                          back == <<e.hexback, e.b64back>>[k]
                      IN  /\ H!ParseHash(how, t) = SubSeq(b, 1, m)
                          /\ back[1] = m
                          /\ H!Bits(back[2], m) = SubSeq(b, 1, m)
                          /\ (n = 256 /\ how = "b") => H!ValidText(t)
                 /\ (e.how = "b") => e.valid = H!ValidText(e.text)
MatchOk(e) == LET x == H!ParseHash(e.how, e.text)
                  y == H!ParseHash(e.how2, e.text2)
              IN  e.r[1] = H!Matches(x, y) /\ e.r[2] = H!Matches(x, y)

\* what following a chain tells of every event
WalkOk(e) ==
  LET ms == H!Metas(e.ops, 1, <<>>) IN
  /\ Len(e.out) = Len(e.ops)
  /\ \A k \in 1..Len(e.ops) :
       LET o == e.out[k]  m == ms[k] IN
       /\ o.st = "OK"
       /\ o.at = e.ops[k].id /\ o.id = e.ops[k].id
       /\ o.object = m.object /\ o.rdt = m.rdt
       /\ o.prev = m.prev /\ o.chain = m.chain
       /\ o.head = (m.chain = o.id[1])
       /\ o.chainid = <<m.chain, e.ops[k].id[2]>>
       /\ o.next = (m.last # 0 /\ m.at = m.last)
       /\ ~o.check
       /\ o.hash = o.hash2 /\ o.hash3 = o.hash
       /\ m.last # 0 => o.prevhash = e.out[m.last].hash
       /\ m.at # 0 => o.refhash = e.out[m.at].hash

StackOk(e) ==
  LET upto[k \in 0..Len(e.steps)] ==
        IF k = 0 THEN <<>>
        ELSE LET x == e.steps[k]  s == upto[k - 1]
             IN  CASE x.a = "push" -> S!Push(s, x.v)
                   [] x.a = "pop" -> S!Pop(s)
                   [] x.a = "run" -> s \o [j \in 1..x.n |-> S!Succ(x.v, j - 1)]
                   [] x.a = "cut" -> SubSeq(s, 1, Len(s) - x.n)
                   [] OTHER -> s
  IN  \A k \in 1..Len(e.steps) :
        LET x == e.steps[k]  s == upto[k]  n == Len(s) IN
        CASE x.a = "look" -> /\ x.size = n /\ x.empty = (n = 0)
                             /\ n > 0 => x.front = s[1] /\ x.back = s[n]
                             /\ x.all = s
          [] x.a = "ends" -> /\ x.size = n /\ x.empty = (n = 0)
                             /\ n > 0 => x.front = s[1] /\ x.back = s[n]
          [] x.a = "at" -> IF x.k < n THEN ~x.end /\ x.v = s[x.k + 1] ELSE x.end
          [] x.a = "skip" ->
               LET at[j \in 1..(Len(x.w) + 1)] == IF j = 1 THEN x.k + 1 ELSE at[j - 1] + x.w[j - 1].n
               IN  /\ at[Len(x.w) + 1] = n + 1
                   /\ \A j \in 1..Len(x.w) : /\ x.w[j].n \in 1..x.max
                                             /\ at[j] <= n
                                             /\ x.w[j].v = s[at[j]]
                                             /\ S!Skippable(s, at[j], x.w[j].n)
          [] OTHER -> TRUE

Ok(e) == IF e.st = "CRASH" THEN FALSE
         ELSE CASE e.op = "parse" -> ParseOk(e)
                [] e.op = "print" -> PrintOk(e)
                [] e.op = "cmp" -> CmpOk(e)
                [] e.op = "next" -> NextOk(e)
                [] e.op = "vers" -> VersOk(e)
                [] e.op = "key" -> KeyOk(e)
                [] e.op = "keycmp" -> KeyCmpOk(e)
                [] e.op = "form" -> FormOk(e)
                [] e.op = "formof" -> FormOfOk(e)
                [] e.op = "time" -> TimeOk(e)
                [] e.op = "hash" -> HashOk(e)
                [] e.op = "match" -> MatchOk(e)
                [] e.op = "walk" -> WalkOk(e)
                [] e.op = "table" -> H!FaithfulHash(e.items)
                [] e.op = "stack" -> StackOk(e)

N == Len(Trace)
Init == i \in 1..W
Next == /\ i <= N
        /\ IF Ok(Trace[i]) THEN TRUE ELSE PrintT(<<"REJECTED", i>>)
        /\ i' = i + W
Spec == Init /\ [][Next]_i
Consumed == TLCGet("stats").distinct = N + W
=============================================================================
