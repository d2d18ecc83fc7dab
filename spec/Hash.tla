-------------------------------- MODULE Hash --------------------------------
(* Hash texts and matching by known bits; what following a chain tells of an *)
(* event. The hash function itself is an uninterpreted injection: see        *)
(* FaithfulHash, which a table of recorded hashes has to satisfy.            *)
EXTENDS Integers, Sequences, FiniteSets
I == INSTANCE Ids

HexDigit(c) == CASE c >= 48 /\ c <= 57  -> c - 48
                 [] c >= 65 /\ c <= 70  -> c - 55
                 [] c >= 97 /\ c <= 102 -> c - 87
                 [] OTHER               -> 0 - 1
Digit(how, c) == IF how = "h" THEN HexDigit(c) ELSE I!DigitOf(c)
Width(how) == IF how = "h" THEN 4 ELSE 6
Full == 256

POW2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
\* the bits a text spells, first one first; <<>> if it has a foreign character
ParseHash(how, t) ==
  LET w == Width(how)
      n == Len(t) * w
      ds == [k \in 1..Len(t) |-> Digit(how, t[k])]
      bits == [k \in 1..(IF n > Full THEN Full ELSE n) |->
                 (ds[((k - 1) \div w) + 1] \div POW2[w - ((k - 1) % w)]) % 2]
  IN  IF \E k \in 1..Len(t) : ds[k] < 0 THEN <<>> ELSE bits
\* bits of a byte string
Bits(bytes, n) == [k \in 1..n |-> (bytes[((k - 1) \div 8) + 1] \div POW2[8 - ((k - 1) % 8)]) % 2]
\* how much of a hash a text can tell without inventing anything
Tellable(how, n) == IF n = Full THEN Full ELSE n - (n % Width(how))
Prefix(a, n) == SubSeq(a, 1, n)
Matches(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN Prefix(a, n) = Prefix(b, n)
ValidText(t) == /\ Len(t) = 43
                /\ \A k \in 1..43 : I!DigitOf(t[k]) >= 0
                /\ I!DigitOf(t[43]) % 4 = 0

(* --------------------------- event metadata ----------------------------- *)
\* ops: sequence of [id, ref, vals], a causally closed history; an event is a
\* root (its ref is a data type) or continues what its ref belongs to
IsName(u) == u[2][1] = 0
IsEvent(u) == u[2][1] = 2
RECURSIVE Metas(_, _, _)
Metas(ops, k, acc) ==
  IF k > Len(ops) THEN acc
  ELSE LET o == ops[k]
           yarn == {j \in 1..(k - 1) : ops[j].id[2] = o.id[2]}
           last == IF yarn = {} THEN 0 ELSE CHOOSE j \in yarn : \A x \in yarn : x <= j
           prev == IF last = 0 THEN <<0, I!ZeroD>> ELSE ops[last].id[1]
           root == IsName(o.ref)
           at == IF root THEN 0 ELSE CHOOSE j \in 1..(k - 1) : ops[j].id = o.ref
           m == [object |-> IF root THEN o.id ELSE acc[at].object,
                 rdt    |-> IF root THEN o.ref ELSE acc[at].rdt,
                 prev   |-> prev,
                 last   |-> last,
                 at     |-> at,
                 chain  |-> IF root \/ at # last THEN o.id[1] ELSE acc[last].chain]
       IN  Metas(ops, k + 1, Append(acc, m))

\* equal events have equal hashes, different ones have different hashes
FaithfulHash(table) == /\ Cardinality({table[k].k : k \in 1..Len(table)}) = Cardinality({<<table[k].k, table[k].h>> : k \in 1..Len(table)})
                       /\ Cardinality({table[k].h : k \in 1..Len(table)}) = Cardinality({<<table[k].k, table[k].h>> : k \in 1..Len(table)})
=============================================================================
