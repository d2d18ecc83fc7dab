------------------------------ MODULE TextGen -------------------------------
(* The reader of Text as a transition system: bytes of Alphabet arrive one by
   one after Prefix, up to Depth of them. TLC checks what every history of
   readings has to satisfy, and prints every text for the real reader.
   A refused text is printed but not continued: what follows cannot matter.  *)
EXTENDS Text, Json
CONSTANTS Scope, Depth
\* <<prefix, alphabet>> as ASCII codes:
\*   spec  '' then bytes of '@:A1 +,;.\n/%~'
\*   ids   '' then bytes of '@:A ;+'
\*   num   '@1 ' then bytes of '0159+-.eE ;=^>'
\*   str   "@1 '" then bytes of "'\\unb0D/\n;\x00\x7fÃ©â\x82ð\x9f"
\*   span  '@1 :2 ' then bytes of "()'0123a ,;"
\*   two   "@1A+B :1A ('ab')," then bytes of "@:A ;+,'"
Conf(x) ==
  CASE Scope = "spec" -> <<<<>>, {10, 32, 37, 43, 44, 46, 47, 49, 58, 59, 64, 65, 126}>>
    [] Scope = "ids" -> <<<<>>, {32, 43, 58, 59, 64, 65}>>
    [] Scope = "num" -> <<<<64, 49, 32>>, {32, 43, 45, 46, 48, 49, 53, 57, 59, 61, 62, 69, 94, 101}>>
    [] Scope = "str" -> <<<<64, 49, 32, 39>>, {0, 10, 39, 47, 48, 59, 68, 92, 98, 110, 117, 127, 130, 159, 169, 195, 226, 240}>>
    [] Scope = "span" -> <<<<64, 49, 32, 58, 50, 32>>, {32, 39, 40, 41, 44, 48, 49, 50, 51, 59, 97}>>
    [] Scope = "two" -> <<<<64, 49, 65, 43, 66, 32, 58, 49, 65, 32, 40, 39, 97, 98, 39, 41, 44>>, {32, 39, 43, 44, 58, 59, 64, 65}>>
Prefix == Conf(0)[1]
Alphabet == Conf(0)[2]
VARIABLES bytes, r

Init == bytes = Prefix /\ r = Run(Prefix)
Next == \E b \in Alphabet :
          /\ Len(bytes) < Len(Prefix) + Depth
          /\ r.m # "BAD"
          /\ bytes' = Append(bytes, b)
          /\ r' = Step(r, b)
Spec == Init /\ [][Next]_<<bytes, r>>

\* a text, once read, is never reread: operations only follow
Monotone == [][IsPrefix(r.ops, r'.ops)]_<<bytes, r>>
\* operations appear with a terminator only, the last carries it
OnTerm == [][r'.ops # r.ops => IsTerm(bytes'[Len(bytes')]) /\ r'.ops[Len(r'.ops)][4] = bytes'[Len(bytes')]]_<<bytes, r>>
\* the machine is the same as the function
Same == r = Run(bytes)
\* between operations nothing is pending
Fresh == r.m = "S" => r.vals = <<>> /\ r.tok = <<>> /\ r.cps = <<>>

Emitted == PrintT(<<"CASE", ToJson(bytes)>>)
=============================================================================
