------------------------------ MODULE ConvPass ------------------------------
(***************************************************************************)
(* Objects that come and go (C09).  Along one conversion the user makes    *)
(* object after object of the same coefficients, which differ from each    *)
(* other as little as possible - other numbers, two numbers exchanged, one *)
(* number in its last digits, complex conjugates, a slightly different     *)
(* scale - converts it and keeps it or throws it away.  What is thrown     *)
(* away leaves nothing behind: its place in memory may be taken by the     *)
(* next one, and still every result belongs to its own object.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANT N
Variants == { "base", "other", "exchanged", "digits", "conjugate", "near", "nearer" }
Fates == { "keep", "drop" }
Pars == { "none", "m1" }
VARIABLES seq, cur, res, kept, par
vars == << seq, cur, res, kept, par >>
Init == seq = << >> /\ cur = "nothing" /\ res = << >> /\ kept = << >> /\ par \in Pars
Make(v) == cur = "nothing" /\ Len(seq) < N /\ cur' = v /\ UNCHANGED << seq, res, kept, par >>
Convert(f) == /\ cur # "nothing"
              /\ res' = Append(res, << cur, par >>)
              /\ seq' = Append(seq, << cur, f >>)
              /\ kept' = IF f = "keep" THEN Append(kept, cur) ELSE kept
              /\ cur' = "nothing" /\ UNCHANGED par
Next == \/ \E v \in Variants : Make(v)
        \/ \E f \in Fates : Convert(f)
Spec == Init /\ [][Next]_vars
(* a result is a function of its own object and the parameters             *)
OwnResult == /\ Len(res) = Len(seq)
             /\ \A i \in DOMAIN res : res[i] = << seq[i][1], par >>
KeptOnes == kept = [ i \in DOMAIN SelectSeq(seq, LAMBDA x : x[2] = "keep") |-> SelectSeq(seq, LAMBDA x : x[2] = "keep")[i][1] ]
Emit == Len(seq) = N => CSVWrite("%1$s", << ToJson([ seq |-> seq, par |-> par, res |-> res ]) >>, IOEnv.OUT)
=============================================================================
