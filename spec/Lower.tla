-------------------------------- MODULE Lower -------------------------------
(***************************************************************************)
(* Lowering the number of active flavours.  A Wilson coefficient object    *)
(* lives at a level (WET, WET-4, WET-3, WET-2) of a chain of EFTs in one   *)
(* basis; the bases at each level can be redefined at any time.  Matching  *)
(* one level down keeps what the target basis has at that moment.          *)
(* Property C15.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS Coefs, MaxRedefs
Levels == << "WET", "WET-4", "WET-3", "WET-2" >>
(* the chains for which matchers exist: how many steps down                *)
Steps == "JMS" :> 3 @@ "flavio" :> 2 @@ "Bern" :> 2

VARIABLES basis, level, have, reg, start, path, redefs, act
vars == <<basis, level, have, reg, start, path, redefs, act>>
view == <<basis, level, have, reg, start, path, redefs>>

None == [ op |-> "init", lvl |-> 0 ]
Init == /\ basis \in DOMAIN Steps
        /\ level = 1
        /\ have \in SUBSET Coefs
        /\ reg \in [ 2..4 -> SUBSET Coefs ]
        /\ (Steps[basis] < 3 => reg[4] = {})
        /\ start = have /\ path = {} /\ redefs = 0 /\ act = None

Match == /\ level <= Steps[basis]
         /\ have' = have \cap reg[level + 1]
         /\ path' = path \cup { <<level + 1, reg[level + 1]>> }
         /\ level' = level + 1
         /\ act' = [ op |-> "match", lvl |-> level + 1 ]
         /\ UNCHANGED <<basis, reg, start, redefs>>
Redefine(l, s) ==
            /\ redefs < MaxRedefs
            /\ l <= Steps[basis] + 1
            /\ s # reg[l]
            /\ reg' = [ reg EXCEPT ![l] = s ]
            /\ act' = [ op |-> "redefine", lvl |-> l ]
            /\ redefs' = redefs + 1
            /\ UNCHANGED <<basis, level, have, start, path>>
Next == Match \/ \E l \in 2..4 : \E s \in SUBSET Coefs : Redefine(l, s)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what is left are exactly the coefficients all bases on the way had      *)
Chain == have = { c \in start : \A x \in path : c \in x[2] }
NothingInvented == have \subseteq start
Shrinks == [][have' \subseteq have]_vars
OnlyMatchMoves == [][level' # level => (have' = have \cap reg[level'] /\ reg' = reg)]_vars

Step == [ lvl |-> TLCGet("level"), basis |-> basis, level |-> level, have |-> have,
          reg |-> << {}, reg[2], reg[3], reg[4] >>, act |-> act, start |-> start ]
EmitEdge == (act'.op = "match") =>
   CSVWrite("%1$s", << ToJson([ lvl |-> 2, basis |-> basis, level |-> level, have |-> have,
                                reg |-> << {}, reg[2], reg[3], reg[4] >>, after |-> have' ]) >>, IOEnv.OUT)
EmitSim == CSVWrite("%1$s", << ToJson(Step) >>, IOEnv.OUT)
=============================================================================
