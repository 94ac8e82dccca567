------------------------------ MODULE ConvTwin ------------------------------
(***************************************************************************)
(* One object, converted again and again along one edge while the user     *)
(* changes one parameter after the other of one mapping, and at last       *)
(* without parameters (C09).  Conversions that remember anything but all   *)
(* of the parameters they depend on show here.                             *)
(***************************************************************************)
EXTENDS Conv
VARIABLE edge
TInit == Init /\ edge = << >>
Done(k) == Len(objs) = 1 + k
TNext == \/ /\ objs = << >>
            /\ \E e \in Edges : edge' = e /\ Make(e[1], "many")
         \/ /\ objs # << >> /\ UNCHANGED edge
            /\ \/ Done(ver["m3"]) /\ Convert(1, edge, "m3")
               \/ Done(ver["m3"] + 1) /\ Touch("m3")
               \/ Done(MaxVer + 1) /\ ver["m3"] = MaxVer /\ Convert(1, edge, "none")
TSpec == TInit /\ [][TNext]_<< vars, edge >>
(* all results differ in their provenance, and all come from the object    *)
Distinct == \A i, j \in DOMAIN objs : i # j => objs[i].prov # objs[j].prov
TEmit == TLCGet("level") > 1 => CSVWrite("%1$s", << ToJson([ lvl |-> TLCGet("level"), edge |-> edge, last |-> last, ver |-> ver,
            prov |-> IF last[1] \in { "make", "convert" } THEN objs[Len(objs)].prov ELSE << >>,
            out |-> [ of |-> << >>, how |-> "" ] ]) >>, IOEnv.OUT)
=============================================================================
