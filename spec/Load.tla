-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* What importing the package does with the definition files shipped with  *)
(* it: EFT files, basis files, then child basis files are registered, each *)
(* kind in the order the file system happens to list it.  Also the table   *)
(* of shipped translators and matchers.  Property C24.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

(* the definitions a distribution may contain                              *)
EftDefs == "A" :> {"s1", "s2"} @@ "B" :> {"s1"} @@ "C" :> {}
BasisDefs ==
  << [ eft |-> "A", basis |-> "x", parent |-> "", sectors |-> "s1" :> {"p"} @@ "s2" :> {"q"} ],
     [ eft |-> "A", basis |-> "y", parent |-> "", sectors |-> "s2" :> {"p", "q"} ],
     [ eft |-> "B", basis |-> "x", parent |-> "", sectors |-> "s1" :> {"r"} ],
     [ eft |-> "A", basis |-> "z", parent |-> "x", sectors |-> "s2" :> {"r"} ],
     [ eft |-> "A", basis |-> "u", parent |-> "y", sectors |-> "s1" :> {"r"} ],
     [ eft |-> "B", basis |-> "z", parent |-> "x", sectors |-> << >> ],
     (* definitions without any sectors                                     *)
     [ eft |-> "C", basis |-> "y", parent |-> "", sectors |-> << >> ] >>
IsChild(i) == BasisDefs[i].parent # ""
Lookup(S, e, b) == { i \in S : BasisDefs[i].eft = e /\ BasisDefs[i].basis = b }
(* a consistent distribution: the parent of a child is among the bases     *)
Consistent(E, S) == \A i \in S : IsChild(i) =>
                       \E j \in S : ~IsChild(j) /\ BasisDefs[j].eft = BasisDefs[i].eft
                                   /\ BasisDefs[j].basis = BasisDefs[i].parent

Merge(p, c) == [ s \in DOMAIN p \cup DOMAIN c |-> IF s \in DOMAIN c THEN c[s] ELSE p[s] ]

VARIABLES E, S, phase, todoE, todoS, efts, bases
vars == <<E, S, phase, todoE, todoS, efts, bases>>

Init == /\ E \in SUBSET DOMAIN EftDefs
        /\ S \in SUBSET (1..Len(BasisDefs)) /\ Consistent(E, S)
        /\ phase = "efts" /\ todoE = E /\ todoS = S
        /\ efts = << >> /\ bases = << >>

LoadEft == /\ phase = "efts"
           /\ \E e \in todoE : /\ efts' = (e :> EftDefs[e]) @@ efts
                               /\ todoE' = todoE \ {e}
           /\ UNCHANGED <<E, S, phase, todoS, bases>>
ToBases == phase = "efts" /\ todoE = {} /\ phase' = "bases" /\ UNCHANGED <<E, S, todoE, todoS, efts, bases>>
LoadBasis == /\ phase = "bases"
             /\ \E i \in todoS : /\ ~IsChild(i)
                                 /\ bases' = (<<BasisDefs[i].eft, BasisDefs[i].basis>> :> BasisDefs[i].sectors) @@ bases
                                 /\ todoS' = todoS \ {i}
             /\ UNCHANGED <<E, S, phase, todoE, efts>>
ToChildren == /\ phase = "bases" /\ \A i \in todoS : IsChild(i)
              /\ phase' = "children" /\ UNCHANGED <<E, S, todoE, todoS, efts, bases>>
LoadChild == /\ phase = "children"
             /\ \E i \in todoS :
                  /\ <<BasisDefs[i].eft, BasisDefs[i].parent>> \in DOMAIN bases
                  /\ bases' = (<<BasisDefs[i].eft, BasisDefs[i].basis>> :>
                                Merge(bases[<<BasisDefs[i].eft, BasisDefs[i].parent>>], BasisDefs[i].sectors)) @@ bases
                  /\ todoS' = todoS \ {i}
             /\ UNCHANGED <<E, S, phase, todoE, efts>>
Done == phase = "children" /\ todoS = {} /\ phase' = "done" /\ UNCHANGED <<E, S, todoE, todoS, efts, bases>>
Next == LoadEft \/ ToBases \/ LoadBasis \/ ToChildren \/ LoadChild \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Key(i) == <<BasisDefs[i].eft, BasisDefs[i].basis>>
Full(i) == IF ~IsChild(i) THEN BasisDefs[i].sectors
           ELSE LET j == CHOOSE j \in Lookup(S, BasisDefs[i].eft, BasisDefs[i].parent) : TRUE
                IN  Merge(BasisDefs[j].sectors, BasisDefs[i].sectors)
(* no order of loading gets stuck or gives another result                  *)
NeverStuck == phase = "children" => \A i \in todoS : <<BasisDefs[i].eft, BasisDefs[i].parent>> \in DOMAIN bases
AllThere == phase = "done" =>
              /\ DOMAIN efts = E /\ \A e \in E : efts[e] = EftDefs[e]
              /\ DOMAIN bases = { Key(i) : i \in S }
              /\ \A i \in S : bases[Key(i)] = Full(i)
Monotone == [][DOMAIN efts \subseteq DOMAIN efts' /\ DOMAIN bases \subseteq DOMAIN bases']_vars

-----------------------------------------------------------------------------
(* the shipped conversions                                                 *)
T(e, a, b) == [ kind |-> "translator", eft |-> e, from |-> a, to |-> b, target |-> e ]
M(e, a, f, b) == [ kind |-> "matcher", eft |-> e, from |-> a, to |-> b, target |-> f ]
Flavours == {"WET", "WET-4", "WET-3"}
Shipped ==
  { T("SMEFT", "Warsaw", "Warsaw mass"), T("SMEFT", "Warsaw", "Warsaw up"), T("SMEFT", "Warsaw up", "Warsaw") }
  \cup { T(e, x[1], x[2]) : e \in Flavours,
         x \in { <<"JMS", "flavio">>, <<"JMS", "Bern">>, <<"Bern", "flavio">>, <<"flavio", "Bern">> } }
  \cup { T("WET", x[1], x[2]) : x \in { <<"JMS", "EOS">>, <<"JMS", "formflavor">>, <<"JMS", "FlavorKit">>,
                                         <<"FlavorKit", "JMS">>, <<"FlavorKit", "flavio">> } }
  \cup { M("SMEFT", "Warsaw", "WET", b) : b \in {"JMS", "flavio", "EOS", "Bern"} }
  \cup { M("SMEFT", "Warsaw up", "WET", "JMS") }
  \cup { M(x[1], b, x[2], b) : x \in { <<"WET", "WET-4">>, <<"WET-4", "WET-3">> }, b \in {"flavio", "Bern", "JMS"} }
  \cup { M("WET-3", "JMS", "WET-2", "JMS") }
(* inside one EFT every basis reachable by a chain has one target only once *)
Functional == \A x, y \in Shipped : (x.kind = y.kind /\ x.eft = y.eft /\ x.from = y.from
                                     /\ x.to = y.to /\ x.target = y.target) => x = y

SecList(f) == { [ s |-> s, c |-> f[s] ] : s \in DOMAIN f }
Emit == phase = "done" => CSVWrite("%1$s", << ToJson(
  [ efts |-> { [ eft |-> e, sectors |-> efts[e] ] : e \in E },
    files |-> { [ eft |-> BasisDefs[i].eft, basis |-> BasisDefs[i].basis, parent |-> BasisDefs[i].parent,
                  sectors |-> SecList(BasisDefs[i].sectors), full |-> SecList(bases[Key(i)]) ] : i \in S },
    shipped |-> IF E = {} /\ S = {} THEN Shipped ELSE {} ]) >>, IOEnv.OUT)
=============================================================================
