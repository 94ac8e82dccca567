-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Histories of conversions (C09).  The user holds objects and             *)
(* parameter mappings, converts, inspects and modifies them in any order.  *)
(* An object's content is its provenance: the conversions and the contents *)
(* of the mappings at that time that led to it, nothing else.  An object   *)
(* can also be exported (EOS parameters, SMEFTsim card, other format); the *)
(* export belongs to the user and is a function of the provenance, too. No *)
(* action on one thing changes another, a mapping or a registry.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Nd(e, b) == << e, b >>
Wilson == { "WET", "WET-4", "WET-3" }
Ed(a, b) == << a, b >>
Edges ==
  { Ed(Nd("SMEFT", "Warsaw"), Nd("SMEFT", "Warsaw up")), Ed(Nd("SMEFT", "Warsaw up"), Nd("SMEFT", "Warsaw")),
    Ed(Nd("SMEFT", "Warsaw"), Nd("SMEFT", "Warsaw mass")), Ed(Nd("SMEFT", "Warsaw up"), Nd("WET", "JMS")) }
  \cup { Ed(Nd("SMEFT", "Warsaw"), Nd("WET", b)) : b \in { "JMS", "flavio", "EOS", "Bern" } }
  \cup { Ed(Nd(w, x[1]), Nd(w, x[2])) : w \in Wilson,
         x \in { << "JMS", "flavio" >>, << "JMS", "Bern" >>, << "Bern", "flavio" >>, << "flavio", "Bern" >> } }
  \cup { Ed(Nd("WET", x[1]), Nd("WET", x[2])) :
         x \in { << "JMS", "EOS" >>, << "JMS", "formflavor" >>, << "JMS", "FlavorKit" >>, << "FlavorKit", "JMS" >>, << "FlavorKit", "flavio" >> } }
  \cup { Ed(Nd(x[1], b), Nd(x[2], b)) : b \in { "JMS", "flavio", "Bern" }, x \in { << "WET", "WET-4" >>, << "WET-4", "WET-3" >> } }
  \cup { Ed(Nd("WET-3", "JMS"), Nd("WET-2", "JMS")) }
Starts == { Nd("SMEFT", "Warsaw"), Nd("SMEFT", "Warsaw up"), Nd("WET", "JMS"), Nd("WET", "Bern"), Nd("WET", "flavio"),
            Nd("WET", "FlavorKit"), Nd("WET-4", "JMS"), Nd("WET-3", "Bern"), Nd("WET-4", "flavio"),
            Nd("WET", "EOS"), Nd("SMEFT", "Warsaw mass") }
(* contents of the first objects: many coefficients, few, none             *)
Contents == { "many", "few", "none" }
CONSTANTS MaxObjs, MaxDepth, NStart, MaxVer, MaxOuts, Kinds
(* parameters: none, or the user's mapping m in its version ver[m]         *)
Pars == { "none", "m1", "m2" }
Looks == { "dump", "yaml", "validate", "text", "numbers", "names", "translators", "definition", "detour" }
(* ("detour": the user defines the object's basis differently, tries       *)
(* conversions, which may fail, and defines it as it was before)           *)
(* what can be made of an object outside of the package                    *)
Exports(n) == { "json", "yaml" } \cup (IF n = Nd("WET", "EOS") THEN { "eos" } ELSE {})
              \cup (IF n = Nd("SMEFT", "Warsaw mass") THEN { "cardA", "cardB" } ELSE {})

Pokes == { "values", "nested", "dict", "extra" }
VARIABLES objs, ver, outs, last
vars == << objs, ver, outs, last >>
Obj(node, prov) == [ node |-> node, prov |-> prov, own |-> TRUE ]
Init == /\ objs = << >>
        /\ ver = [ m \in { "m1", "m2", "m3" } |-> 0 ] /\ outs = << >> /\ last = << "none" >>
(* the user makes objects of their own at any time                         *)
Made == Cardinality({ i \in DOMAIN objs : Len(objs[i].prov) = 1 })
Make(n, c) == /\ Made < NStart /\ Len(objs) < MaxObjs
              /\ objs' = Append(objs, Obj(n, << << "start", n, c >> >>))
              /\ last' = << "make", n, c >> /\ UNCHANGED << ver, outs >>
Par(p) == IF p = "none" THEN << "none", 0 >> ELSE << p, ver[p] >>
(* an object the user has modified is not used any further                 *)
Convert(i, e, p) == /\ i <= Len(objs) /\ Len(objs) < MaxObjs /\ objs[i].own /\ objs[i].node = e[1]
                    /\ Len(objs[i].prov) <= MaxDepth
                    /\ objs' = Append(objs, Obj(e[2], Append(objs[i].prov, << e[2], Par(p) >>)))
                    /\ last' = << "convert", i, e[2], p >> /\ UNCHANGED << ver, outs >>
Look(i, how) == i <= Len(objs) /\ objs[i].own /\ last' = << "look", i, how >> /\ UNCHANGED << objs, ver, outs >>
Poke(i, how) == /\ i <= Len(objs) /\ objs[i].own /\ objs' = [ objs EXCEPT ![i].own = FALSE ]
                /\ last' = << "poke", i, how >> /\ UNCHANGED << ver, outs >>
Export(i, how) == /\ i <= Len(objs) /\ objs[i].own /\ how \in Exports(objs[i].node) /\ Len(outs) < MaxOuts
                  /\ outs' = Append(outs, [ of |-> objs[i].prov, how |-> how, own |-> TRUE ])
                  /\ last' = << "export", i, how >> /\ UNCHANGED << objs, ver >>
(* the user may do with an export what they like                           *)
Spoil(k) == /\ k <= Len(outs) /\ outs[k].own /\ outs' = [ outs EXCEPT ![k].own = FALSE ]
            /\ last' = << "spoil", k >> /\ UNCHANGED << objs, ver >>
Touch(m) == ver[m] < MaxVer /\ ver' = [ ver EXCEPT ![m] = @ + 1 ] /\ last' = << "touch", m >> /\ UNCHANGED << objs, outs >>
Acts == ({ "make" } \X { 0 } \X Starts \X Contents) \cup ({ "convert" } \X (1..MaxObjs) \X Edges \X Pars) \cup ({ "look" } \X (1..MaxObjs) \X Looks \X { 0 })
        \cup ({ "export" } \X (1..MaxObjs) \X { "json", "yaml", "eos", "cardA", "cardB" } \X { 0 })
        \cup ({ "spoil" } \X (1..MaxOuts) \X { 0 } \X { 0 })
        \cup ({ "poke" } \X (1..MaxObjs) \X Pokes \X { 0 }) \cup ({ "touch" } \X { 0 } \X { "m1", "m2" } \X { 0 })
Do(a) == CASE a[1] = "make" -> Make(a[3], a[4]) [] a[1] = "convert" -> Convert(a[2], a[3], a[4]) [] a[1] = "look" -> Look(a[2], a[3])
           [] a[1] = "export" -> Export(a[2], a[3]) [] a[1] = "spoil" -> Spoil(a[2])
           [] a[1] = "poke" -> Poke(a[2], a[3]) [] a[1] = "touch" -> Touch(a[3])
Next == \E a \in { x \in Acts : x[1] \in Kinds } : Do(a)
Spec == Init /\ [][Next]_vars

(* what was done last is no part of the state *)
View == << objs, ver, outs >>
(* no object's content ever changes, except that of one the user modifies  *)
Kept == [][ \A i \in DOMAIN objs : i \in DOMAIN objs' /\ objs'[i].prov = objs[i].prov /\ objs'[i].node = objs[i].node
                                   /\ (objs'[i].own # objs[i].own => last' = << "poke", i, last'[3] >>) ]_vars
(* nor that of an export                                                   *)
KeptOuts == [][ \A k \in DOMAIN outs : k \in DOMAIN outs' /\ outs'[k].of = outs[k].of /\ outs'[k].how = outs[k].how
                                       /\ (outs'[k].own # outs[k].own => last' = << "spoil", k >>) ]_vars
(* equal provenance is equal content: no dependence on the rest of history *)
Memoryless == \A i, j \in DOMAIN objs : objs[i].prov = objs[j].prov => objs[i].node = objs[j].node
WellFormed == \A i \in DOMAIN objs : LET p == objs[i].prov IN
    /\ p[1][1] = "start" /\ p[1][3] \in Contents /\ p[Len(p)][IF Len(p) = 1 THEN 2 ELSE 1] = objs[i].node
    /\ \A k \in DOMAIN outs : outs[k].of[1][1] = "start"
    /\ \A k \in 2..Len(p) : Ed(IF k = 2 THEN p[1][2] ELSE p[k - 1][1], p[k][1]) \in Edges
Emit == TLCGet("level") > 1 => CSVWrite("%1$s", << ToJson([ lvl |-> TLCGet("level"), last |-> last, ver |-> ver,
            prov |-> IF last[1] \in { "make", "convert" } THEN objs[Len(objs)].prov ELSE << >>,
            out |-> IF last[1] = "export" THEN outs[Len(outs)] ELSE [ of |-> << >>, how |-> "" ] ]) >>, IOEnv.OUT)
=============================================================================
