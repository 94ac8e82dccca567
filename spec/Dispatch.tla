------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Translating and matching Wilson coefficient objects through the         *)
(* registries of translators and matchers.  In every registry state the    *)
(* specification says, for every Wilson coefficient object and every       *)
(* target, whether a conversion exists, which function is called, with     *)
(* which numbers, and what object comes out.  Properties: C05 C08.         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, CSV, IOUtils

VARIABLES trans,  \* <<eft, from, to>> -> function
          match,  \* <<eft, from, eft2, to>> -> function
          last
vars == <<trans, match, last>>
view == <<trans, match>>

TransKeys == { <<"A", "x", "y">>, <<"A", "y", "x">>, <<"B", "x", "y">> }
MatchKeys == { <<"A", "x", "B", "x">>, <<"A", "y", "B", "x">>, <<"A", "x", "A", "y">> }
Functions == {"keep", "mix"}

(* numbers are named; "0" is zero, "0c" a complex zero                     *)
Numbers == {"0", "0c", "r", "n", "c", "i", "tiny"}
IsZero(v) == v \in {"0", "0c"}
NONE == [ x \in {} |-> "0" ]

(* the Wilson coefficient objects of the world                             *)
ValCat == << NONE, "p" :> "r", "p" :> "c" @@ "q" :> "0",
             "p" :> "0c" @@ "q" :> "i" @@ "r" :> "tiny", "q" :> "n" >>
Objs == { <<e, b, n>> : e \in {"A", "B"}, b \in {"x", "y"}, n \in 1..Len(ValCat) }

(* what the registered functions compute (before zeros are dropped)        *)
Apply(f, vals) ==
  CASE f = "keep" -> vals
    [] f = "mix"  -> LET g(c) == IF c \in DOMAIN vals THEN vals[c] ELSE "0"
                     IN  "m1" :> g("q") @@ "m2" :> g("p") @@ "z" :> "0"
DropZeros(vals) == [ c \in { d \in DOMAIN vals : ~IsZero(vals[d]) } |-> vals[c] ]

(* outcome of translating object o to basis b                              *)
Fail == [ ok |-> FALSE ]
Done(f, e, b, o) == [ ok |-> TRUE, fn |-> f, eft |-> e, basis |-> b,
                      given |-> ValCat[o[3]], values |-> DropZeros(Apply(f, ValCat[o[3]])) ]
Translate(o, b) == LET k == <<o[1], o[2], b>> IN
  IF k \in DOMAIN trans THEN Done(trans[k], o[1], b, o) ELSE Fail
Match(o, e, b) == LET k == <<o[1], o[2], e, b>> IN
  IF k \in DOMAIN match THEN Done(match[k], e, b, o) ELSE Fail

KnownTrans(e)   == { k \in DOMAIN trans : k[1] = e }
KnownFrom(e, b) == { k \in DOMAIN trans : k[1] = e /\ k[2] = b }
KnownTo(e, b)   == { k \in DOMAIN trans : k[1] = e /\ k[3] = b }

-----------------------------------------------------------------------------
Restrict(f, S) == [ x \in DOMAIN f \cap S |-> f[x] ]
Op(name, key, f, out) == [ op |-> name, key |-> key, fn |-> f, out |-> out ]
Init == trans = [ x \in {} |-> "" ] /\ match = [ x \in {} |-> "" ] /\ last = Op("init", <<>>, "", "ok")

DefTrans(k, f) == trans' = k :> f @@ trans /\ last' = Op("trans", k, f, "ok") /\ UNCHANGED match
(* a translator from a basis to itself is one like any other; to keep the  *)
(* world small it is there only while there are no matchers                *)
Self == <<"A", "x", "x">>
DefSelf(f) == DOMAIN match = {} /\ DefTrans(Self, f)
DefMatch(k, f) == /\ Self \notin DOMAIN trans
                  /\ match' = k :> f @@ match /\ last' = Op("match", k, f, "ok") /\ UNCHANGED trans
DelTrans(k) == /\ trans' = Restrict(trans, DOMAIN trans \ {k})
               /\ last' = Op("deltrans", k, "", IF k \in DOMAIN trans THEN "ok" ELSE "KeyError")
               /\ UNCHANGED match
DelMatch(k) == /\ match' = Restrict(match, DOMAIN match \ {k})
               /\ last' = Op("delmatch", k, "", IF k \in DOMAIN match THEN "ok" ELSE "KeyError")
               /\ UNCHANGED trans
Next == \/ \E k \in TransKeys : DelTrans(k) \/ \E f \in Functions : DefTrans(k, f)
        \/ DelTrans(Self) \/ \E f \in Functions : DefSelf(f)
        \/ \E k \in MatchKeys : DelMatch(k) \/ \E f \in Functions : DefMatch(k, f)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* design properties                                                       *)
TypeOK == DOMAIN trans \subseteq TransKeys \cup {Self} /\ DOMAIN match \subseteq MatchKeys
(* the target label is the requested one and no zero survives              *)
Labels == \A o \in Objs, b \in {"x", "y", "z"} :
            LET r == Translate(o, b) IN r.ok => /\ r.eft = o[1] /\ r.basis = b
                                                /\ \A c \in DOMAIN r.values : ~IsZero(r.values[c])
(* a conversion is offered exactly if it is listed                         *)
Listed == \A o \in Objs, b \in {"x", "y", "z"} :
            Translate(o, b).ok <=> <<o[1], o[2], b>> \in (KnownFrom(o[1], o[2]) \cap KnownTo(o[1], b))
Independent == [][ UNCHANGED trans \/ UNCHANGED match ]_vars

-----------------------------------------------------------------------------
RegJ(m) == { [ key |-> k, fn |-> m[k] ] : k \in DOMAIN m }
ObjJ(o) == [ eft |-> o[1], basis |-> o[2], vals |-> ValCat[o[3]] ]
ProjJ ==
  [ trans |-> RegJ(trans), match |-> RegJ(match),
    kt |-> { [ eft |-> e, all |-> KnownTrans(e),
               from |-> { [ b |-> b, k |-> KnownFrom(e, b) ] : b \in {"x", "y"} },
               to   |-> { [ b |-> b, k |-> KnownTo(e, b) ] : b \in {"x", "y"} } ] : e \in {"A", "B"} },
    tq |-> { [ obj |-> ObjJ(o), to |-> b, r |-> Translate(o, b) ] : o \in Objs, b \in {"x", "y", "z"} },
    mq |-> { [ obj |-> ObjJ(o), eft |-> eb[1], to |-> eb[2], r |-> Match(o, eb[1], eb[2]) ]
             : o \in Objs, eb \in { <<"B", "x">>, <<"A", "y">>, <<"B", "y">>, <<"Z", "x">> } } ]
Out == IOEnv.OUT
EmitState == CSVWrite("%1$s", <<ToJson([ t |-> "state", v |-> ProjJ ])>>, Out)
EmitStep  == CSVWrite("%1$s", <<ToJson([ t |-> "step", lvl |-> TLCGet("level"), act |-> last, v |-> ProjJ ])>>, Out)
EmitEdge  == CSVWrite("%1$s", <<ToJson([ t |-> "edge", trans |-> RegJ(trans), match |-> RegJ(match),
                 act |-> last', trans2 |-> RegJ(trans'), match2 |-> RegJ(match') ])>>, Out)
=============================================================================
