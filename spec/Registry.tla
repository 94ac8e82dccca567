------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registries of EFTs and bases: definition files being registered,    *)
(* replaced, deleted and cleared, child bases inheriting sectors from a    *)
(* parent, and the questions one can ask in every state: which             *)
(* coefficients a basis has, which bases an EFT has, and whether a basis   *)
(* or a Wilson coefficient file is valid.                                  *)
(*                                                                         *)
(* A basis is abstracted to the map  sector -> set of coefficients.        *)
(* Properties decided here: C03 C04 C05 C06.                               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS
  Full           \* TRUE: the larger catalogue (thorough tier)

VARIABLES
  efts,   \* registered EFTs:  name -> set of sectors
  bases,  \* registered bases: <<eft, basis>> -> (sector -> set of coefficients)
  last    \* the last operation and its outcome (observation, not part of the view)

vars == <<efts, bases, last>>
view == <<efts, bases>>

-----------------------------------------------------------------------------
(* Small worlds                                                            *)
EftNames   == {"A", "B"}
BasisNames == {"x", "y"}
WcNames    == {"p", "q", "r"}

EftCat == [A |-> {{"s"}, {"s", "t"}, {"s", "t", "u"}}, B |-> {{"s", "t"}}]

M1(k1, v1)         == k1 :> v1
M2(k1, v1, k2, v2) == k1 :> v1 @@ k2 :> v2

(* catalogue of sector maps a definition file may contain                  *)
SecCat == { M1("s", {"p"}), M1("t", {"p", "q"}), M2("s", {"q"}, "u", {"r"}) }
          \cup IF Full THEN { M1("s", {}), M2("s", {"p", "r"}, "t", {}) } ELSE {}

Slots == { <<"A", "x">>, <<"A", "y">>, <<"B", "x">> }
SlotCat(k) == IF k[1] = "B" THEN { M1("s", {"p"}) } ELSE SecCat
(* parents a file may name: none (""), one of the names, an unknown one    *)
Parents(k) == IF k[1] = "B" THEN {"", "y"} ELSE {"", "x", "y", "w"}

-----------------------------------------------------------------------------
(* What the state means                                                    *)
Range(f) == { f[i] : i \in DOMAIN f }
AllWcs(k) == UNION Range(bases[k])
(* child entries replace the parent's sector by sector                     *)
Inherit(child, parent) == child @@ parent

BasisOK(k) ==  \* verdict of validating the basis registered at k
  /\ k[1] \in DOMAIN efts
  /\ DOMAIN bases[k] \subseteq efts[k[1]]
  /\ \A s, t \in DOMAIN bases[k] : s # t => bases[k][s] \cap bases[k][t] = {}

WcOK(e, b, K) ==  \* verdict of validating a Wilson coefficient file
  /\ e \in DOMAIN efts
  /\ <<e, b>> \in DOMAIN bases
  /\ K \subseteq AllWcs(<<e, b>>)

KnownBases(e) == { k[2] : k \in { kk \in DOMAIN bases : kk[1] = e } }

-----------------------------------------------------------------------------
Restrict(f, S) == [ x \in DOMAIN f \cap S |-> f[x] ]
Empty == [ x \in {} |-> {} ]
Op(name, eft, basis, parent, sec, out) ==
  [ op |-> name, eft |-> eft, basis |-> basis, parent |-> parent, sec |-> sec, out |-> out ]

Init == efts = Empty /\ bases = Empty /\ last = Op("init", "", "", "", Empty, "ok")

DefineEft(e, S) ==
  /\ efts' = e :> S @@ efts
  /\ last' = Op("eft", e, "", "", [ s \in S |-> {} ], "ok")
  /\ UNCHANGED bases

(* a basis without parent, or with a known one                             *)
DefineBasis(k, par, m) ==
  /\ par = "" \/ <<k[1], par>> \in DOMAIN bases
  /\ bases' = k :> (IF par = "" THEN m ELSE Inherit(m, bases[<<k[1], par>>])) @@ bases
  /\ last' = Op("basis", k[1], k[2], par, m, "ok")
  /\ UNCHANGED efts

(* a basis naming an unknown parent is refused and nothing changes         *)
RefuseBasis(k, par, m) ==
  /\ par # "" /\ <<k[1], par>> \notin DOMAIN bases
  /\ last' = Op("basis", k[1], k[2], par, m, "ValueError")
  /\ UNCHANGED <<efts, bases>>

DeleteEft(e) ==
  /\ IF e \in DOMAIN efts
       THEN efts' = Restrict(efts, DOMAIN efts \ {e}) /\ last' = Op("deleft", e, "", "", Empty, "ok")
       ELSE efts' = efts /\ last' = Op("deleft", e, "", "", Empty, "KeyError")
  /\ UNCHANGED bases

DeleteBasis(k) ==
  /\ IF k \in DOMAIN bases
       THEN bases' = Restrict(bases, DOMAIN bases \ {k}) /\ last' = Op("delbasis", k[1], k[2], "", Empty, "ok")
       ELSE bases' = bases /\ last' = Op("delbasis", k[1], k[2], "", Empty, "KeyError")
  /\ UNCHANGED efts

ClearEfts  == efts' = Empty /\ last' = Op("clearefts", "", "", "", Empty, "ok") /\ UNCHANGED bases
ClearBases == bases' = Empty /\ last' = Op("clearbases", "", "", "", Empty, "ok") /\ UNCHANGED efts

Next ==
  \/ \E e \in EftNames : \E S \in EftCat[e] : DefineEft(e, S)
  \/ \E k \in Slots : \E par \in Parents(k) : \E m \in SlotCat(k) :
        DefineBasis(k, par, m) \/ RefuseBasis(k, par, m)
  \/ \E e \in EftNames : DeleteEft(e)
  \/ \E k \in Slots : DeleteBasis(k)
  \/ ClearEfts \/ ClearBases

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design                                                *)
TypeOK ==
  /\ DOMAIN efts \subseteq EftNames
  /\ DOMAIN bases \subseteq Slots

(* C03: an accepted file has only coefficients somebody defined            *)
AcceptedIsDefined ==
  \A e \in EftNames, b \in BasisNames, K \in SUBSET WcNames :
    WcOK(e, b, K) => \A c \in K : \E s \in DOMAIN bases[<<e, b>>] : c \in bases[<<e, b>>][s]
(* ... acceptance is monotone: dropping coefficients keeps a file valid    *)
AcceptMonotone ==
  \A e \in EftNames, b \in BasisNames, K \in SUBSET WcNames :
    WcOK(e, b, K) => \A c \in K : WcOK(e, b, K \ {c})
(* C06: only the registered slot changes; in particular never the parent   *)
OnlyTheSlot ==
  [][ last'.op = "basis" =>
        \A k \in DOMAIN bases : k # <<last'.eft, last'.basis>> =>
           k \in DOMAIN bases' /\ bases'[k] = bases[k] ]_vars
(* C06: a child has every sector of its parent                             *)
ChildExtends ==
  [][ (last'.op = "basis" /\ last'.out = "ok" /\ last'.parent # "") =>
        LET p == bases[<<last'.eft, last'.parent>>]
            c == bases'[<<last'.eft, last'.basis>>]
        IN  /\ DOMAIN p \subseteq DOMAIN c
            /\ \A s \in DOMAIN last'.sec : c[s] = last'.sec[s]
            /\ \A s \in DOMAIN p \ DOMAIN last'.sec : c[s] = p[s] ]_vars
(* C05/C06: a refused operation changes nothing                            *)
RefusedIsNoop ==
  [][ last'.out # "ok" => UNCHANGED view ]_vars

-----------------------------------------------------------------------------
(* Observation: JSON rendering of a state and of a transition              *)
MapJ(m) == [ s \in DOMAIN m |-> m[s] ]
Key(k) == k[1] \o ":" \o k[2]
SetToMap(S, f(_)) == [ n \in { Key(k) : k \in S } |-> f(CHOOSE k \in S : Key(k) = n) ]
StateJ(ef, ba) == [ efts |-> ef, bases |-> SetToMap(DOMAIN ba, LAMBDA k : MapJ(ba[k])) ]

KeyOf(e, b) == e \o ":" \o b
ProjJ ==
  [ state  |-> StateJ(efts, bases),
    valid  |-> SetToMap(DOMAIN bases, BasisOK),
    known  |-> [ e \in DOMAIN efts |-> KnownBases(e) ],
    \* per slot: the maximal acceptable coefficient set, absent = nothing acceptable
    accept |-> SetToMap({ k \in DOMAIN bases : k[1] \in DOMAIN efts }, AllWcs),
    wcs    |-> SetToMap(DOMAIN bases, AllWcs) ]

Out == IOEnv.OUT
EmitState == CSVWrite("%1$s", <<ToJson([ t |-> "state", v |-> ProjJ ])>>, Out)
(* behaviours (simulation): one line per step, a new behaviour starts with op = "init" *)
EmitStep  == CSVWrite("%1$s", <<ToJson([ t |-> "step", lvl |-> TLCGet("level"), act |-> last, v |-> ProjJ ])>>, Out)
EmitEdge  == CSVWrite("%1$s", <<ToJson([ t |-> "edge", from |-> StateJ(efts, bases),
                                         act |-> last', to |-> StateJ(efts', bases') ])>>, Out)
=============================================================================
