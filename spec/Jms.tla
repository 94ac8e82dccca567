-------------------------------- MODULE Jms ---------------------------------
(***************************************************************************)
(* The operators of the weak effective theory in the JMS basis: field      *)
(* content, symmetries, and the independent coefficients (the first of     *)
(* each symmetry orbit).  Shared by Wet.tla and Match.tla.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

B(f) == [ f |-> f, bar |-> TRUE ]
F(f) == [ f |-> f, bar |-> FALSE ]
cur(a, b) == << B(a), F(b) >>
two(a, b, c, d) == << B(a), F(b), B(c), F(d) >>    \* (bar a b)(bar c d)
bnv(a, b, c, d) == << F(a), F(b), F(c), F(d) >>    \* no bars: baryon number violating
bml(a, b, c, d) == << F(a), F(b), B(c), F(d) >>
dln(c, d) == << F("nuL"), F("nuL"), B(c), F(d) >>  \* two lepton numbers: (nu nu)(bar c d)

Scalars == { "G", "Gtilde" }
Content ==
  "egamma" :> cur("eL", "eR") @@ "ugamma" :> cur("uL", "uR") @@ "dgamma" :> cur("dL", "dR")
  @@ "uG" :> cur("uL", "uR") @@ "dG" :> cur("dL", "dR")
  (* (LL)(LL) *)
  @@ "VnunuLL" :> two("nuL", "nuL", "nuL", "nuL") @@ "VeeLL" :> two("eL", "eL", "eL", "eL")
  @@ "VnueLL" :> two("nuL", "nuL", "eL", "eL") @@ "VnuuLL" :> two("nuL", "nuL", "uL", "uL")
  @@ "VnudLL" :> two("nuL", "nuL", "dL", "dL") @@ "VeuLL" :> two("eL", "eL", "uL", "uL")
  @@ "VedLL" :> two("eL", "eL", "dL", "dL") @@ "VnueduLL" :> two("nuL", "eL", "dL", "uL")
  @@ "VuuLL" :> two("uL", "uL", "uL", "uL") @@ "VddLL" :> two("dL", "dL", "dL", "dL")
  @@ "V1udLL" :> two("uL", "uL", "dL", "dL") @@ "V8udLL" :> two("uL", "uL", "dL", "dL")
  (* (RR)(RR) *)
  @@ "VeeRR" :> two("eR", "eR", "eR", "eR") @@ "VeuRR" :> two("eR", "eR", "uR", "uR")
  @@ "VedRR" :> two("eR", "eR", "dR", "dR") @@ "VuuRR" :> two("uR", "uR", "uR", "uR")
  @@ "VddRR" :> two("dR", "dR", "dR", "dR") @@ "V1udRR" :> two("uR", "uR", "dR", "dR")
  @@ "V8udRR" :> two("uR", "uR", "dR", "dR")
  (* (LL)(RR) *)
  @@ "VnueLR" :> two("nuL", "nuL", "eR", "eR") @@ "VeeLR" :> two("eL", "eL", "eR", "eR")
  @@ "VnuuLR" :> two("nuL", "nuL", "uR", "uR") @@ "VnudLR" :> two("nuL", "nuL", "dR", "dR")
  @@ "VeuLR" :> two("eL", "eL", "uR", "uR") @@ "VedLR" :> two("eL", "eL", "dR", "dR")
  @@ "VueLR" :> two("uL", "uL", "eR", "eR") @@ "VdeLR" :> two("dL", "dL", "eR", "eR")
  @@ "VnueduLR" :> two("nuL", "eL", "dR", "uR")
  @@ "V1uuLR" :> two("uL", "uL", "uR", "uR") @@ "V8uuLR" :> two("uL", "uL", "uR", "uR")
  @@ "V1udLR" :> two("uL", "uL", "dR", "dR") @@ "V8udLR" :> two("uL", "uL", "dR", "dR")
  @@ "V1duLR" :> two("dL", "dL", "uR", "uR") @@ "V8duLR" :> two("dL", "dL", "uR", "uR")
  @@ "V1ddLR" :> two("dL", "dL", "dR", "dR") @@ "V8ddLR" :> two("dL", "dL", "dR", "dR")
  @@ "V1udduLR" :> two("uL", "dL", "dR", "uR") @@ "V8udduLR" :> two("uL", "dL", "dR", "uR")
  (* (LR)(RL) *)
  @@ "SeuRL" :> two("eL", "eR", "uR", "uL") @@ "SedRL" :> two("eL", "eR", "dR", "dL")
  @@ "SnueduRL" :> two("nuL", "eR", "dR", "uL")
  (* (LR)(LR) *)
  @@ "SeeRR" :> two("eL", "eR", "eL", "eR") @@ "SeuRR" :> two("eL", "eR", "uL", "uR")
  @@ "TeuRR" :> two("eL", "eR", "uL", "uR") @@ "SedRR" :> two("eL", "eR", "dL", "dR")
  @@ "TedRR" :> two("eL", "eR", "dL", "dR") @@ "SnueduRR" :> two("nuL", "eR", "dL", "uR")
  @@ "TnueduRR" :> two("nuL", "eR", "dL", "uR")
  @@ "S1uuRR" :> two("uL", "uR", "uL", "uR") @@ "S8uuRR" :> two("uL", "uR", "uL", "uR")
  @@ "S1udRR" :> two("uL", "uR", "dL", "dR") @@ "S8udRR" :> two("uL", "uR", "dL", "dR")
  @@ "S1ddRR" :> two("dL", "dR", "dL", "dR") @@ "S8ddRR" :> two("dL", "dR", "dL", "dR")
  @@ "S1udduRR" :> two("uL", "dR", "dL", "uR") @@ "S8udduRR" :> two("uL", "dR", "dL", "uR")
  (* two units of lepton number *)
  @@ "SnueLL" :> dln("eR", "eL") @@ "TnueLL" :> dln("eR", "eL") @@ "SnueLR" :> dln("eL", "eR")
  @@ "SnuuLL" :> dln("uR", "uL") @@ "TnuuLL" :> dln("uR", "uL") @@ "SnuuLR" :> dln("uL", "uR")
  @@ "SnudLL" :> dln("dR", "dL") @@ "TnudLL" :> dln("dR", "dL") @@ "SnudLR" :> dln("dL", "dR")
  @@ "SnueduLL" :> << F("nuL"), F("eL"), B("dR"), F("uL") >>
  @@ "TnueduLL" :> << F("nuL"), F("eL"), B("dR"), F("uL") >>
  @@ "SnueduLR" :> << F("nuL"), F("eL"), B("dL"), F("uR") >>
  @@ "VnueduRL" :> << F("nuL"), F("eR"), B("dL"), F("uL") >>
  @@ "VnueduRR" :> << F("nuL"), F("eR"), B("dR"), F("uR") >>
  (* baryon and lepton number *)
  @@ "SuddLL" :> bnv("uL", "dL", "dL", "nuL") @@ "SduuLL" :> bnv("dL", "uL", "uL", "eL")
  @@ "SduuLR" :> bnv("dL", "uL", "uR", "eR") @@ "SduuRL" :> bnv("dR", "uR", "uL", "eL")
  @@ "SdudRL" :> bnv("dR", "uR", "dL", "nuL") @@ "SduuRR" :> bnv("dR", "uR", "uR", "eR")
  @@ "SuudLR" :> bnv("uL", "uL", "dR", "eR") @@ "SuudRL" :> bnv("uR", "uR", "dL", "eL")
  @@ "SdduRL" :> bnv("dR", "dR", "uL", "nuL")
  (* baryon minus lepton number *)
  @@ "SdddLL" :> bml("dL", "dL", "eR", "dL") @@ "SuddLR" :> bml("uL", "dL", "nuL", "dR")
  @@ "SdduLR" :> bml("dL", "dL", "nuL", "uR") @@ "SdddLR" :> bml("dL", "dL", "eL", "dR")
  @@ "SdddRL" :> bml("dR", "dR", "eR", "dL") @@ "SuddRR" :> bml("uR", "dR", "nuL", "dR")
  @@ "SdddRR" :> bml("dR", "dR", "eL", "dR")
  (* neutrino masses and moments, four neutrinos *)
  @@ "nu" :> << F("nuL"), F("nuL") >> @@ "nugamma" :> << F("nuL"), F("nuL") >>
  @@ "SnunuLL" :> bnv("nuL", "nuL", "nuL", "nuL")

Ops == DOMAIN Content
N(o) == Len(Content[o])
f_(o, i) == Content[o][i].f
b_(o, i) == Content[o][i].bar
Family(f) == CASE f = "nuL" -> "n" [] f \in { "eL", "eR" } -> "e"
               [] f \in { "uL", "uR" } -> "u" [] f \in { "dL", "dR" } -> "d"
Size(f) == IF Family(f) = "u" THEN 2 ELSE 3           \* there is no top quark
Idx(o) == { t \in [ 1..N(o) -> 1..3 ] : /\ \A i \in 1..N(o) : t[i] <= Size(f_(o, i))
                                    /\ (o = "nugamma" => t[1] < t[2]) }    \* antisymmetric

-----------------------------------------------------------------------------
(* Symmetries: index permutations, with or without conjugation.            *)
FourBar(o) == N(o) = 4 /\ b_(o, 1) /\ b_(o, 3)
Vector(o) == FourBar(o) /\ f_(o, 1) = f_(o, 2) /\ f_(o, 3) = f_(o, 4)
Herm(o) == IF Vector(o) THEN { [ p |-> <<2, 1, 4, 3>>, c |-> TRUE ] } ELSE {}
SwapB(o) == IF FourBar(o) /\ f_(o, 1) = f_(o, 3) /\ f_(o, 2) = f_(o, 4)
            THEN { [ p |-> <<3, 4, 1, 2>>, c |-> FALSE ] } ELSE {}
(* identical colourless vector currents are Fierz symmetric                *)
FierzSym(o) == IF o \in { "VnunuLL", "VeeLL", "VeeRR" } THEN { [ p |-> <<3, 2, 1, 4>>, c |-> FALSE ] } ELSE {}
(* a Majorana mass is symmetric                                            *)
Majorana(o) == IF o = "nu" THEN { [ p |-> <<2, 1>>, c |-> FALSE ] } ELSE {}
Gens(o) == Herm(o) \cup SwapB(o) \cup FierzSym(o) \cup Majorana(o)
Act(g, x) == << [ i \in DOMAIN x[1] |-> x[1][g.p[i]] ], (x[2] # g.c) >>
RECURSIVE Closure(_, _)
Closure(o, S) == LET n == S \cup { Act(g, x) : g \in Gens(o), x \in S }
                 IN IF n = S THEN S ELSE Closure(o, n)
Orbit(o, t) == Closure(o, { << t, FALSE >> })
RECURSIVE Code(_, _)
Code(t, i) == IF i = 0 THEN 0 ELSE 4 * Code(t, i - 1) + t[i]
First(o, t) == LET O == { x[1] : x \in Orbit(o, t) }
               IN CHOOSE m \in O : \A x \in O : Code(m, Len(m)) <= Code(x, Len(x))
Dig == << "1", "2", "3" >>
RECURSIVE IdxStr(_, _)
IdxStr(t, i) == IF i = 0 THEN "" ELSE IdxStr(t, i - 1) \o Dig[t[i]]
Key(o, t) == o \o "_" \o IdxStr(t, Len(t))
(* the coefficient standing for C_t, and whether it is conjugated          *)
Resolve(o, t) == LET m == First(o, t) IN
   [ k |-> Key(o, m), c |-> << m, FALSE >> \notin Orbit(o, t) ]
Reps(o) == { t \in Idx(o) : First(o, t) = t }
Real(o, t) == << t, TRUE >> \in Orbit(o, t)
RepsOf == [ o \in Ops |-> Reps(o) ]
Keys == UNION { { Key(o, t) : t \in RepsOf[o] } : o \in Ops } \cup Scalars
=============================================================================
