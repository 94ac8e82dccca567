------------------------------- MODULE Smeft --------------------------------
(***************************************************************************)
(* The operators of the SMEFT Warsaw basis: field content, flavour         *)
(* symmetries, independent coefficients, and the two processes that act    *)
(* on them: symmetrising a partially filled array and rotating flavours.   *)
(* Everything is derived from the field content.  Properties: C10 C11 C23  *)
(* (and the SMEFT side of C12).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Bosonic == { "G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB",
             "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB" }

(* fields: q l doublets, u d e singlets; a barred field is written with *  *)
B(f) == [ f |-> f, bar |-> TRUE ]
F(f) == [ f |-> f, bar |-> FALSE ]
cur(a, b) == << B(a), F(b) >>                      \* a current  bar(a) b
two(a, b, c, d) == << B(a), F(b), B(c), F(d) >>
bnv(a, b, c, d) == << F(a), F(b), F(c), F(d) >>

Content ==
  "uphi" :> cur("q", "u") @@ "dphi" :> cur("q", "d") @@ "ephi" :> cur("l", "e")
  @@ "eW" :> cur("l", "e") @@ "eB" :> cur("l", "e")
  @@ "uG" :> cur("q", "u") @@ "uW" :> cur("q", "u") @@ "uB" :> cur("q", "u")
  @@ "dG" :> cur("q", "d") @@ "dW" :> cur("q", "d") @@ "dB" :> cur("q", "d")
  @@ "phil1" :> cur("l", "l") @@ "phil3" :> cur("l", "l") @@ "phie" :> cur("e", "e")
  @@ "phiq1" :> cur("q", "q") @@ "phiq3" :> cur("q", "q") @@ "phiu" :> cur("u", "u")
  @@ "phid" :> cur("d", "d") @@ "phiud" :> cur("u", "d")
  @@ "llphiphi" :> << F("l"), F("l") >>
  @@ "ll" :> two("l", "l", "l", "l") @@ "qq1" :> two("q", "q", "q", "q") @@ "qq3" :> two("q", "q", "q", "q")
  @@ "lq1" :> two("l", "l", "q", "q") @@ "lq3" :> two("l", "l", "q", "q")
  @@ "ee" :> two("e", "e", "e", "e") @@ "uu" :> two("u", "u", "u", "u") @@ "dd" :> two("d", "d", "d", "d")
  @@ "eu" :> two("e", "e", "u", "u") @@ "ed" :> two("e", "e", "d", "d")
  @@ "ud1" :> two("u", "u", "d", "d") @@ "ud8" :> two("u", "u", "d", "d")
  @@ "le" :> two("l", "l", "e", "e") @@ "lu" :> two("l", "l", "u", "u") @@ "ld" :> two("l", "l", "d", "d")
  @@ "qe" :> two("q", "q", "e", "e")
  @@ "qu1" :> two("q", "q", "u", "u") @@ "qd1" :> two("q", "q", "d", "d")
  @@ "qu8" :> two("q", "q", "u", "u") @@ "qd8" :> two("q", "q", "d", "d")
  @@ "ledq" :> two("l", "e", "d", "q") @@ "quqd1" :> two("q", "u", "q", "d") @@ "quqd8" :> two("q", "u", "q", "d")
  @@ "lequ1" :> two("l", "e", "q", "u") @@ "lequ3" :> two("l", "e", "q", "u")
  @@ "duql" :> bnv("d", "u", "q", "l") @@ "qque" :> bnv("q", "q", "u", "e")
  @@ "qqql" :> bnv("q", "q", "q", "l") @@ "duue" :> bnv("d", "u", "u", "e")

Ops == DOMAIN Content
N(op) == Len(Content[op])
Idx(op) == [ 1..N(op) -> 1..3 ]

-----------------------------------------------------------------------------
(* Symmetries: permutations of the indices, with or without conjugation.   *)
(* They are derived from the content, except where the gauge structure     *)
(* decides (Fierz for ee, the two first quarks of qque, qqql below).       *)
Perm(p, c) == [ p |-> p, conj |-> c ]
f_(op, i) == Content[op][i].f
b_(op, i) == Content[op][i].bar
Vector(op) == /\ b_(op, 1) /\ ~b_(op, 2) /\ f_(op, 1) = f_(op, 2)
              /\ (N(op) = 2 \/ (b_(op, 3) /\ ~b_(op, 4) /\ f_(op, 3) = f_(op, 4)))
Herm(op) == IF Vector(op) THEN { Perm(IF N(op) = 2 THEN <<2, 1>> ELSE <<2, 1, 4, 3>>, TRUE) } ELSE {}
Swap(op) == IF N(op) = 4 /\ Vector(op) /\ f_(op, 1) = f_(op, 3) THEN { Perm(<<3, 4, 1, 2>>, FALSE) } ELSE {}
Extra(op) == CASE op = "ee" -> { Perm(<<1, 4, 3, 2>>, FALSE) }
               [] op = "qque" -> { Perm(<<2, 1, 3, 4>>, FALSE) }
               [] op = "llphiphi" -> { Perm(<<2, 1>>, FALSE) }
               [] OTHER -> {}
Gens(op) == Herm(op) \cup Swap(op) \cup Extra(op)

(* orbit of an index tuple: pairs <<tuple, conjugated?>>                   *)
Act(g, x) == << [ k \in 1..Len(x[1]) |-> x[1][g.p[k]] ], (g.conj # x[2]) >>
RECURSIVE Close(_, _)
Close(S, G) == LET T == S \cup { Act(g, x) : g \in G, x \in S } IN IF T = S THEN S ELSE Close(T, G)
Orbit(op, t) == Close({ <<t, FALSE>> }, Gens(op))

RECURSIVE Num(_)
Num(t) == IF t = <<>> THEN 0 ELSE 4 * Num(SubSeq(t, 1, Len(t) - 1)) + t[Len(t)]
Before(a, b) == Num(a) < Num(b)
Rep(op, t) == LET O == { x[1] : x \in Orbit(op, t) } IN CHOOSE a \in O : \A b \in O : a = b \/ Before(a, b)
IsReal(op, t) == <<t, TRUE>> \in Orbit(op, t)
Conjugated(op, t) == <<Rep(op, t), TRUE>> \in Orbit(op, t) /\ <<Rep(op, t), FALSE>> \notin Orbit(op, t)

(* qqql: C_prst + C_rpst = C_sprt + C_srpt for each lepton; independent    *)
(* are the tuples not fixed by the relation with smaller ones              *)
(* (solution of the linear relation, checked below)                        *)
Sorted(p, r, s) == LET q == <<p, r, s>> IN q
QSol(p, r, s) ==  \* linear combination: set of [c |-> coefficient, t |-> triple]
  CASE p = r /\ r = s -> { [ c |-> 1, t |-> <<p, r, s>> ] }
    [] p = r /\ r > s -> { [ c |-> 1, t |-> <<s, p, p>> ] }           \* 110 -> 011
    [] r = s /\ p > r -> { [ c |-> 1, t |-> <<r, r, p>> ] }           \* 100 -> 001
    [] p # r /\ r # s /\ p # s /\ p = 3 /\ r = 1 ->                   \* 312
         { [ c |-> 1, t |-> <<2, 3, 1>> ], [ c |-> 1, t |-> <<2, 1, 3>> ], [ c |-> -1, t |-> <<1, 3, 2>> ] }
    [] p # r /\ r # s /\ p # s /\ p = 3 /\ r = 2 ->                   \* 321
         { [ c |-> 1, t |-> <<1, 3, 2>> ], [ c |-> 1, t |-> <<1, 2, 3>> ], [ c |-> -1, t |-> <<2, 3, 1>> ] }
    [] OTHER -> { [ c |-> 1, t |-> <<p, r, s>> ] }
QIndep == { t \in [ 1..3 -> 1..3 ] : QSol(t[1], t[2], t[3]) = { [ c |-> 1, t |-> t ] } }

(* one element of the symmetrised array: sum of c * (conj of) independent  *)
Element(op, t) ==
  IF op = "qqql"
  THEN { [ c |-> x.c, t |-> x.t \o <<t[4]>>, conj |-> FALSE ] : x \in QSol(t[1], t[2], t[3]) }
  ELSE { [ c |-> 1, t |-> Rep(op, t), conj |-> Conjugated(op, t) ] }
Independent(op) == { t \in Idx(op) : \E x \in Element(op, t) : x.t = t /\ Cardinality(Element(op, t)) = 1 }
RealOf(op, t) == op # "qqql" /\ IsReal(op, t)

-----------------------------------------------------------------------------
(* A little machine: an independent coefficient is set, the array is       *)
(* completed element by element, then read back.                           *)
VARIABLES op, done, table
vars == <<op, done, table>>
Init == op \in Ops /\ done = FALSE /\ table = << >>
RowOf(o, t) == [ t |-> t, e |-> Element(o, t), real |-> RealOf(o, t), indep |-> t \in Independent(o) ]
Complete == /\ ~done /\ done' = TRUE /\ UNCHANGED op
            /\ table' = [ t \in Idx(op) |-> RowOf(op, t) ]
Next == Complete
Spec == Init /\ [][Next]_vars

(* symmetries respect the fields                                           *)
GenSound == \A g \in Gens(op) : \A k \in 1..N(op) :
              /\ f_(op, g.p[k]) = f_(op, k)
              /\ b_(op, g.p[k]) = (g.conj # b_(op, k))
(* independent elements stand for themselves                               *)
IndepIsSelf == done => \A t \in Idx(op) : table[t].indep =>
                 table[t].e = { [ c |-> 1, t |-> t, conj |-> FALSE ] }
(* every element is expressed through independent ones                     *)
OnlyIndep == done => \A t \in Idx(op) : \A x \in table[t].e : table[x.t].indep
(* the completed array has the symmetry                                    *)
Symmetric == done /\ op # "qqql" =>
  \A g \in Gens(op) : \A t \in Idx(op) :
     LET a == CHOOSE x \in table[t].e : TRUE
         s == [ k \in 1..N(op) |-> t[g.p[k]] ]
         b == CHOOSE x \in table[s].e : TRUE
     IN  a.t = b.t /\ ((a.conj # b.conj) = g.conj \/ table[t].real)
(* qqql: the relation holds identically in the independent elements        *)
Coef(S, u) == LET X == { x \in S : x.t = u } IN IF X = {} THEN 0 ELSE (CHOOSE x \in X : TRUE).c
QRelation == op = "qqql" => \A p, r, s \in 1..3 : \A u \in QIndep :
     Coef(QSol(p, r, s), u) + Coef(QSol(r, p, s), u) = Coef(QSol(s, p, r), u) + Coef(QSol(s, r, p), u)
QCount == Cardinality(QIndep) = 19
(* number of real parameters of the baryon number conserving operators:    *)
(* 2499 (together with the 15 bosonic ones)                                *)
Params(o) == LET I == Independent(o) IN 2 * Cardinality(I) - Cardinality({ t \in I : RealOf(o, t) })
Conserving == { o \in Ops : \E k \in 1..N(o) : b_(o, k) }
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Params(x) + Sum(S \ {x})
Count2499 == op = "uphi" /\ ~done => Sum(Conserving) + Cardinality(Bosonic) = 2499

-----------------------------------------------------------------------------
(* Going to the Warsaw mass basis: the up-type quarks of the doublets that *)
(* appear in chirality flipping currents with u_R are rotated to their     *)
(* mass basis (from the basis with diagonal down-type masses), the mass    *)
(* matrix of the light neutrinos becomes diagonal, the rest is kept.       *)
MassRotated == { o \in Ops : Content[o] = cur("q", "u") }
MassDiagonal == { o \in Ops : Content[o] = << F("l"), F("l") >> }
MassAction(o) == CASE o \in MassRotated -> "rotate" [] o \in MassDiagonal -> "diagonalise" [] OTHER -> "keep"
MassSound == /\ MassRotated \cap MassDiagonal = {}
             /\ \A o \in MassRotated : N(o) = 2 /\ Gens(o) = {}
             /\ \A o \in MassDiagonal : Perm(<<2, 1>>, FALSE) \in Gens(o)

Emit == (done /\ op = "uphi") =>
  JsonSerialize(IOEnv.OUT,
    [ bosonic |-> Bosonic,
      content |-> Content,
      mass |-> [ o \in Ops |-> MassAction(o) ],
      table |-> [ o \in Ops |-> { RowOf(o, t) : t \in Idx(o) } ] ])
=============================================================================
