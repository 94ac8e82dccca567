------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* Tree-level matching of SMEFT onto the weak effective theory.  The       *)
(* matching formulas are derived: four-fermion operators are decomposed    *)
(* into the components of their doublets, Z and W exchange is added, and   *)
(* the pieces are brought to the form of the JMS operators with colour and *)
(* Fierz identities.  A state is a position in the graph of theories and   *)
(* bases together with the elementary steps done so far; the transitions   *)
(* are the shipped translators and matchers.  Property C12.                *)
(***************************************************************************)
EXTENDS Jms, SequencesExt, Json, IOUtils, CSV

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Q(n, d) == IF n = 0 THEN << 0, 1 >> ELSE LET g == Gcd(Abs(n), d) IN << n \div g, d \div g >>
Nc == 3

-----------------------------------------------------------------------------
(* SMEFT four-fermion operators: fields, SU(2) contraction, Lorentz and    *)
(* colour structure.                                                       *)
S(a, b, c, d, su2, lor, col) == [ f |-> << a, b, c, d >>, su2 |-> su2, lor |-> lor, col |-> col ]
Four ==
  "ll" :> S("l", "l", "l", "l", "sing", "V", "none") @@ "ee" :> S("e", "e", "e", "e", "sing", "V", "none")
  @@ "le" :> S("l", "l", "e", "e", "sing", "V", "none")
  @@ "lq1" :> S("l", "l", "q", "q", "sing", "V", "none") @@ "lq3" :> S("l", "l", "q", "q", "trip", "V", "none")
  @@ "eu" :> S("e", "e", "u", "u", "sing", "V", "none") @@ "ed" :> S("e", "e", "d", "d", "sing", "V", "none")
  @@ "lu" :> S("l", "l", "u", "u", "sing", "V", "none") @@ "ld" :> S("l", "l", "d", "d", "sing", "V", "none")
  @@ "qe" :> S("q", "q", "e", "e", "sing", "V", "none")
  @@ "qq1" :> S("q", "q", "q", "q", "sing", "V", "1") @@ "qq3" :> S("q", "q", "q", "q", "trip", "V", "1")
  @@ "uu" :> S("u", "u", "u", "u", "sing", "V", "1") @@ "dd" :> S("d", "d", "d", "d", "sing", "V", "1")
  @@ "ud1" :> S("u", "u", "d", "d", "sing", "V", "1") @@ "ud8" :> S("u", "u", "d", "d", "sing", "V", "8")
  @@ "qu1" :> S("q", "q", "u", "u", "sing", "V", "1") @@ "qu8" :> S("q", "q", "u", "u", "sing", "V", "8")
  @@ "qd1" :> S("q", "q", "d", "d", "sing", "V", "1") @@ "qd8" :> S("q", "q", "d", "d", "sing", "V", "8")
  @@ "ledq" :> S("l", "e", "d", "q", "d14", "S", "none")
  @@ "quqd1" :> S("q", "u", "q", "d", "e13", "S", "1") @@ "quqd8" :> S("q", "u", "q", "d", "e13", "S", "8")
  @@ "lequ1" :> S("l", "e", "q", "u", "e13", "S", "none") @@ "lequ3" :> S("l", "e", "q", "u", "e13", "T", "none")
  @@ "duql" :> S("d", "u", "q", "l", "e34", "B", "eps") @@ "qque" :> S("q", "q", "u", "e", "e12", "B", "eps")
  @@ "qqql" :> S("q", "q", "q", "l", "e12e34", "B", "eps") @@ "duue" :> S("d", "u", "u", "e", "none", "B", "eps")
Doublet(x) == x \in { "l", "q" }
(* components 1 (upper), 2 (lower); 0 for singlets                         *)
Comp(x, i) == CASE x = "l" /\ i = 1 -> "nuL" [] x = "l" /\ i = 2 -> "eL" [] x = "q" /\ i = 1 -> "uL"
                [] x = "q" /\ i = 2 -> "dL" [] x = "e" -> "eR" [] x = "u" -> "uR" [] x = "d" -> "dR"
Comps(o) == { c \in [ 1..4 -> 0..2 ] : \A i \in 1..4 : (c[i] # 0) = Doublet(Four[o].f[i]) }
De(a, b) == IF a = b THEN 1 ELSE 0
Ep(a, b) == CASE << a, b >> = << 1, 2 >> -> 1 [] << a, b >> = << 2, 1 >> -> -1 [] OTHER -> 0
Weight(o, c) ==
  LET k == Four[o].su2 IN
  CASE k = "sing" -> De(c[1], c[2]) * De(c[3], c[4])
    [] k = "trip" -> 2 * De(c[1], c[4]) * De(c[3], c[2]) - De(c[1], c[2]) * De(c[3], c[4])  \* tau^I tau^I
    [] k = "d14" -> De(c[1], c[4]) [] k = "e13" -> Ep(c[1], c[3]) [] k = "e34" -> Ep(c[3], c[4])
    [] k = "e12" -> Ep(c[1], c[2]) [] k = "e12e34" -> Ep(c[1], c[2]) * Ep(c[3], c[4]) [] k = "none" -> 1

(* A piece of the Lagrangian: four fields, coefficient (n/d) x scalar x    *)
(* product of matrices whose indices are positions of the four fields      *)
Fac(m, i, c) == [ m |-> m, i |-> i, c |-> c ]
Piece(f, lor, col, n, d, sc, fac) == [ f |-> f, lor |-> lor, col |-> col, n |-> n, d |-> d, sc |-> sc, fac |-> fac ]
SmeftPieces == UNION { { Piece([ i \in 1..4 |-> Comp(Four[o].f[i], c[i]) ], Four[o].lor, Four[o].col, Weight(o, c), 1,
                               "one", { Fac(o, << 1, 2, 3, 4 >>, FALSE) }) : c \in { x \in Comps(o) : Weight(o, x) # 0 } }
                       : o \in DOMAIN Four }

(* Z exchange: -gZ^2/(2 MZ^2) J J; W exchange: -g2^2/(2 MW^2) J+ J-         *)
Fields == { "nuL", "eL", "eR", "uL", "uR", "dL", "dR" }
Quark(f) == f \in { "uL", "uR", "dL", "dR" }
Z(f) == "Z" \o f
ColOf(f, g) == IF Quark(f) /\ Quark(g) THEN "1" ELSE "none"
ZPieces == [ x \in Fields \X Fields |-> Piece(<< x[1], x[1], x[2], x[2] >>, "V", ColOf(x[1], x[2]), -1, 2, "NC",
                 { Fac(Z(x[1]), << 1, 2 >>, FALSE), Fac(Z(x[2]), << 3, 4 >>, FALSE) }) ]
Charged == { << "nuL", "eL", "Wl" >>, << "uL", "dL", "Wq" >>, << "uR", "dR", "Wr" >> }
WPieces == { Piece(<< a[1], a[2], b[2], b[1] >>, "V", ColOf(a[1], b[1]), -1, 2, "CC",
                   { Fac(a[3], << 1, 2 >>, FALSE), Fac(b[3], << 4, 3 >>, TRUE) }) : a \in Charged, b \in Charged }
Pieces == SetToSeq(SmeftPieces) \o SetToSeq({ ZPieces[x] : x \in Fields \X Fields }) \o SetToSeq(WPieces)

-----------------------------------------------------------------------------
(* Bring a piece to the form of the JMS operators.                         *)
Octet == { "V8udLL", "V8udRR", "V8uuLR", "V8udLR", "V8duLR", "V8ddLR", "V8udduLR", "S8uuRR", "S8udRR", "S8ddRR", "S8udduRR" }
Tensor == { "TeuRR", "TedRR", "TnueduRR" }
Bars(o) == [ i \in 1..4 |-> b_(o, i) ]
Plain == << TRUE, FALSE, TRUE, FALSE >>
None4 == << FALSE, FALSE, FALSE, FALSE >>
Targets(f, lor, col) == { o \in Ops : /\ N(o) = 4
                                      /\ [ i \in 1..4 |-> f_(o, i) ] = f
                                      /\ Bars(o) = IF lor = "B" THEN None4 ELSE Plain
                                      /\ (lor = "T") = (o \in Tensor)
                                      /\ (col = "8") = (o \in Octet) }
Perm(f, q) == [ i \in 1..4 |-> f[q[i]] ]
Chir(f) == IF f \in { "eR", "uR", "dR" } THEN "R" ELSE "L"
SameChir(f) == \A i, j \in 1..4 : Chir(f[i]) = Chir(f[j])
Way(p, q, n, d, col) == [ q |-> q, n |-> n, d |-> d, to |-> Targets(Perm(p.f, q), p.lor, col) ]
(* possible rearrangements, in order of preference; a Fierz transformation *)
(* of a colour singlet product gives singlets and octets                   *)
Ways(p) ==
  IF p.lor = "B" THEN << { Way(p, << 1, 2, 3, 4 >>, 1, 1, p.col) }, { Way(p, << 2, 1, 3, 4 >>, -1, 1, p.col) } >>
  ELSE << { Way(p, << 1, 2, 3, 4 >>, 1, 1, p.col) }, { Way(p, << 3, 4, 1, 2 >>, 1, 1, p.col) } >>
       \o IF p.lor # "V" \/ ~SameChir(p.f) THEN << >>
          ELSE IF p.col = "none" THEN << { Way(p, << 1, 4, 3, 2 >>, 1, 1, "none") }, { Way(p, << 3, 2, 1, 4 >>, 1, 1, "none") } >>
          ELSE << { Way(p, << 1, 4, 3, 2 >>, 1, Nc, "1"), Way(p, << 1, 4, 3, 2 >>, 2, 1, "8") },
                  { Way(p, << 3, 2, 1, 4 >>, 1, Nc, "1"), Way(p, << 3, 2, 1, 4 >>, 2, 1, "8") } >>
Usable(ws) == { i \in DOMAIN ws : \A w \in ws[i] : w.to # {} }
Least(A) == CHOOSE a \in A : \A b \in A : a <= b
Images(p) == LET ws == Ways(p) IN IF Usable(ws) = {} THEN {} ELSE ws[Least(Usable(ws))]
Conj(p) == [ p EXCEPT !.f = << p.f[2], p.f[1], p.f[4], p.f[3] >> ]
(* the index of the matrix at position j of the piece in the order of the  *)
(* JMS operator                                                            *)
Inv(q) == [ j \in 1..4 |-> CHOOSE i \in 1..4 : q[i] = j ]
Reindex(fac, q) == { [ x EXCEPT !.i = [ k \in DOMAIN x.i |-> Inv(q)[x.i[k]] ] ] : x \in fac }
Swapped(fac) == { [ x EXCEPT !.i = [ k \in DOMAIN x.i |-> << 3, 2, 1, 4 >>[x.i[k]] ] ] : x \in fac }

Contribs(p) == { << CHOOSE o \in w.to : TRUE, w >> : w \in Images(p) }
ForOp(o) == FlattenSeq([ k \in DOMAIN Pieces |->
   LET p == Pieces[k]
       cs == SetToSeq({ c \in Contribs(p) : c[1] = o })
       term(c) == LET q == Q(p.n * c[2].n, p.d * c[2].d) IN
                  [ n |-> q[1], d |-> q[2], sc |-> p.sc, fac |-> Reindex(p.fac, c[2].q) ]
       (* exchange between identical leptons is shared among the two equal forms of the operator *)
       share(t) == LET q == Q(t.n, 2 * t.d) IN
                   << [ t EXCEPT !.n = q[1], !.d = q[2] ], [ t EXCEPT !.n = q[1], !.d = q[2], !.fac = Swapped(t.fac) ] >>
   IN FlattenSeq([ i \in DOMAIN cs |-> IF FierzSym(o) # {} /\ p.sc # "one" THEN share(term(cs[i])) ELSE << term(cs[i]) >> ]) ])
RECURSIVE SumQ(_, _)
SumQ(s, i) == IF i = 0 THEN << 0, 1 >>
              ELSE LET r == SumQ(s, i - 1) IN Q(r[1] * s[i].d + s[i].n * r[2], r[2] * s[i].d)
Sig(t) == << t.sc, t.fac >>
Collect(s) == LET G == { LET u == SelectSeq(s, LAMBDA x : Sig(x) = g)  q == SumQ(u, Len(u))
                         IN [ u[1] EXCEPT !.n = q[1], !.d = q[2] ] : g \in { Sig(s[i]) : i \in DOMAIN s } }
              IN { t \in G : t.n # 0 }
T1(n, d, sc, m) == [ n |-> n, d |-> d, sc |-> sc, fac |-> { Fac(m, << 1, 2 >>, FALSE) } ]
Formula ==
  [ o \in { x \in Ops : N(x) = 4 } |-> Collect(ForOp(o)) ]
  (* dipoles: the photon is  T3 s W3 + c B  *)
  @@ "egamma" :> { T1(-1, 1, "vs", "eW"), T1(1, 1, "vc", "eB") }
  @@ "ugamma" :> { T1(1, 1, "vs", "uW"), T1(1, 1, "vc", "uB") }
  @@ "dgamma" :> { T1(-1, 1, "vs", "dW"), T1(1, 1, "vc", "dB") }
  @@ "uG" :> { T1(1, 1, "vr", "uG") } @@ "dG" :> { T1(1, 1, "vr", "dG") }
  (* the neutrinos get mass from the Higgs vacuum, and no moment           *)
  @@ "nu" :> { T1(1, 2, "v2", "llphiphi") } @@ "nugamma" :> {}
(* G and Gtilde are unchanged *)

-----------------------------------------------------------------------------
(* Couplings: Z: T3 - Q s^2 and the contributions of the Higgs currents    *)
T3(f) == CASE f \in { "nuL", "uL" } -> 1 [] f \in { "eL", "dL" } -> -1 [] OTHER -> 0       \* times 2
Q3(f) == CASE f = "nuL" -> 0 [] f \in { "eL", "eR" } -> -3 [] f \in { "uL", "uR" } -> 2 [] OTHER -> -1  \* times 3
One(f) == CASE f \in { "nuL", "eL" } -> "phil1" [] f = "eR" -> "phie" [] f \in { "uL", "dL" } -> "phiq1"
            [] f = "uR" -> "phiu" [] f = "dR" -> "phid"
Three(f) == IF f \in { "nuL", "eL" } THEN "phil3" ELSE "phiq3"
MT(n, d, sc, m) == [ n |-> n, d |-> d, sc |-> sc, m |-> m ]
Couplings ==
  [ z \in { Z(f) : f \in Fields } |-> LET f == CHOOSE g \in Fields : z = Z(g) IN
      { MT(T3(f), 2, "one", "I"), MT(-Q3(f), 3, "s2", "I"), MT(-1, 2, "v2", One(f)) }
      \cup IF T3(f) = 0 THEN {} ELSE { MT(T3(f), 2, "v2", Three(f)) } ]
  @@ "Wl" :> { MT(1, 1, "one", "I"), MT(1, 1, "v2", "phil3") }
  @@ "Wq" :> { MT(1, 1, "one", "I"), MT(1, 1, "v2", "phiq3") }
  @@ "Wr" :> { MT(1, 2, "v2", "phiud") }

(* Scalars as expression trees *)
num(n, d) == [ o |-> "num", n |-> n, d |-> d ]
sym(x) == [ o |-> "sym", s |-> x ]                \* parameter, element of a SMEFT array, or name defined below
el(m, i) == [ o |-> "el", s |-> m, i |-> i ]
add(a) == [ o |-> "add", a |-> a ]
mul(a) == [ o |-> "mul", a |-> a ]
div(a, b) == [ o |-> "div", a |-> << a, b >> ]
sqrt(a) == [ o |-> "sqrt", a |-> << a >> ]
abs(a) == [ o |-> "abs", a |-> << a >> ]
sq(a) == mul(<< a, a >>)
r2 == sqrt(num(2, 1))
half == num(1, 2)
neg(a) == mul(<< num(-1, 1), a >>)
x_v == sym("v")  x_eps == sym("eps")  x_g1 == sym("g1")  x_g2 == sym("g2")  x_s == sym("s")  x_c == sym("c")
x_e0 == sym("e0")  x_e == sym("e")  x_gz == sym("gz")
sum2 == add(<< sq(x_g1), sq(x_g2) >>)
dif2 == add(<< sq(x_g2), neg(sq(x_g1)) >>)
Scalar == <<
  (* GF measured in muon decay *)
  << "v", sqrt(div(num(1, 1), mul(<< r2, abs(add(<< sym("GF"), mul(<< num(-1, 4), r2, add(<<
        neg(el("ll", << 2, 1, 1, 2 >>)), neg(el("ll", << 1, 2, 2, 1 >>)),
        mul(<< num(2, 1), el("phil3", << 2, 2 >>) >>), mul(<< num(2, 1), el("phil3", << 1, 1 >>) >>) >>) >>) >>)) >>))) >>,
  << "eps", mul(<< el("phiWB", << >>), x_v, x_v >>) >>,
  << "g2", div(mul(<< num(2, 1), sym("m_W") >>), x_v) >>,
  << "e0", sqrt(mul(<< num(4, 1), sym("pi"), sym("alpha_e") >>)) >>,
  << "g1", add(<< div(mul(<< x_e0, x_g2 >>), sqrt(add(<< sq(x_g2), neg(sq(x_e0)) >>))),
                  mul(<< div(mul(<< x_e0, x_e0, x_g2 >>), add(<< sq(x_g2), neg(sq(x_e0)) >>)), x_eps >>) >>) >>,
  << "s", mul(<< div(x_g1, sqrt(sum2)), add(<< num(1, 1), mul(<< half, x_eps, div(x_g2, x_g1), div(dif2, sum2) >>) >>) >>) >>,
  << "c", mul(<< div(x_g2, sqrt(sum2)), add(<< num(1, 1), mul(<< num(-1, 2), x_eps, div(x_g1, x_g2), div(dif2, sum2) >>) >>) >>) >>,
  << "e", add(<< mul(<< x_g2, x_s >>), mul(<< num(-1, 2), x_c, x_g2, x_eps >>) >>) >>,
  << "gz", mul(<< div(x_e, mul(<< x_s, x_c >>)), add(<< num(1, 1), mul(<< div(sum2, mul(<< num(2, 1), x_g1, x_g2 >>)), x_eps >>) >>) >>) >>,
  << "one", num(1, 1) >>,
  << "s2", sq(x_s) >>, << "v2", sq(x_v) >>,
  << "NC", div(sq(x_gz), sq(sym("m_Z"))) >>, << "CC", div(sq(x_g2), sq(sym("m_W"))) >>,
  << "vs", div(mul(<< x_v, x_s >>), r2) >>, << "vc", div(mul(<< x_v, x_c >>), r2) >>, << "vr", div(x_v, r2) >> >>

-----------------------------------------------------------------------------
(* What the derivation has to satisfy.                                     *)
Charge(f) == Q3(f)
ChargeOf(p) == IF p.lor = "B" THEN Charge(p.f[1]) + Charge(p.f[2]) + Charge(p.f[3]) + Charge(p.f[4])
               ELSE Charge(p.f[2]) + Charge(p.f[4]) - Charge(p.f[1]) - Charge(p.f[3])
(* every piece conserves charge and is found in one JMS operator, or its   *)
(* hermitian conjugate is                                                  *)
NoPieceLost == \A k \in DOMAIN Pieces : LET p == Pieces[k] IN
   /\ ChargeOf(p) = 0
   /\ Images(p) # {} \/ (p.lor # "B" /\ Images(Conj(p)) # {})
   /\ \A w \in Images(p) : Cardinality(w.to) = 1
(* hermitian operators have hermitian coefficients: exchanging 1,2 and 3,4 *)
(* and conjugating gives the same formula (Z couplings and SMEFT vector    *)
(* coefficients are hermitian themselves)                                  *)
Bar(x) == LET j == [ k \in DOMAIN x.i |-> << 2, 1, 4, 3 >>[x.i[k]] ] IN
          IF x.m \in { "Wl", "Wq", "Wr" } THEN [ x EXCEPT !.i = j, !.c = ~x.c ]
          ELSE [ x EXCEPT !.i = IF Len(j) = 2 THEN << j[2], j[1] >> ELSE << j[2], j[1], j[4], j[3] >> ]
Hermitian == \A o \in DOMAIN Formula : (N(o) = 4 /\ Vector(o)) =>
   { [ t EXCEPT !.fac = { Bar(x) : x \in t.fac } ] : t \in Formula[o] } = Formula[o]
(* identical currents: symmetric under exchange *)
XSym(x) == [ x EXCEPT !.i = [ k \in DOMAIN x.i |-> << 3, 4, 1, 2 >>[x.i[k]] ] ]
SwapIn(x) == IF x.m \in { "ll", "ee", "qq1", "qq3", "uu", "dd" } THEN [ x EXCEPT !.i = << x.i[3], x.i[4], x.i[1], x.i[2] >> ] ELSE x
Exchange == \A o \in DOMAIN Formula : (N(o) = 4 /\ SwapB(o) # {}) =>
   { [ t EXCEPT !.fac = { SwapIn(XSym(x)) : x \in t.fac } ] : t \in Formula[o] } = Formula[o]
(* without SMEFT coefficients only exchange diagrams contribute, so the    *)
(* operators without them start at zero                                    *)
Pure == { o \in DOMAIN Formula : \A t \in Formula[o] : t.sc \notin { "NC", "CC" } }
Known == /\ \A o \in DOMAIN Formula : \A t \in Formula[o] : t.sc \in { Scalar[i][1] : i \in DOMAIN Scalar }
         /\ { "SedRL", "SnueduRL", "SeuRR", "TeuRR", "SduuLL", "SuddLL", "V8ddLR", "egamma" } \subseteq Pure
         /\ { "VnunuLL", "VddRR", "V1udLL", "VnueduLR", "V1udduLR" } \cap Pure = {}

-----------------------------------------------------------------------------
(* The graph of theories and bases: elementary steps of every conversion   *)
Ed(a, b, w) == [ from |-> a, to |-> b, does |-> w ]
Wa == << "SMEFT", "Warsaw" >>
Wu == << "SMEFT", "Warsaw up" >>
In(eft, b) == << eft, b >>
Graph ==
  { Ed(Wa, Wu, << "up" >>), Ed(Wu, Wa, << "down" >>),
    Ed(Wu, In("WET", "JMS"), << "match" >>), Ed(Wa, In("WET", "JMS"), << "up", "match" >>) }
  \cup { Ed(Wa, In("WET", b), << "up", "match", "JMS-" \o b >>) : b \in { "flavio", "EOS", "Bern" } }
  \cup { Ed(In(f, "JMS"), In(f, b), << "JMS-" \o b >>) : f \in { "WET", "WET-4", "WET-3" }, b \in { "flavio", "Bern" } }
  \cup { Ed(In("WET", "JMS"), In("WET", b), << "JMS-" \o b >>) : b \in { "EOS", "formflavor", "FlavorKit" } }
  \cup { Ed(In("WET", b), In("WET-4", b), << "only WET-4" >>) : b \in { "JMS", "flavio", "Bern" } }
  \cup { Ed(In("WET-4", b), In("WET-3", b), << "only WET-3" >>) : b \in { "JMS", "flavio", "Bern" } }
  \cup { Ed(In("WET-3", "JMS"), In("WET-2", "JMS"), << "only WET-2" >>) }
CONSTANT MaxSteps
VARIABLES route, done
vars == << route, done >>
Init == route \in { << Wa >>, << Wu >> } /\ done = << >>
At == route[Len(route)]
Step(x) == /\ Len(route) <= MaxSteps /\ x.from = At
           /\ route' = Append(route, x.to) /\ done' = done \o x.does
Next == \E x \in Graph : Step(x)
Spec == Init /\ [][Next]_vars
(* up and down cancel *)
RECURSIVE Reduce(_)
Reduce(d) == IF \E i \in 1..Len(d) - 1 : { d[i], d[i + 1] } = { "up", "down" }
             THEN LET i == CHOOSE j \in 1..Len(d) - 1 : { d[j], d[j + 1] } = { "up", "down" }
                  IN Reduce(SubSeq(d, 1, i - 1) \o SubSeq(d, i + 2, Len(d)))
             ELSE d
(* what arrives in the weak effective theory does not depend on the route  *)
(* through SMEFT, nor on whether JMS is visited on the way                 *)
Canonical(start, to) == (IF start = Wa THEN << "up" >> ELSE << >>) \o << "match" >>
                        \o IF to[2] = "JMS" THEN << >> ELSE << "JMS-" \o to[2] >>
RouteIndependent == (At[1] = "WET") => Reduce(done) = Canonical(route[1], At)
OneMatch == Cardinality({ i \in DOMAIN done : done[i] = "match" }) = (IF At[1] = "SMEFT" THEN 0 ELSE 1)

First1 == Len(route) = 1 /\ route[1] = Wa
Static == First1 => (NoPieceLost /\ Hermitian /\ Exchange /\ Known)
EmitFormulas == First1 => CSVWrite("%1$s", << ToJson([ kind |-> "formulas",
    formula |-> { [ op |-> o, t |-> Formula[o] ] : o \in DOMAIN Formula },
    couplings |-> { [ m |-> m, t |-> Couplings[m] ] : m \in DOMAIN Couplings },
    scalar |-> Scalar ]) >>, IOEnv.OUT)
Emit == CSVWrite("%1$s", << ToJson([ kind |-> "route", route |-> route, done |-> done, normal |-> Reduce(done) ]) >>, IOEnv.OUT)
=============================================================================
