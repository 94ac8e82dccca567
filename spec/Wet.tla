-------------------------------- MODULE Wet ---------------------------------
(***************************************************************************)
(* Translations between bases of the weak effective theory, as exact       *)
(* linear maps.  A coefficient of the current basis is a linear form: a    *)
(* set of terms  (rational) x (monomial of physical symbols) x (coefficient*)
(* of the starting basis, possibly conjugated).  A state is a basis        *)
(* together with the linear forms of all its coefficients; the steps are   *)
(* the translators.  The maps out of the JMS basis are derived from the    *)
(* operators' field content, colour and Fierz identities.                  *)
(* Properties C13 and C14.                                                 *)
(***************************************************************************)
EXTENDS Jms, FlavorKitKeys, SequencesExt, Json, IOUtils, CSV

-----------------------------------------------------------------------------
(* Symbols: r2 = sqrt 2, GF, pi, e, gs, mb, ms, D = mb^2 - ms^2, lepton    *)
(* masses me mmu mtau; Vij is a CKM element, Wij its complex conjugate.    *)
CkmIdx == { "11", "12", "13", "21", "22", "23", "31", "32", "33" }
V(ij) == "V" \o ij
W(ij) == "W" \o ij
Flip == [ s \in { V(x) : x \in CkmIdx } \cup { W(x) : x \in CkmIdx } |->
            LET x == CHOOSE y \in CkmIdx : s = V(y) \/ s = W(y) IN IF s = V(x) THEN W(x) ELSE V(x) ]
One == [ s \in {} |-> 0 ]
MulM(a, b) == LET S == DOMAIN a \cup DOMAIN b
                  x(f, s) == IF s \in DOMAIN f THEN f[s] ELSE 0
                  P == { s \in S : x(a, s) + x(b, s) # 0 }
              IN [ s \in P |-> x(a, s) + x(b, s) ]
InvM(a) == [ s \in DOMAIN a |-> -a[s] ]
ConjM(a) == LET fl(s) == IF s \in DOMAIN Flip THEN Flip[s] ELSE s
            IN [ s \in { fl(y) : y \in DOMAIN a } |-> a[fl(s)] ]

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Q(n, d) == IF n = 0 THEN << 0, 1 >> ELSE LET g == Gcd(Abs(n), d) IN << n \div g, d \div g >>

T(k, n, d) == [ k |-> k, c |-> FALSE, n |-> n, d |-> d, m |-> One ]
TS(k, n, d, m) == [ k |-> k, c |-> FALSE, n |-> n, d |-> d, m |-> m ]
MulT(t, n, d, m) == LET q == Q(t.n * n, t.d * d)
                    IN [ t EXCEPT !.n = q[1], !.d = q[2], !.m = MulM(t.m, m) ]
Times(A, n, d, m) == { MulT(t, n, d, m) : t \in A }
ConjT(t) == [ t EXCEPT !.c = ~t.c, !.m = ConjM(t.m) ]

(* add up the terms of a sequence with equal coefficient and monomial      *)
Sig(t) == << t.k, t.c, t.m >>
RECURSIVE SumQ(_, _)
SumQ(s, i) == IF i = 0 THEN << 0, 1 >>
              ELSE LET r == SumQ(s, i - 1) IN Q(r[1] * s[i].d + s[i].n * r[2], r[2] * s[i].d)
Collect(s) == IF Cardinality({ Sig(s[i]) : i \in DOMAIN s }) = Len(s) THEN { t \in Range(s) : t.n # 0 }
              ELSE LET G == { LET u == SelectSeq(s, LAMBDA x : Sig(x) = g)  q == SumQ(u, Len(u))
                              IN [ u[1] EXCEPT !.n = q[1], !.d = q[2] ] : g \in { Sig(s[i]) : i \in DOMAIN s } }
                   IN { t \in G : t.n # 0 }
Form(S) == Collect(SetToSeq(S))                      \* S: terms, all different
(* substitute the linear forms img for the coefficients of A               *)
Subst(A, img) ==
  Collect(FlattenSeq([ i \in 1..Cardinality(A) |->
     LET t == SetToSeq(A)[i]
         inner == IF t.k \in DOMAIN img THEN SetToSeq(img[t.k]) ELSE << >>
     IN [ j \in DOMAIN inner |-> MulT(IF t.c THEN ConjT(inner[j]) ELSE inner[j], t.n, t.d, t.m) ] ]))
Compose(map, img) == [ k \in DOMAIN map |-> Subst(map[k], img) ]
Merge(S) == [ k \in UNION { DOMAIN f : f \in S } |-> (CHOOSE f \in S : k \in DOMAIN f)[k] ]
Nonzero(f) == [ k \in { x \in DOMAIN f : f[x] # {} } |-> f[k] ]

-----------------------------------------------------------------------------
(* Flavours.                                                               *)
Down == << "d", "s", "b" >>
Up == << "u", "c" >>
Lep == << "e", "mu", "tau" >>
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
DI(x) == Pos(Down, x)
UI(x) == Pos(Up, x)
LI(x) == Pos(Lep, x)
Leptons == { "e", "mu", "tau" }
Name(o, i, t) == LET fam == Family(f_(o, i)) IN
   CASE fam = "d" -> Down[t[i]] [] fam = "u" -> Up[t[i]] [] OTHER -> Lep[t[i]]
Str(q) == q[1] \o q[2] \o q[3] \o q[4]

-----------------------------------------------------------------------------
(* Four-quark operators: Dirac structure g, colour 1 or 8, flavours        *)
(* (bar a b)(bar c d).  The Lagrangian contains every independent          *)
(* coefficient once, plus the hermitian conjugate.                         *)
FourQuark == { o \in Ops : N(o) = 4 /\ FourBar(o) /\ \A i \in 1..4 : Family(f_(o, i)) \in { "u", "d" } }
DiracOf(o) == LET l(i) == f_(o, i) \in { "uL", "dL" } IN
   CASE l(1) /\ l(2) /\ l(3) /\ l(4) -> "VLL"
     [] ~l(1) /\ ~l(2) /\ ~l(3) /\ ~l(4) -> "VRR"
     [] l(1) /\ l(2) /\ ~l(3) /\ ~l(4) -> "VLR"
     [] l(1) /\ ~l(2) /\ l(3) /\ ~l(4) -> "SRR"
Octet(o) == o \in { "V8udLL", "V8udRR", "V8uuLR", "V8udLR", "V8duLR", "V8ddLR", "V8udduLR",
                    "S8uuRR", "S8udRR", "S8ddRR", "S8udduRR" }
QuarkKeys == UNION { { [ k |-> Key(o, t), g |-> DiracOf(o), oct |-> Octet(o), self |-> Real(o, t),
                         q |-> << Name(o, 1, t), Name(o, 2, t), Name(o, 3, t), Name(o, 4, t) >> ]
                       : t \in RepsOf[o] } : o \in FourQuark }
Dagger(g) == IF g = "SRR" THEN "SLL" ELSE g
Content4(q) == << { q[1], q[3] }, { q[2], q[4] } >>
(* generate  coefficient x operator  for a key: the operator and its       *)
(* conjugate, colour octets as  1/2 crossed - 1/6 direct                   *)
Parts(k) == LET col == IF k.oct THEN { << TRUE, 1, 2 >>, << FALSE, -1, 6 >> } ELSE { << FALSE, 1, 1 >> }
            IN { [ k |-> k.k, c |-> FALSE, g |-> k.g, x |-> u[1], n |-> u[2], d |-> u[3], q |-> k.q ] : u \in col }
               \cup (IF k.self THEN {} ELSE
                 { [ k |-> k.k, c |-> TRUE, g |-> Dagger(k.g), x |-> u[1], n |-> u[2], d |-> u[3],
                     q |-> << k.q[2], k.q[1], k.q[4], k.q[3] >> ] : u \in col })

(* exchange of the two bilinears                                           *)
SwapG(g) == CASE g = "VLR" -> "VRL" [] g = "VRL" -> "VLR" [] g = "SLR" -> "SRL" [] g = "SRL" -> "SLR" [] OTHER -> g
SwapQ(q) == << q[3], q[4], q[1], q[2] >>
(* Fierz:  (bar a b)(bar c d) -> (bar a d)(bar c b), colour crossed        *)
FierzG(g) == CASE g \in { "VLL", "VRR" } -> { << g, 1, 1 >> }
               [] g = "VLR" -> { << "SRL", -2, 1 >> } [] g = "VRL" -> { << "SLR", -2, 1 >> }
               [] g = "SRL" -> { << "VLR", -1, 2 >> } [] g = "SLR" -> { << "VRL", -1, 2 >> }
               [] g = "SRR" -> { << "SRR", -1, 2 >>, << "TRR", -1, 8 >> }
               [] g = "SLL" -> { << "SLL", -1, 2 >>, << "TLL", -1, 8 >> }
               [] g = "TRR" -> { << "SRR", -6, 1 >>, << "TRR", 1, 2 >> }
               [] g = "TLL" -> { << "SLL", -6, 1 >>, << "TLL", 1, 2 >> }
FierzQ(q) == << q[1], q[4], q[3], q[2] >>
(* twice Fierz is nothing                                                  *)
FierzInvolution == \A g \in { "VLL", "VRR", "VLR", "VRL", "SRL", "SLR", "SRR", "SLL", "TRR", "TLL" } :
   Collect(FlattenSeq([ i \in 1..Cardinality(FierzG(g)) |->
      LET a == SetToSeq(FierzG(g))[i] IN
      SetToSeq({ MulT(T(b[1], b[2], b[3]), a[2], a[3], One) : b \in FierzG(a[1]) }) ])) = { T(g, 1, 1) }

Can(g, x, q) == g \o (IF x THEN "x" ELSE "") \o ":" \o Str(q)
(* write an operator in the arrangement F of the flavours                  *)
(*  "generic": keep the colour structure where the arrangement allows      *)
(*  "reduce":  Fierz crossed operators away (identical flavours)           *)
(*  "dF2":     Fierz crossed currents and all left-right currents away     *)
Arrange(p, F4, mode) ==
  LET dir == IF p.q = F4 THEN { << p.g, p.x, 1, 1 >> }
             ELSE IF SwapQ(p.q) = F4 THEN { << SwapG(p.g), p.x, 1, 1 >> } ELSE {}
      fq == FierzQ(p.q)
      fie == IF fq = F4 THEN { << h[1], ~p.x, h[2], h[3] >> : h \in FierzG(p.g) }
             ELSE IF SwapQ(fq) = F4 THEN { << SwapG(h[1]), ~p.x, h[2], h[3] >> : h \in FierzG(p.g) } ELSE {}
      away == CASE mode = "generic" -> dir = {}
                [] mode = "reduce" -> p.x \/ dir = {}
                [] mode = "dF2" -> (p.x /\ p.g \in { "VLL", "VRR" }) \/ p.g \in { "VLR", "VRL" }
  IN IF away THEN fie ELSE dir
(* in (bar s b)(bar s b) the order of the two bilinears does not matter    *)
Same(g, mode) == IF mode = "dF2" /\ g = "SRL" THEN "SLR" ELSE g

LagTerms(F4, mode) ==
  LET K == { k \in QuarkKeys : Content4(k.q) \in { Content4(F4), << Content4(F4)[2], Content4(F4)[1] >> } }
      P == UNION { Parts(k) : k \in K }
  IN UNION { { [ to |-> Can(Same(a[1], mode), a[2], F4), by |-> a[1], x |-> p.x,
                 k |-> p.k, c |-> p.c, n |-> p.n * a[3], d |-> p.d * a[4] ] : a \in Arrange(p, F4, mode) } : p \in P }
Lag(F4, mode) ==
  LET L == LagTerms(F4, mode)
  IN [ o \in { t.to : t \in L } |->
        LET s == SetToSeq({ t \in L : t.to = o })
        IN Collect([ i \in DOMAIN s |-> LET q == Q(s[i].n, s[i].d) IN
                        [ k |-> s[i].k, c |-> s[i].c, n |-> q[1], d |-> q[2], m |-> One ] ]) ]

-----------------------------------------------------------------------------
(* Bern basis, four quarks: the operators 1 3 5 7 9 contain chains of one, *)
(* three, none, two and four gamma matrices, 2 4 6 8 10 with colour octets.*)
(* Chains reduce to chiral structures:                                     *)
(*   3: 16 VLL + 4 VLR,   9: 64 SRR - 16 TRR + 16 SRL                      *)
Chir(pr) == IF pr THEN << "VRR", "VRL", "SLL", "SLR", "TLL" >> ELSE << "VLL", "VLR", "SRR", "SRL", "TRR" >>
Solve(i) == CASE i = 1 -> << << 1, -1, 3 >>, << 2, 4, 3 >> >>
              [] i = 3 -> << << 1, 1, 12 >>, << 2, -1, 12 >> >>
              [] i = 5 -> << << 3, -1, 3 >>, << 4, 4, 3 >> >>
              [] i = 7 -> << << 3, 1, 3 >>, << 4, -1, 3 >>, << 5, 1, 1 >> >>
              [] i = 9 -> << << 3, 1, 48 >>, << 4, -1, 48 >> >>
Odd == { 1, 3, 5, 7, 9 }
Num(i) == CASE i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] i = 4 -> "4" [] i = 5 -> "5"
            [] i = 6 -> "6" [] i = 7 -> "7" [] i = 8 -> "8" [] i = 9 -> "9" [] i = 10 -> "10"
BernName(i, pr, s) == Num(i) \o (IF pr THEN "p" ELSE "") \o s
Generic4 == { << a[1], a[2], x, y >> : a \in { << "s", "b" >>, << "d", "b" >>, << "d", "s" >> }, x \in { "u", "c" }, y \in { "u", "c" } }
            \cup { << "s", "b", "d", "d" >>, << "d", "b", "s", "s" >>, << "d", "s", "b", "b" >> }
(* identical flavours: same first and third, or same second and fourth     *)
RedA == { << "s", "b", "s", "s" >>, << "d", "b", "d", "d" >>, << "d", "b", "d", "s" >>, << "s", "b", "s", "d" >>,
          << "d", "s", "d", "d" >> }
RedB == { << "d", "b", "b", "b" >>, << "s", "b", "b", "b" >>, << "d", "s", "s", "s" >> }
Mode(F4) == IF F4 \in Generic4 THEN "generic" ELSE "reduce"
BernQ(F4) ==
  LET gen == F4 \in Generic4
      nums == IF gen THEN 1..10 ELSE Odd
      (* with equal antiquarks the scalar operators are numbered by the chirality of the antiquarks *)
      chir(i, pr) == Chir(IF F4 \in RedA /\ i \in { 5, 7, 9 } THEN ~pr ELSE pr)
      f(i, pr) == LET s == Solve(IF i \in Odd THEN i ELSE i - 1)
                      D == { T(Can(chir(i, pr)[s[j][1]], FALSE, F4), s[j][2], s[j][3]) : j \in DOMAIN s }
                      X(n, d) == { LET q == Q(s[j][2] * n, s[j][3] * d) IN
                                   T(Can(chir(i, pr)[s[j][1]], TRUE, F4), q[1], q[2]) : j \in DOMAIN s }
                  IN IF ~gen THEN D ELSE IF i \in Odd THEN D \cup X(1, 3) ELSE X(2, 1)
      key == { << i, pr >> : i \in nums, pr \in BOOLEAN }
  IN [ k \in { BernName(x[1], x[2], Str(F4)) : x \in key } |->
        LET x == CHOOSE y \in key : BernName(y[1], y[2], Str(F4)) = k IN f(x[1], x[2]) ]
(* the other way round: chiral structures contained in the Bern operators  *)
ChainOf(j) == CASE j = 1 -> << << 1, 1 >>, << 3, 16 >> >> [] j = 2 -> << << 1, 1 >>, << 3, 4 >> >>
                [] j = 3 -> << << 5, 1 >>, << 9, 64 >> >> [] j = 4 -> << << 5, 1 >>, << 9, 16 >> >>
                [] j = 5 -> << << 7, 1 >>, << 9, -16 >> >>
BernLag(F4) ==
  LET gen == F4 \in Generic4
      cols == IF gen THEN BOOLEAN ELSE { FALSE }
      pr(j, p) == IF F4 \in RedA /\ j >= 3 THEN ~p ELSE p
      f(j, p, x) == LET c == ChainOf(j) IN
         IF ~gen THEN { T(BernName(c[i][1], pr(j, p), Str(F4)), c[i][2], 1) : i \in DOMAIN c }
         ELSE IF x THEN { LET q == Q(c[i][2], 2) IN T(BernName(c[i][1] + 1, p, Str(F4)), q[1], q[2]) : i \in DOMAIN c }
         ELSE { T(BernName(c[i][1], p, Str(F4)), c[i][2], 1) : i \in DOMAIN c }
              \cup { LET q == Q(-c[i][2], 6) IN T(BernName(c[i][1] + 1, p, Str(F4)), q[1], q[2]) : i \in DOMAIN c }
      key == { << j, p, x >> : j \in 1..5, p \in BOOLEAN, x \in cols }
  IN [ o \in { Can(Chir(y[2])[y[1]], y[3], F4) : y \in key } |->
        LET y == CHOOSE z \in key : Can(Chir(z[2])[z[1]], z[3], F4) = o IN f(y[1], y[2], y[3]) ]
-----------------------------------------------------------------------------
(* Delta F = 2                                                             *)
DF2 == { << "s", "b" >>, << "d", "b" >>, << "d", "s" >>, << "u", "c" >> }
F22(qq) == << qq[1], qq[2], qq[1], qq[2] >>
BernI(qq) ==
  LET F4 == F22(qq)  s == Str(F4)  c(g, x) == { T(Can(g, x, F4), 1, 1) }
  IN (BernName(1, FALSE, s) :> c("VLL", FALSE) @@ BernName(2, FALSE, s) :> c("SLL", FALSE)
      @@ BernName(3, FALSE, s) :> c("SLL", TRUE) @@ BernName(4, FALSE, s) :> c("SLR", FALSE)
      @@ BernName(5, FALSE, s) :> c("SLR", TRUE) @@ BernName(1, TRUE, s) :> c("VRR", FALSE)
      @@ BernName(2, TRUE, s) :> c("SRR", FALSE) @@ BernName(3, TRUE, s) :> c("SRR", TRUE))
(* flavio writes tensors instead of crossed scalars (Fierz) and a vector   *)
(* for the crossed left-right scalar; FormFlavor's scalar has the opposite *)
(* sign of the crossed one                                                 *)
TensorI(qq, sgn) ==
  LET s == Str(F22(qq))
      r == << qq[2], qq[1] >>
      f == "_" \o r[1] \o r[2] \o r[1] \o r[2]
      b(i, p) == BernName(i, p, s)
  IN ("CVLL" \o f :> { T(b(1, FALSE), 1, 1) } @@ "CSLL" \o f :> { T(b(2, FALSE), 1, 1), T(b(3, FALSE), sgn, 2) }
      @@ "CTLL" \o f :> { T(b(3, FALSE), -1, 8) } @@ "CVLR" \o f :> { T(b(5, FALSE), -1, 2) }
      @@ "CSLR" \o f :> { T(b(4, FALSE), 1, 1) } @@ "CVRR" \o f :> { T(b(1, TRUE), 1, 1) }
      @@ "CSRR" \o f :> { T(b(2, TRUE), 1, 1), T(b(3, TRUE), sgn, 2) } @@ "CTRR" \o f :> { T(b(3, TRUE), -1, 8) })
BackI(qq) ==
  LET s == Str(F22(qq))
      r == << qq[2], qq[1] >>
      f == "_" \o r[1] \o r[2] \o r[1] \o r[2]
      b(i, p) == BernName(i, p, s)
  IN (b(1, FALSE) :> { T("CVLL" \o f, 1, 1) } @@ b(2, FALSE) :> { T("CSLL" \o f, 1, 1), T("CTLL" \o f, -4, 1) }
      @@ b(3, FALSE) :> { T("CTLL" \o f, -8, 1) } @@ b(4, FALSE) :> { T("CSLR" \o f, 1, 1) }
      @@ b(5, FALSE) :> { T("CVLR" \o f, -2, 1) } @@ b(1, TRUE) :> { T("CVRR" \o f, 1, 1) }
      @@ b(2, TRUE) :> { T("CSRR" \o f, 1, 1), T("CTRR" \o f, -4, 1) } @@ b(3, TRUE) :> { T("CTRR" \o f, -8, 1) })
(* Bern's crossed scalar is the flavio combination given by Fierz          *)
FlavioIFierz == { << g[1], g[2], g[3] >> : g \in FierzG("SLL") } = { << "SLL", -1, 2 >>, << "TLL", -1, 8 >> }
                /\ { << g[1], g[2], g[3] >> : g \in FierzG("SLR") } = { << "VRL", -1, 2 >> }

-----------------------------------------------------------------------------
(* charged currents  d_j -> u_i l nu                                       *)
CC == { << u, d, l, lp >> : u \in { "u", "c" }, d \in { "d", "s", "b" }, l \in Leptons, lp \in Leptons }
CCKey(o, x) == LET r == Resolve(o, << LI(x[4]), LI(x[3]), DI(x[2]), UI(x[1]) >>) IN r.k
ConjOf(k) == { [ T(k, 1, 1) EXCEPT !.c = TRUE ] }
BernII(x) == LET s == x[1] \o x[2] \o x[3] \o x[4] IN
  ("1" \o s :> ConjOf(CCKey("VnueduLL", x)) @@ "5" \o s :> ConjOf(CCKey("SnueduRL", x))
   @@ "1p" \o s :> ConjOf(CCKey("VnueduLR", x)) @@ "5p" \o s :> ConjOf(CCKey("SnueduRR", x))
   @@ "7p" \o s :> ConjOf(CCKey("TnueduRR", x)))
NV(x) == MulM([ r2 |-> 1, GF |-> -1 ], (V(Dig[UI(x[1])] \o Dig[DI(x[2])]) :> -1))
Num2 == << << "CVL", "1" >>, << "CVR", "1p" >>, << "CSR", "5" >>, << "CSL", "5p" >>, << "CT", "7p" >> >>
FlavioII(x) == LET s == x[1] \o x[2] \o x[3] \o x[4]
                   f == "_" \o x[2] \o x[1] \o x[3] \o "nu" \o x[4]
  IN [ k \in { Num2[i][1] \o f : i \in 1..5 } |->
        LET i == CHOOSE j \in 1..5 : Num2[j][1] \o f = k IN { TS(Num2[i][2] \o s, -1, 4, NV(x)) } ]
BackII(x) == LET s == x[1] \o x[2] \o x[3] \o x[4]
                 f == "_" \o x[2] \o x[1] \o x[3] \o "nu" \o x[4]
  IN [ k \in { Num2[i][2] \o s : i \in 1..5 } |->
        LET i == CHOOSE j \in 1..5 : Num2[j][2] \o s = k IN { TS(Num2[i][1] \o f, -4, 1, InvM(NV(x))) } ]
Num2E == << << "::cVL", "1" >>, << "::cVR", "1p" >>, << "::cSR", "5" >>, << "::cSL", "5p" >>, << "::cT", "7p" >> >>
EosII(l) == LET x == << "u", "b", l, l >>  s == x[1] \o x[2] \o x[3] \o x[4]
                f == "b->u" \o l \o "nu" \o l
  IN [ k \in { f \o Num2E[i][1] : i \in 1..5 } |->
        LET i == CHOOSE j \in 1..5 : f \o Num2E[j][1] = k IN { TS(Num2E[i][2] \o s, -1, 4, NV(x)) } ]

-----------------------------------------------------------------------------
(* Semileptonic neutral currents (bar d_i d_j)(bar l lp): chiral           *)
(* coefficients VqlXY with quark chirality X, lepton chirality Y           *)
DD == { << "s", "b" >>, << "d", "b" >>, << "d", "s" >> }
NC == { << dd, l, lp >> : dd \in DD, l \in Leptons, lp \in Leptons }
NCS(x) == x[1][1] \o x[1][2] \o x[2] \o x[3]
R1(o, t) == LET r == Resolve(o, t) IN [ T(r.k, 1, 1) EXCEPT !.c = r.c ]
R1c(o, t) == LET r == Resolve(o, t) IN [ T(r.k, 1, 1) EXCEPT !.c = ~r.c ]
CanL(x) ==
  LET i == DI(x[1][1])  j == DI(x[1][2])  l == LI(x[2])  m == LI(x[3])  s == ":" \o NCS(x)
  IN ("VqLlL" \o s :> { R1("VedLL", << l, m, i, j >>) } @@ "VqLlR" \o s :> { R1("VdeLR", << i, j, l, m >>) }
      @@ "VqRlL" \o s :> { R1("VedLR", << l, m, i, j >>) } @@ "VqRlR" \o s :> { R1("VedRR", << l, m, i, j >>) }
      @@ "SqRlR" \o s :> { R1("SedRR", << l, m, i, j >>) } @@ "SqLlL" \o s :> { R1c("SedRR", << m, l, j, i >>) }
      @@ "SqLlR" \o s :> { R1("SedRL", << l, m, i, j >>) } @@ "SqRlL" \o s :> { R1c("SedRL", << m, l, j, i >>) }
      @@ "TRR" \o s :> { R1("TedRR", << l, m, i, j >>) } @@ "TLL" \o s :> { R1c("TedRR", << m, l, j, i >>) }
      @@ "nuL" \o s :> { R1("VnudLL", << l, m, i, j >>) } @@ "nuR" \o s :> { R1("VnudLR", << l, m, i, j >>) })
(* vector and axial lepton currents etc.: half sums and half differences   *)
Half(a, b, sb, s) == { T(a \o s, 1, 2), T(b \o s, sb, 2) }
FierzL(x) == LET s == ":" \o NCS(x) IN
  ("9" \o s :> Half("VqLlR", "VqLlL", 1, s) @@ "10" \o s :> Half("VqLlR", "VqLlL", -1, s)
   @@ "S" \o s :> Half("SqRlR", "SqRlL", 1, s) @@ "P" \o s :> Half("SqRlR", "SqRlL", -1, s)
   @@ "9p" \o s :> Half("VqRlR", "VqRlL", 1, s) @@ "10p" \o s :> Half("VqRlR", "VqRlL", -1, s)
   @@ "Sp" \o s :> Half("SqLlR", "SqLlL", 1, s) @@ "Pp" \o s :> Half("SqLlR", "SqLlL", -1, s)
   @@ "T" \o s :> Half("TRR", "TLL", 1, s) @@ "T5" \o s :> Half("TRR", "TLL", -1, s)
   @@ "nu" \o s :> { T("nuL" \o s, 1, 1) } @@ "nup" \o s :> { T("nuR" \o s, 1, 1) })
(* Bern: gamma chains as above, solved for the chiral coefficients         *)
BernL(x) ==
  LET s == ":" \o NCS(x)
      same(p) == IF p THEN << "VqRlR", "VqRlL", "SqLlL", "SqLlR", "TLL" >> ELSE << "VqLlL", "VqLlR", "SqRlR", "SqRlL", "TRR" >>
      key == { << i, p >> : i \in Odd, p \in BOOLEAN }
      ch == [ k \in { BernName(y[1], y[2], NCS(x)) : y \in key } |->
               LET y == CHOOSE z \in key : BernName(z[1], z[2], NCS(x)) = k
                   v == Solve(y[1])
               IN { T(same(y[2])[v[j][1]] \o s, v[j][2], v[j][3]) : j \in DOMAIN v } ]
  IN ch @@ ("nu1" \o NCS(x) :> { T("nuL" \o s, 1, 1) } @@ "nu1p" \o NCS(x) :> { T("nuR" \o s, 1, 1) })
BernToFierzL(x) ==
  LET s == ":" \o NCS(x)  b(i) == i \o NCS(x)
  IN ("9" \o s :> { T(b("1"), 1, 1), T(b("3"), 10, 1) } @@ "10" \o s :> { T(b("3"), -6, 1) }
      @@ "S" \o s :> { T(b("5"), 1, 1), T(b("9"), 40, 1) } @@ "P" \o s :> { T(b("9"), 24, 1) }
      @@ "9p" \o s :> { T(b("1p"), 1, 1), T(b("3p"), 10, 1) } @@ "10p" \o s :> { T(b("3p"), 6, 1) }
      @@ "Sp" \o s :> { T(b("5p"), 1, 1), T(b("9p"), 40, 1) } @@ "Pp" \o s :> { T(b("9p"), -24, 1) }
      @@ "T" \o s :> { T(b("7"), 1, 2), T(b("7p"), 1, 2), T(b("9"), -8, 1), T(b("9p"), -8, 1) }
      @@ "T5" \o s :> { T(b("7"), 1, 2), T(b("7p"), -1, 2), T(b("9"), -8, 1), T(b("9p"), 8, 1) }
      @@ "nu" \o s :> { T(b("nu1"), 1, 1) } @@ "nup" \o s :> { T(b("nu1p"), 1, 1) })

Xi(dd) == CASE dd = << "s", "b" >> -> (V("33") :> 1 @@ W("32") :> 1)
            [] dd = << "d", "b" >> -> (V("33") :> 1 @@ W("31") :> 1)
            [] dd = << "d", "s" >> -> (V("32") :> 1 @@ W("31") :> 1)
N4(dd) == MulM([ r2 |-> 1, GF |-> -1 ], InvM(Xi(dd)))        \* sqrt2 / (4 GF xi), with the 4 apart
LoopE == [ pi |-> 2, e |-> -2 ]
Mb(n) == [ mb |-> n ]
FlL == << << "C9_", "9" >>, << "C9p_", "9p" >>, << "C10_", "10" >>, << "C10p_", "10p" >> >>
FlS == << << "CS_", "S" >>, << "CSp_", "Sp" >>, << "CP_", "P" >>, << "CPp_", "Pp" >> >>
FlavioL(x) ==
  LET s == ":" \o NCS(x)  dd == x[1]  f == dd[2] \o dd[1] \o x[2] \o x[3]
      fn == dd[2] \o dd[1] \o "nu" \o x[2] \o "nu" \o x[3]
      m == MulM(N4(dd), LoopE)
      nu == ("CL_" \o fn :> { TS("nu" \o s, 2, 1, m) } @@ "CR_" \o fn :> { TS("nup" \o s, 2, 1, m) })
  IN IF dd = << "d", "s" >> THEN nu
     ELSE nu @@ [ k \in { FlL[i][1] \o f : i \in 1..4 } |-> LET i == CHOOSE j \in 1..4 : FlL[j][1] \o f = k IN
                     { TS(FlL[i][2] \o s, 4, 1, m) } ]
             @@ [ k \in { FlS[i][1] \o f : i \in 1..4 } |-> LET i == CHOOSE j \in 1..4 : FlS[j][1] \o f = k IN
                     { TS(FlS[i][2] \o s, 4, 1, MulM(m, Mb(-1))) } ]
(* back from flavio, which has no tensors                                  *)
BackL(x) ==
  LET s == ":" \o NCS(x)  dd == x[1]  f == dd[2] \o dd[1] \o x[2] \o x[3]
      fn == dd[2] \o dd[1] \o "nu" \o x[2] \o "nu" \o x[3]
      m == InvM(MulM(N4(dd), LoopE))
      nu == ("nu" \o s :> { TS("CL_" \o fn, 1, 2, m) } @@ "nup" \o s :> { TS("CR_" \o fn, 1, 2, m) })
  IN IF dd = << "d", "s" >> THEN nu
     ELSE nu @@ [ k \in { FlL[i][2] \o s : i \in 1..4 } |-> LET i == CHOOSE j \in 1..4 : FlL[j][2] \o s = k IN
                     { TS(FlL[i][1] \o f, 1, 4, m) } ]
             @@ [ k \in { FlS[i][2] \o s : i \in 1..4 } |-> LET i == CHOOSE j \in 1..4 : FlS[j][2] \o s = k IN
                     { TS(FlS[i][1] \o f, 1, 4, MulM(m, Mb(1))) } ]
             @@ ("T" \o s :> {} @@ "T5" \o s :> {})
FierzToBernL(x) ==
  LET s == ":" \o NCS(x)  b(i) == i \o NCS(x)
      nu == (b("nu1") :> { T("nu" \o s, 1, 1) } @@ b("nu1p") :> { T("nup" \o s, 1, 1) })
  IN IF x[1] = << "d", "s" >> THEN nu
     ELSE nu @@ (b("1") :> { T("9" \o s, 1, 1), T("10" \o s, 5, 3) } @@ b("3") :> { T("10" \o s, -1, 6) }
      @@ b("5") :> { T("S" \o s, 1, 1), T("P" \o s, -5, 3) }
      @@ b("7") :> { T("P" \o s, 2, 3), T("T" \o s, 1, 1), T("T5" \o s, 1, 1) } @@ b("9") :> { T("P" \o s, 1, 24) }
      @@ b("1p") :> { T("9p" \o s, 1, 1), T("10p" \o s, -5, 3) } @@ b("3p") :> { T("10p" \o s, 1, 6) }
      @@ b("5p") :> { T("Sp" \o s, 1, 1), T("Pp" \o s, 5, 3) }
      @@ b("7p") :> { T("Pp" \o s, -2, 3), T("T" \o s, 1, 1), T("T5" \o s, -1, 1) } @@ b("9p") :> { T("Pp" \o s, -1, 24) })
EosNames == << << "::c9", "9" >>, << "::c9'", "9p" >>, << "::c10", "10" >>, << "::c10'", "10p" >>, << "::cS", "S" >>,
               << "::cS'", "Sp" >>, << "::cP", "P" >>, << "::cP'", "Pp" >>, << "::cT", "T" >>, << "::cT5", "T5" >> >>
EosL(l) == LET x == << << "s", "b" >>, l, l >>  s == ":" \o NCS(x)  f == "b->s" \o l \o l
  IN [ k \in { f \o EosNames[i][1] : i \in 1..10 } |-> LET i == CHOOSE j \in 1..10 : f \o EosNames[j][1] = k IN
         { TS(EosNames[i][2] \o s, 4, 1, MulM(N4(x[1]), LoopE)) } ]

-----------------------------------------------------------------------------
(* dipoles: the operator with the left-handed first flavour and its mirror *)
Dip(dd) == dd[1] \o dd[2]
CanD(dd) == LET i == DI(dd[1])  j == DI(dd[2]) IN
  ("F7" \o Dip(dd) :> { R1("dgamma", << i, j >>) } @@ "F8" \o Dip(dd) :> { R1("dG", << i, j >>) }
   @@ "F7p" \o Dip(dd) :> { R1c("dgamma", << j, i >>) } @@ "F8p" \o Dip(dd) :> { R1c("dG", << j, i >>) })
BG == [ gs |-> 2, e |-> -1, mb |-> -1 ]
BS == [ gs |-> 1, mb |-> -1 ]
BernD(dd) == LET s == Dip(dd) IN
  ("7gamma" \o s :> { TS("F7" \o s, 1, 1, BG) } @@ "8g" \o s :> { TS("F8" \o s, 1, 1, BS) }
   @@ "7pgamma" \o s :> { TS("F7p" \o s, 1, 1, BG) } @@ "8pg" \o s :> { TS("F8p" \o s, 1, 1, BS) })
BernToD(dd) == LET s == Dip(dd) IN
  ("F7" \o s :> { TS("7gamma" \o s, 1, 1, InvM(BG)) } @@ "F8" \o s :> { TS("8g" \o s, 1, 1, InvM(BS)) }
   @@ "F7p" \o s :> { TS("7pgamma" \o s, 1, 1, InvM(BG)) } @@ "F8p" \o s :> { TS("8pg" \o s, 1, 1, InvM(BS)) })
FG == [ pi |-> 2, e |-> -1, mb |-> -1 ]
FS == [ pi |-> 2, gs |-> -1, mb |-> -1 ]
FlavioD(dd) == LET s == Dip(dd)  f == dd[2] \o dd[1]  n == N4(dd) IN
  ("C7_" \o f :> { TS("F7" \o s, 4, 1, MulM(n, FG)) } @@ "C8_" \o f :> { TS("F8" \o s, 4, 1, MulM(n, FS)) }
   @@ "C7p_" \o f :> { TS("F7p" \o s, 4, 1, MulM(n, FG)) } @@ "C8p_" \o f :> { TS("F8p" \o s, 4, 1, MulM(n, FS)) })
BackD(dd) == LET s == Dip(dd)  f == dd[2] \o dd[1]  n == N4(dd) IN
  ("F7" \o s :> { TS("C7_" \o f, 1, 4, InvM(MulM(n, FG))) } @@ "F8" \o s :> { TS("C8_" \o f, 1, 4, InvM(MulM(n, FS))) }
   @@ "F7p" \o s :> { TS("C7p_" \o f, 1, 4, InvM(MulM(n, FG))) } @@ "F8p" \o s :> { TS("C8p_" \o f, 1, 4, InvM(MulM(n, FS))) })
(* EOS: the operators contain mb and ms times both chiralities             *)
EosD == LET n == N4(<< "s", "b" >>)
            g(c, q) == MulM(n, MulM([ pi |-> 2, D |-> -1 ], MulM(c :> -1, q :> 1)))
  IN ("b->s::c7" :> { TS("F7sb", 4, 1, g("e", "mb")), TS("F7psb", -4, 1, g("e", "ms")) }
      @@ "b->s::c7'" :> { TS("F7sb", -4, 1, g("e", "ms")), TS("F7psb", 4, 1, g("e", "mb")) }
      @@ "b->s::c8" :> { TS("F8sb", 4, 1, g("gs", "mb")), TS("F8psb", -4, 1, g("gs", "ms")) }
      @@ "b->s::c8'" :> { TS("F8sb", -4, 1, g("gs", "ms")), TS("F8psb", 4, 1, g("gs", "mb")) })

-----------------------------------------------------------------------------
(* EOS current-current and penguin operators: projection of the b -> s     *)
(* four-quark operators                                                    *)
E1(q) == Can("VLL", FALSE, << "s", "b", q, q >>)
E2(q) == Can("VLL", TRUE, << "s", "b", q, q >>)
E3(q) == Can("VLR", FALSE, << "s", "b", q, q >>)
E4(q) == Can("VLR", TRUE, << "s", "b", q, q >>)
EV(q, i) == CASE i = 1 -> E1(q) [] i = 2 -> E2(q) [] i = 3 -> E3(q) [] i = 4 -> E4(q)
ETab == (* per flavour: operator, numerator, denominator *)
  [ c1 |-> { << "b", 1, -2, 5 >>, << "c", 1, 1, 1 >>, << "d", 1, -6, 5 >>, << "d", 2, 4, 5 >>, << "s", 1, -2, 5 >>, << "u", 1, 1, 1 >> },
    c2 |-> { << "b", 1, -4, 15 >>, << "c", 1, 1, 6 >>, << "c", 2, 1, 2 >>, << "d", 1, 1, 5 >>, << "d", 2, -7, 15 >>,
             << "s", 1, -4, 15 >>, << "u", 1, 1, 6 >>, << "u", 2, 1, 2 >> },
    c3 |-> { << q, 3, 4, 15 >> : q \in { "u", "d", "s", "c", "b" } } \cup { << q, 4, 4, 45 >> : q \in { "u", "d", "s", "c", "b" } }
           \cup { << "b", 1, -4, 45 >>, << "s", 1, -4, 45 >>, << "d", 1, -7, 45 >>, << "d", 2, 1, 15 >> },
    c4 |-> { << q, 4, 8, 15 >> : q \in { "u", "d", "s", "c", "b" } }
           \cup { << "b", 1, -2, 15 >>, << "s", 1, -2, 15 >>, << "d", 1, 4, 15 >>, << "d", 2, -2, 5 >> },
    c5 |-> { << q, 3, -1, 60 >> : q \in { "u", "d", "s", "c", "b" } } \cup { << q, 4, -1, 180 >> : q \in { "u", "d", "s", "c", "b" } }
           \cup { << "b", 1, 1, 45 >>, << "s", 1, 1, 45 >>, << "d", 1, 7, 180 >>, << "d", 2, -1, 60 >> },
    c6 |-> { << q, 4, -1, 30 >> : q \in { "u", "d", "s", "c", "b" } }
           \cup { << "b", 1, 1, 30 >>, << "s", 1, 1, 30 >>, << "d", 1, -1, 15 >>, << "d", 2, 1, 10 >> } ]
EosV == [ k \in { "b->s::" \o c : c \in DOMAIN ETab } |->
           LET c == CHOOSE x \in DOMAIN ETab : "b->s::" \o x = k
           IN { TS(EV(y[1], y[2]), y[3], 4 * y[4], N4(<< "s", "b" >>)) : y \in ETab[c] } ]

-----------------------------------------------------------------------------
(* FormFlavor: muons, the average neutrino, dipoles without masses         *)
FormL(dd) == LET b == DI(dd[1])  s == DI(dd[2])  n == dd[1] \o dd[2] \o "mm" IN
  ("CVLL_" \o n :> { R1("VedLL", << 2, 2, s, b >>) } @@ "CVRR_" \o n :> { R1("VedRR", << 2, 2, s, b >>) }
   @@ "CVLR_" \o n :> { R1("VdeLR", << s, b, 2, 2 >>) } @@ "CVRL_" \o n :> { R1("VedLR", << 2, 2, s, b >>) }
   @@ "CSLL_" \o n :> { R1c("SedRR", << 2, 2, b, s >>) } @@ "CSRR_" \o n :> { R1("SedRR", << 2, 2, s, b >>) }
   @@ "CSLR_" \o n :> { R1("SedRL", << 2, 2, s, b >>) } @@ "CSRL_" \o n :> { R1c("SedRL", << 2, 2, b, s >>) }
   @@ "CTLL_" \o n :> { R1c("TedRR", << 2, 2, b, s >>) } @@ "CTRR_" \o n :> { R1("TedRR", << 2, 2, s, b >>) })
FormNu == ("CVLL_sdnn" :> { MulT(R1("VnudLL", << i, i, 1, 2 >>), 1, 3, One) : i \in 1..3 }
           @@ "CVRL_sdnn" :> { MulT(R1("VnudLR", << i, i, 1, 2 >>), 1, 3, One) : i \in 1..3 })
FormDip(n, o, oG, i, j) ==
  LET a == ("CAR_" \o n :> { MulT(R1(o, << i, j >>), 1, 1, [ e |-> -1 ]) }
            @@ "CAL_" \o n :> { MulT(R1c(o, << j, i >>), 1, 1, [ e |-> -1 ]) })
  IN IF oG = "" THEN a
     ELSE a @@ ("CGR_" \o n :> { MulT(R1(oG, << i, j >>), 1, 1, [ gs |-> -1 ]) }
                @@ "CGL_" \o n :> { MulT(R1c(oG, << j, i >>), 1, 1, [ gs |-> -1 ]) })

-----------------------------------------------------------------------------
(* FlavorKit: every coefficient is one JMS coefficient with the order of   *)
(* the flavours in each bilinear reversed (Q = which index goes where)     *)
FKRule == [ op \in DOMAIN FKIdx |->
  CASE op = "AVLL" -> << "VeeLL", <<2, 1, 4, 3>>, FALSE >> [] op = "AVRR" -> << "VeeRR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "AVLR" -> << "VeeLR", <<2, 1, 4, 3>>, FALSE >> [] op = "ASRR" -> << "SeeRR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "BVLL" -> << "VedLL", <<2, 1, 4, 3>>, FALSE >> [] op = "BVRR" -> << "VedRR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "BVLR" -> << "VedLR", <<2, 1, 4, 3>>, FALSE >> [] op = "BSRL" -> << "SedRL", <<2, 1, 4, 3>>, FALSE >>
    [] op = "BSRR" -> << "SedRR", <<2, 1, 4, 3>>, FALSE >> [] op = "BTRR" -> << "TedRR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "CVLL" -> << "VeuLL", <<2, 1, 4, 3>>, FALSE >> [] op = "CVRR" -> << "VeuRR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "CVLR" -> << "VeuLR", <<2, 1, 4, 3>>, FALSE >> [] op = "CSRL" -> << "SeuRL", <<2, 1, 4, 3>>, FALSE >>
    [] op = "CSRR" -> << "SeuRR", <<2, 1, 4, 3>>, FALSE >> [] op = "CTRR" -> << "TeuRR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "DVLL" -> << "VddLL", <<2, 1, 4, 3>>, FALSE >> [] op = "DVRR" -> << "VddRR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "DVLR" -> << "V1ddLR", <<2, 1, 4, 3>>, FALSE >> [] op = "DVRL" -> << "V1ddLR", <<4, 3, 2, 1>>, FALSE >>
    [] op = "DSRR" -> << "S1ddRR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "ESLR" -> << "SedRL", <<4, 3, 2, 1>>, FALSE >> [] op = "ESRR" -> << "SedRR", <<4, 3, 2, 1>>, FALSE >>
    [] op = "ETRR" -> << "TedRR", <<4, 3, 2, 1>>, FALSE >> [] op = "EVLL" -> << "VedLL", <<4, 3, 2, 1>>, FALSE >>
    [] op = "EVRR" -> << "VedRR", <<4, 3, 2, 1>>, FALSE >> [] op = "EVRL" -> << "VedLR", <<4, 3, 2, 1>>, FALSE >>
    [] op = "EVLR" -> << "VdeLR", <<2, 1, 4, 3>>, FALSE >>
    [] op = "FVLL" -> << "VnudLL", <<4, 3, 2, 1>>, FALSE >> [] op = "FVRL" -> << "VnudLR", <<4, 3, 2, 1>>, FALSE >>
    (* charged currents: the conjugate operator, quarks and leptons exchanged *)
    [] op = "GVLL" -> << "VnueduLL", <<3, 4, 1, 2>>, TRUE >> [] op = "GVRL" -> << "VnueduLR", <<3, 4, 1, 2>>, TRUE >>
    [] op = "GSLL" -> << "SnueduRR", <<3, 4, 1, 2>>, TRUE >> [] op = "GSRL" -> << "SnueduRL", <<3, 4, 1, 2>>, TRUE >>
    [] op = "Q1R" -> << "dgamma", <<2, 1>>, FALSE >> [] op = "Q2R" -> << "dG", <<2, 1>>, FALSE >>
    [] op = "K2R" -> << "egamma", <<2, 1>>, FALSE >> ]
Mass == << "me", "mmu", "mtau" >>
FKTarget(op, t) == LET r == FKRule[op]
                       R == Resolve(r[1], [ i \in DOMAIN t |-> t[r[2][i]] ])
                   IN [ k |-> R.k, c |-> R.c # r[3] ]
FKAll == UNION { { << op, t >> : t \in FKIdx[op] } : op \in DOMAIN FKIdx }
FKTab == { LET r == FKTarget(x[1], x[2]) IN
           [ fk |-> Key(x[1], x[2]), k |-> r.k, c |-> r.c,
             m |-> IF x[1] = "K2R" THEN MulM([ e |-> 1 ], Mass[x[2][1]] :> 1) ELSE One,
             d |-> IF x[1] = "K2R" THEN 2 ELSE 1 ] : x \in FKAll }
(* the map is one to one *)
FKInjective == /\ Cardinality({ x.fk : x \in FKTab }) = Cardinality(FKAll)
               /\ Cardinality({ x.k : x \in FKTab }) = Cardinality(FKAll)

-----------------------------------------------------------------------------
(* The translators, sector by sector.  The Bern basis is normalised to     *)
(* sqrt2/(4 GF).                                                           *)
NB == [ r2 |-> 1, GF |-> -1 ]
All(map, n, d, m) == [ k \in DOMAIN map |-> Times(map[k], n, d, m) ]
ToBern(map) == All(map, 1, 4, NB)
FromBern(map) == All(map, 4, 1, InvM(NB))
E(from, to, map) == [ from |-> from, to |-> to, map |-> map ]
Sources(S) == UNION { UNION { { t.k : t \in e.map[k] } : k \in DOMAIN e.map } : e \in S }
(* FlavorKit coefficients that stand for JMS coefficients of the sector    *)
WithFK(S) ==
  LET K == Sources({ e \in S : e.from = "JMS" })
      X == { x \in FKTab : x.k \in K }
      FJ == [ k \in { x.k : x \in X } |-> LET x == CHOOSE y \in X : y.k = k IN
               { [ k |-> x.fk, c |-> x.c, n |-> 1, d |-> x.d, m |-> x.m ] } ]
      JF == [ f \in { x.fk : x \in X } |-> LET x == CHOOSE y \in X : y.fk = f IN
               { [ k |-> x.k, c |-> x.c, n |-> x.d, d |-> 1, m |-> InvM(x.m) ] } ]
      fl == { e \in S : e.from = "JMS" /\ e.to = "flavio" }
  IN S \cup { E("FlavorKit", "JMS", FJ), E("JMS", "FlavorKit", JF) }
       \cup { E("FlavorKit", "flavio", Compose(e.map, FJ)) : e \in fl }

SecI(qq) ==
  LET J == Compose(BernI(qq), Lag(F22(qq), "dF2"))
      form == E("JMS", "formflavor", Compose(TensorI(qq, 1), J))
  IN IF qq = << "u", "c" >> THEN { form }
     ELSE { form, E("JMS", "Bern", ToBern(J)), E("JMS", "flavio", Compose(TensorI(qq, -1), J)),
            E("Bern", "flavio", FromBern(TensorI(qq, -1))), E("flavio", "Bern", ToBern(BackI(qq))) }
SecII(x) ==
  LET J == BernII(x)
      eos == IF << x[1], x[2] >> = << "u", "b" >> /\ x[3] = x[4] /\ x[3] # "tau"
             THEN { E("JMS", "EOS", Compose(EosII(x[3]), J)) } ELSE {}
  IN eos \cup { E("JMS", "Bern", ToBern(J)), E("JMS", "flavio", Compose(FlavioII(x), J)),
                E("Bern", "flavio", FromBern(FlavioII(x))), E("flavio", "Bern", ToBern(BackII(x))) }
SecQ(F4) == { E("JMS", "Bern", ToBern(Compose(BernQ(F4), Lag(F4, Mode(F4))))) }
SecL(x) ==
  LET J == CanL(x)
      JF == Compose(FierzL(x), J)
      eos == IF x[1] = << "s", "b" >> /\ x[2] = x[3] /\ x[2] # "tau"
             THEN { E("JMS", "EOS", Compose(EosL(x[2]), JF)) } ELSE {}
  IN eos \cup { E("JMS", "Bern", ToBern(Compose(BernL(x), J))), E("JMS", "flavio", Compose(FlavioL(x), JF)),
                E("Bern", "flavio", FromBern(Compose(FlavioL(x), BernToFierzL(x)))),
                E("flavio", "Bern", ToBern(Compose(FierzToBernL(x), BackL(x)))) }
SecD(dd) ==
  LET J == CanD(dd)
      fl == IF dd = << "d", "s" >> THEN {}
            ELSE { E("JMS", "flavio", Compose(FlavioD(dd), J)), E("Bern", "flavio", FromBern(Compose(FlavioD(dd), BernToD(dd)))),
                   E("flavio", "Bern", ToBern(Compose(BernD(dd), BackD(dd)))),
                   E("JMS", "formflavor", FormDip(dd[1] \o dd[2], "dgamma", "dG", DI(dd[1]), DI(dd[2]))) }
      eos == IF dd = << "s", "b" >> THEN { E("JMS", "EOS", Compose(EosD, J)) } ELSE {}
  IN fl \cup eos \cup { E("JMS", "Bern", ToBern(Compose(BernD(dd), J))) }
EosQuarks == Merge({ Lag(<< "s", "b", q, q >>, "generic") : q \in { "u", "c", "d", "s", "b" } })
SecE == { E("JMS", "EOS", Compose(EosV, EosQuarks)) }
SecF(n) == CASE n = "bs" -> { E("JMS", "formflavor", FormL(<< "b", "s" >>)) }
             [] n = "bd" -> { E("JMS", "formflavor", FormL(<< "b", "d" >>)) }
             [] n = "nu" -> { E("JMS", "formflavor", FormNu) }
             [] n = "dd" -> { E("JMS", "formflavor", FormDip("dd", "dgamma", "dG", 1, 1)) }
             [] n = "uu" -> { E("JMS", "formflavor", FormDip("uu", "ugamma", "uG", 1, 1)) }
             [] n = "mt" -> { E("JMS", "formflavor", FormDip("mt", "egamma", "", 2, 3)) }
             [] n = "em" -> { E("JMS", "formflavor", FormDip("em", "egamma", "", 1, 2)) }
             [] n = "et" -> { E("JMS", "formflavor", FormDip("et", "egamma", "", 1, 3)) }
SecK(op) ==
  LET X == { x \in FKTab : x.fk \in { Key(op, t) : t \in FKIdx[op] } }
  IN { E("FlavorKit", "JMS", [ k \in { x.k : x \in X } |-> LET x == CHOOSE y \in X : y.k = k IN
               { [ k |-> x.fk, c |-> x.c, n |-> 1, d |-> x.d, m |-> x.m ] } ]),
       E("JMS", "FlavorKit", [ f \in { x.fk : x \in X } |-> LET x == CHOOSE y \in X : y.fk = f IN
               { [ k |-> x.k, c |-> x.c, n |-> x.d, d |-> 1, m |-> InvM(x.m) ] } ]) }

Sectors == { << "I", qq >> : qq \in DF2 } \cup { << "II", x >> : x \in CC } \cup { << "Q", F4 >> : F4 \in Generic4 \cup RedA \cup RedB }
           \cup { << "L", x >> : x \in NC } \cup { << "D", dd >> : dd \in DD } \cup { << "E", << >> >> }
           \cup { << "F", n >> : n \in { "bs", "bd", "nu", "dd", "uu", "mt", "em", "et" } }
           \cup { << "K", op >> : op \in DOMAIN FKIdx }
Edges == [ s \in Sectors |->
   CASE s[1] = "I" -> WithFK(SecI(s[2])) [] s[1] = "II" -> WithFK(SecII(s[2])) [] s[1] = "Q" -> WithFK(SecQ(s[2]))
     [] s[1] = "L" -> WithFK(SecL(s[2])) [] s[1] = "D" -> WithFK(SecD(s[2])) [] s[1] = "E" -> WithFK(SecE)
     [] s[1] = "F" -> WithFK(SecF(s[2])) [] s[1] = "K" -> SecK(s[2]) ]
Bases == { "JMS", "Bern", "flavio", "EOS", "formflavor", "FlavorKit" }
(* coefficients of a basis in a sector *)
KeysIn(S, b) == UNION { DOMAIN e.map : e \in { x \in S : x.to = b } } \cup Sources({ e \in S : e.from = b })

-----------------------------------------------------------------------------
CONSTANT MaxSteps
VARIABLES sec, edges, path, img
vars == << sec, edges, path, img >>
Ident(S, b) == [ k \in KeysIn(S, b) |-> { T(k, 1, 1) } ]
Init == /\ sec \in Sectors /\ edges = Edges[sec]
        /\ \E b \in { e.from : e \in edges } : path = << b >> /\ img = Ident(edges, b)
At == path[Len(path)]
Step(b) == /\ Len(path) <= MaxSteps
           /\ \E e \in edges : /\ e.from = At /\ e.to = b
                               /\ img' = Nonzero(Compose(e.map, img))
           /\ path' = Append(path, b)
           /\ UNCHANGED << sec, edges >>
Next == \E b \in Bases : Step(b)
Spec == Init /\ [][Next]_vars

Map(a, b) == (CHOOSE e \in edges : e.from = a /\ e.to = b).map
(* routes agree *)
Routes ==
  /\ path = << "JMS", "Bern", "flavio" >> => img = Nonzero(Map("JMS", "flavio"))
  /\ path = << "flavio", "Bern", "flavio" >> => img = Ident(edges, "flavio")
  /\ path = << "Bern", "flavio", "Bern", "flavio" >> => img = Nonzero(Map("Bern", "flavio"))
  /\ path = << "FlavorKit", "JMS", "FlavorKit" >> => img = Ident(edges, "FlavorKit")
  /\ path = << "JMS", "FlavorKit", "JMS" >> => \A k \in DOMAIN img : img[k] = { T(k, 1, 1) }
  /\ path = << "FlavorKit", "JMS", "flavio" >> => img = Nonzero(Map("FlavorKit", "flavio"))
  /\ path = << "JMS", "FlavorKit", "flavio" >> => \A k \in DOMAIN img : img[k] \subseteq Map("JMS", "flavio")[k]
  /\ path = << "FlavorKit", "JMS", "Bern", "flavio" >> => img = Nonzero(Map("FlavorKit", "flavio"))
(* every coefficient of the basis is produced, and nothing else *)
Complete == (Len(path) = 2 /\ path[1] = "JMS" /\ At # "FlavorKit") => DOMAIN img = KeysIn(edges, At)
Known == /\ \A k \in DOMAIN img : \A t \in img[k] : t.k \in KeysIn(edges, path[1])
         /\ DOMAIN img \subseteq KeysIn(edges, At)
JmsSources == path[1] = "JMS" => KeysIn(edges, "JMS") \subseteq Keys
(* no flavour leaks: a coefficient of one sector never feeds another one's *)
NoLeak == (path[1] = "Bern" \/ path[1] = "flavio") =>
   \A s \in Sectors : (s # sec /\ s[1] \in { "I", "II", "L", "D" }) =>
       KeysIn(Edges[s], path[1]) \cap KeysIn(edges, path[1]) = {}

First1 == sec = << "E", << >> >> /\ Len(path) = 1
Static == First1 => FierzInvolution
StaticBern == (sec[1] = "Q" /\ Len(path) = 1) =>
   LET F4 == sec[2] IN Compose(BernLag(F4), BernQ(F4)) = [ o \in DOMAIN BernLag(F4) |-> { T(o, 1, 1) } ]
StaticLep == (sec[1] = "L" /\ Len(path) = 1) => Compose(BernToFierzL(sec[2]), BernL(sec[2])) = FierzL(sec[2])
StaticFK == First1 => (FlavioIFierz /\ FKInjective)

RealKeys == UNION { { Key(o, t) : t \in { u \in RepsOf[o] : Real(o, u) } } : o \in Ops } \cup Scalars
EmitJms == First1 => CSVWrite("%1$s", << ToJson([ path |-> << >>, keys |-> Keys, real |-> RealKeys,
              content |-> { [ op |-> o, f |-> Content[o], reps |-> RepsOf[o] ] : o \in Ops } ]) >>, IOEnv.OUT)
Emit == CSVWrite("%1$s", << ToJson([ sec |-> sec, path |-> path,
            forms |-> IF Len(path) = 1 THEN {} ELSE { [ k |-> k, t |-> img[k] ] : k \in DOMAIN img },
            keys |-> IF Len(path) = 1 THEN { [ b |-> b, k |-> KeysIn(edges, b) ] : b \in Bases } ELSE {} ]) >>, IOEnv.OUT)
=============================================================================
