------------------------------ MODULE Smeftsim ------------------------------
(***************************************************************************)
(* The parameter cards of SMEFTsim (model sets A and B, input schemes      *)
(* alpha and mw): which entry states which Warsaw mass coefficient, and    *)
(* the entries that do not depend on the coefficients.  The machine writes *)
(* the card family by family, numbering the entries consecutively.         *)
(* Property: C19.                                                          *)
(***************************************************************************)
EXTENDS Smeft

Sets == { "A", "B" }
Schemes == { "alpha", "mw" }

(* ---- orders of the flavour indices within a family -------------------- *)
RECURSIVE Dig(_, _)
Dig(n, k) == IF k = 0 THEN <<>> ELSE Append(Dig(n \div 10, k - 1), n % 10)
Cur2  == << 11, 12, 13, 22, 23, 33 >>                \* hermitian current, moduli
Cur2p == << 12, 13, 23 >>                            \*                    phases
Same4p == << 1112, 1113, 1123, 1212, 1213, 1231, 1222, 1223, 1232, 1233, 1313, 1322, 1332, 1323, 1333,
             2223, 2323, 3323 >>                     \* two equal currents
Same4 == << 1111, 1122, 1221, 1133, 1331, 2222, 2233, 2332, 3333 >> \o Same4p
Two4  == << 1111, 1112, 1113, 1123, 1122, 1133, 1211, 1212, 1221, 1213, 1231, 1222, 1223, 1232, 1233,
            1311, 1312, 1313, 1331, 1321, 1322, 1332, 1323, 1333, 2211, 2212, 2213, 2222, 2223, 2233,
            2311, 2312, 2313, 2321, 2322, 2323, 2331, 2332, 2333, 3311, 3312, 3313, 3322, 3333, 3323 >>
Two4pA == << 1112, 1113, 1123, 1211, 1212, 1221, 1213, 1231, 1222, 1223, 1232, 1233, 1311, 1312, 1313,
             1331, 1321, 1322, 1332, 1323, 1333, 2212, 2213, 2223, 2311, 2312, 2313, 2321, 2322, 2323,
             2331, 2332, 2333, 3312, 3313, 3323 >>
Two4pB == << 1112, 2212, 1113, 1123, 1211, 1212, 1221, 1213, 1231, 1222, 1223, 1232, 1233, 1311, 1312,
             1313, 1331, 1321, 1322, 1332, 1323, 1333, 2213, 2223, 2311, 2312, 2313, 2321, 2322, 2323,
             2331, 2332, 2333, 3323, 3312, 3313 >>
Fierz4A  == << 1111, 1122, 1133, 2222, 2233, 1112, 3333, 1123, 1113, 1213, 1212, 1232, 1222, 1313, 1233,
               1323, 1322, 2223, 1333, 3323, 2323 >>
Fierz4pA == << 1112, 1113, 1123, 1212, 1213, 1222, 1232, 1233, 1313, 1322, 1323, 1333, 2223, 2323, 3323 >>
Fierz4B  == << 1111, 2222, 3333, 1122, 1133, 2233, 1212, 1213, 1232, 1313, 1323, 2323, 1112, 1222, 1233,
               1113, 1322, 1333, 1123, 2223, 3323 >>
Fierz4pB == << 1112, 1113, 1123, 1212, 1213, 1323, 1222, 3323, 1232, 1233, 1313, 1322, 1333, 2223, 2323 >>

(* ---- the numbered entries, in the order of the block ------------------- *)
(* a family: operator, name in the card, part (Abs/Ph/Real), order         *)
Fam(o, name, part, ord, n) == [ op |-> o, name |-> name, part |-> part, ord |-> ord, n |-> n ]
Ab(o, name, ord) == Fam(o, name, "Abs", ord, N(o))
Ph(o, name, ord) == Fam(o, name, "Ph", ord, N(o))
Bos(o, name) == Fam(o, name, "Real", << 0 >>, 0)
Scale(name) == Fam("", name, "Scale", << 0 >>, 0)
Both(o, name, ord, ordp) == << Ab(o, name, ord), Ph(o, name, ordp) >>

FRBlockA == <<
  Ph("phil1", "cHl1", Cur2p), Ph("phil3", "cHl3", Cur2p), Ph("phie", "cHe", Cur2p), Ph("phiq1", "cHq1", Cur2p),
  Ph("phiq3", "cHq3", Cur2p), Ph("phiu", "cHu", Cur2p), Ph("phid", "cHd", Cur2p),
  Ph("ll", "cll", Same4p), Ph("qq1", "cqq1", Same4p), Ph("qq3", "cqq3", Same4p), Ph("uu", "cuu", Same4p),
  Ph("dd", "cdd", Same4p), Ph("ee", "cee", Fierz4pA),
  Ph("lq1", "clq1", Two4pA), Ph("lq3", "clq3", Two4pA), Ph("eu", "ceu", Two4pA), Ph("ed", "ced", Two4pA),
  Ph("ud1", "cud1", Two4pA), Ph("ud8", "cud8", Two4pA), Ph("le", "cle", Two4pA), Ph("lu", "clu", Two4pA),
  Ph("ld", "cld", Two4pA), Ph("qe", "cqe", Two4pA), Ph("qu1", "cqu1", Two4pA), Ph("qd1", "cqd1", Two4pA),
  Ph("qu8", "cqu8", Two4pA), Ph("qd8", "cqd8", Two4pA),
  Scale("LambdaSMEFT"),
  Bos("G", "cG"), Bos("Gtilde", "cGtil"), Bos("W", "cW"), Bos("Wtilde", "cWtil"), Bos("phi", "cH"),
  Bos("phiBox", "cHbox"), Bos("phiD", "cHDD"), Bos("phiG", "cHG"), Bos("phiGtilde", "cHGtil"), Bos("phiW", "cHW"),
  Bos("phiWtilde", "cHWtil"), Bos("phiB", "cHB"), Bos("phiBtilde", "cHBtil"), Bos("phiWB", "cHWB"),
  Bos("phiWtildeB", "cHWBtil"),
  Ab("phil1", "cHl1", Cur2), Ab("phil3", "cHl3", Cur2), Ab("phiq1", "cHq1", Cur2), Ab("phiq3", "cHq3", Cur2),
  Ab("phie", "cHe", Cur2), Ab("phiu", "cHu", Cur2), Ab("phid", "cHd", Cur2),
  Ab("ll", "cll", Same4), Ab("qq1", "cqq1", Same4), Ab("qq3", "cqq3", Same4),
  Ab("lq1", "clq1", Two4), Ab("lq3", "clq3", Two4), Ab("ee", "cee", Fierz4A), Ab("uu", "cuu", Same4),
  Ab("dd", "cdd", Same4), Ab("eu", "ceu", Two4), Ab("ed", "ced", Two4), Ab("ud1", "cud1", Two4),
  Ab("ud8", "cud8", Two4), Ab("le", "cle", Two4), Ab("lu", "clu", Two4), Ab("ld", "cld", Two4),
  Ab("qe", "cqe", Two4), Ab("qu1", "cqu1", Two4), Ab("qu8", "cqu8", Two4), Ab("qd1", "cqd1", Two4),
  Ab("qd8", "cqd8", Two4) >>

FRBlockB ==
  Both("phil1", "cHl1", Cur2, Cur2p) \o Both("phil3", "cHL3", Cur2, Cur2p) \o Both("phiq1", "cHq1", Cur2, Cur2p)
  \o Both("phiq3", "cHQ3", Cur2, Cur2p) \o Both("phiu", "cHu", Cur2, Cur2p) \o Both("phid", "cHd", Cur2, Cur2p)
  \o Both("phie", "cHe", Cur2, Cur2p)
  \o Both("ll", "cll", Same4, Same4p) \o Both("qq1", "cqq1", Same4, Same4p) \o Both("qq3", "cQQ3", Same4, Same4p)
  \o Both("lq1", "clq1", Two4, Two4pB) \o Both("lq3", "cLQ3", Two4, Two4pB)
  \o Both("uu", "cuu", Same4, Same4p) \o Both("dd", "cdd", Same4, Same4p) \o Both("ee", "cee", Fierz4B, Fierz4pB)
  \o Both("ud1", "cud1", Two4, Two4pB) \o Both("ud8", "cUD8", Two4, Two4pB) \o Both("eu", "ceu", Two4, Two4pB)
  \o Both("ed", "ced", Two4, Two4pB) \o Both("qu1", "cqu1", Two4, Two4pB) \o Both("qu8", "cQU8", Two4, Two4pB)
  \o Both("qd1", "cqd1", Two4, Two4pB) \o Both("qd8", "cQD8", Two4, Two4pB) \o Both("le", "cle", Two4, Two4pB)
  \o Both("lu", "clu", Two4, Two4pB) \o Both("ld", "cld", Two4, Two4pB) \o Both("qe", "cqe", Two4, Two4pB)

NewCoupB == <<
  Scale("Lambda"), Bos("phiBox", "cHBox"), Bos("phiD", "cHDD"), Bos("phi", "cH"), Bos("phiB", "cHB"),
  Bos("phiW", "cHW"), Bos("phiWB", "cHWB"), Bos("phiG", "cHG"), Bos("W", "cW"), Bos("G", "cG"), Bos("Wtilde", "cWtil"),
  Bos("Gtilde", "cGtil"), Bos("phiBtilde", "cHBtil"), Bos("phiWtilde", "cHWtil"), Bos("phiWtildeB", "cHWBtil"),
  Bos("phiGtilde", "cHGtil") >>

Numbered(s) == IF s = "A" THEN << [ block |-> "FRBlock", first |-> 1, fams |-> FRBlockA ] >>
               ELSE << [ block |-> "FRBlock", first |-> 1, fams |-> FRBlockB ],
                       [ block |-> "NEWCOUP", first |-> 0, fams |-> NewCoupB ] >>

(* ---- general complex matrices have blocks of their own ----------------- *)
(* operator, name, block of the moduli, block of the phases                *)
Mat(o, name, a, p) == [ op |-> o, name |-> name, abs |-> a, ph |-> p ]
MatrixBlocks(s) == IF s = "A" THEN
  { Mat("ephi", "ceH", 19, 11), Mat("uphi", "cuH", 20, 12), Mat("dphi", "cdH", 21, 13),
    Mat("eW", "ceW", 25, 2), Mat("eB", "ceB", 26, 3), Mat("uG", "cuG", 27, 4), Mat("uW", "cuW", 28, 5),
    Mat("uB", "cuB", 29, 6), Mat("dG", "cdG", 30, 7), Mat("dW", "cdW", 31, 8), Mat("dB", "cdB", 32, 9),
    Mat("phiud", "cHud", 48, 10), Mat("ledq", "cledq", 70, 14), Mat("quqd1", "cquqd1", 71, 15),
    Mat("quqd8", "cquqd8", 72, 16), Mat("lequ1", "clequ1", 73, 17), Mat("lequ3", "clequ3", 74, 18) }
  ELSE
  { Mat("ephi", "ceH", 6, 9), Mat("uphi", "cuH", 7, 10), Mat("dphi", "cdH", 8, 11),
    Mat("eW", "ceW", 15, 16), Mat("eB", "ceB", 18, 19), Mat("uG", "cuG", 21, 22), Mat("uW", "cuW", 24, 25),
    Mat("uB", "cuB", 27, 28), Mat("dG", "cdG", 30, 31), Mat("dW", "cdW", 33, 34), Mat("dB", "cdB", 36, 37),
    Mat("phiud", "cHud", 45, 46), Mat("ledq", "cledq", 69, 70), Mat("quqd1", "cquqd1", 72, 73),
    Mat("quqd8", "cQUQD8", 75, 76), Mat("lequ1", "clequ1", 78, 79), Mat("lequ3", "cLeQu3", 81, 82) }

(* ---- entries ------------------------------------------------------------ *)
RECURSIVE Cat(_, _)
Cat(t, sep) == IF t = <<>> THEN "" ELSE IF Len(t) = 1 THEN ToString(t[1])
               ELSE ToString(t[1]) \o sep \o Cat(Tail(t), sep)
(* an entry states a part of a coefficient; the coefficient of an index    *)
(* that is not the independent one is the equal or conjugate one           *)
Ent(block, code, label, part, o, t) ==
  [ block |-> block, code |-> code, label |-> label, part |-> part, op |-> o,
    t |-> IF t = <<>> THEN <<>> ELSE Rep(o, t),
    conj |-> t # <<>> /\ Conjugated(o, t) ]
PartOf(fam, t) == IF fam.part = "Abs" /\ IsReal(fam.op, t) THEN "Real" ELSE fam.part
FamEntries(block, fam, n0) ==
  { LET t == IF fam.n = 0 THEN <<>> ELSE Dig(fam.ord[k], fam.n)
    IN  Ent(block, << n0 + k - 1 >>,
            IF t = <<>> THEN fam.name ELSE fam.name \o fam.part \o Cat(t, ""),
            IF t = <<>> THEN fam.part ELSE PartOf(fam, t), fam.op, t)
    : k \in 1..Len(fam.ord) }
MatEntries(m) ==
  UNION { { Ent("FRBlock" \o ToString(m.abs), t, m.name \o "Abs" \o Cat(t, "x"), "Abs", m.op, t),
            Ent("FRBlock" \o ToString(m.ph), t, m.name \o "Ph" \o Cat(t, "x"), "Ph", m.op, t) } : t \in Idx(m.op) }

(* ---- the standard entries ----------------------------------------------- *)
St(block, code, v) == [ block |-> block, code |-> code, v |-> v ]
Ghosts == { 9000001, 9000002, 9000003, 9000004, 82, 250, 251 }
Quantum == (9000001 :> <<0, -1, 1, 1>>) @@ (9000002 :> <<0, -1, 1, 1>>) @@ (9000003 :> <<3, -1, 1, 1>>)
  @@ (9000004 :> <<-3, -1, 1, 1>>) @@ (82 :> <<0, -1, 8, 1>>) @@ (250 :> <<0, 1, 1, 0>>) @@ (251 :> <<3, 1, 1, 1>>)
Fermions == (1 :> "4.7e-3") @@ (2 :> "2.2e-3") @@ (3 :> "9.6e-2") @@ (4 :> "1.28") @@ (5 :> "4.18")
  @@ (11 :> "5.11e-4") @@ (13 :> "1.0566e-1") @@ (15 :> "1.777")
Mtop(s) == IF s = "A" THEN "173.2" ELSE "173.1"
MZ(s) == IF s = "A" THEN "91.1876" ELSE "91.1875"
MW(s, i) == IF i = "mw" THEN "80.387" ELSE IF s = "A" THEN "73.187688" ELSE "79.824234"
WW == "2.085"   WZ == "2.4952"
WLike == { 24, 9000003, 9000004, 251 }
ZLike == { 23, 9000002, 250 }
Massless == { 22, 21, 9000001, 82, 12, 14, 16 }
NoWidth == { 22, 21, 9000001, 82, 12, 14, 16, 11, 13, 15, 2, 4, 1, 3, 5 }
CkmB == << "9.7434e-1", "2.2506e-1", "3.57e-3", "2.2492e-1", "9.7351e-1", "4.11e-2", "8.75e-3", "4.03e-2", "9.9915e-1" >>
Standard(s, i) ==
  (* inputs: alpha is one in its scheme only *)
  (IF i = "alpha" THEN { St("SMINPUTS", <<1>>, IF s = "A" THEN "7.815553e-3" ELSE "127.9") } ELSE {})
  \cup { St("SMINPUTS", <<2>>, IF s = "A" THEN "1.166379e-5" ELSE "1.166370e-5"),
         St("SMINPUTS", <<3>>, IF s = "B" /\ i = "mw" THEN "0.1185" ELSE "0.1181") }
  \cup { St("MASS", <<f>>, Fermions[f]) : f \in DOMAIN Fermions }
  \cup { St("MASS", <<6>>, Mtop(s)), St("MASS", <<25>>, "125.09") }
  \cup { St("MASS", <<p>>, MZ(s)) : p \in ZLike } \cup { St("MASS", <<p>>, MW(s, i)) : p \in WLike }
  \cup { St("MASS", <<p>>, "0") : p \in Massless }
  \cup { St("DECAY", <<6>>, "1.508336"), St("DECAY", <<25>>, "4.07e-3") }
  \cup { St("DECAY", <<p>>, WZ) : p \in ZLike } \cup { St("DECAY", <<p>>, WW) : p \in WLike }
  \cup { St("DECAY", <<p>>, "0") : p \in NoWidth }
  \cup { St("CKMBLOCK", <<1>>, "2.27736e-1") }
  \cup (IF s = "A" THEN { St("CKMBLOCK", <<2>>, "2.2506e-1"), St("CKMBLOCK", <<3>>, "0.811"),
                          St("CKMBLOCK", <<4>>, "0.124"), St("CKMBLOCK", <<5>>, "0.356") }
        ELSE { St("CKMBLOCK", <<k + 1>>, CkmB[k]) : k \in 1..9 })
  \cup (IF s = "B" THEN { St("NEWCOUPAUX", <<0>>, "1") } ELSE {})
  \cup { St("YUKAWA", <<f>>, Fermions[f]) : f \in DOMAIN Fermions } \cup { St("YUKAWA", <<6>>, Mtop(s)) }
  \cup { St("QNUMBERS " \o ToString(g), <<k>>, ToString(Quantum[g][k])) : g \in Ghosts, k \in 1..4 }
  (* the W mass is an input of the mw scheme *)
  \cup (IF s = "A" /\ i = "mw" THEN { St("FRBLOCK", <<1475>>, "80.387") } ELSE {})

(* ---- the machine -------------------------------------------------------- *)
VARIABLES set, scheme, blk, pos, num, card, mats
cvars == << op, done, table, set, scheme, blk, pos, num, card, mats >>
CInit == /\ op = "uphi" /\ done = FALSE /\ table = << >>
        /\ set \in Sets /\ scheme \in Schemes
        /\ blk = 1 /\ pos = 1 /\ num = Numbered(set)[1].first /\ card = {} /\ mats = {}
Here == Numbered(set)[blk]
WriteFamily == /\ blk <= Len(Numbered(set)) /\ pos <= Len(Here.fams)
               /\ card' = card \cup FamEntries(Here.block, Here.fams[pos], num)
               /\ num' = num + Len(Here.fams[pos].ord) /\ pos' = pos + 1
               /\ UNCHANGED << set, scheme, blk, mats >>
NextBlock == /\ blk <= Len(Numbered(set)) /\ pos > Len(Here.fams)
             /\ blk' = blk + 1 /\ pos' = 1
             /\ num' = IF blk < Len(Numbered(set)) THEN Numbered(set)[blk + 1].first ELSE 0
             /\ UNCHANGED << set, scheme, card, mats >>
WriteMatrices == /\ blk > Len(Numbered(set)) /\ mats = {}
                 /\ mats' = { m.op : m \in MatrixBlocks(set) }
                 /\ card' = card \cup UNION { MatEntries(m) : m \in MatrixBlocks(set) }
                 /\ UNCHANGED << set, scheme, blk, pos, num >>
CNext == (WriteFamily \/ NextBlock \/ WriteMatrices) /\ UNCHANGED << op, done, table >>
CSpec == CInit /\ [][CNext]_cvars
Done == mats # {}

Places == { << e.block, e.code >> : e \in card }
(* no place is used twice, no label either *)
OncePlaced == Cardinality(Places) = Cardinality(card)
OnceLabelled == Cardinality({ e.label : e \in card }) = Cardinality(card)
(* a coefficient is never stated twice *)
OnceStated == Cardinality({ << e.part, e.op, e.t >> : e \in card }) = Cardinality(card)
(* every coefficient is stated completely: modulus and phase, or the real  *)
(* value if it is real                                                     *)
CardOps == Conserving \ { "llphiphi" }
Needed == { << "Real", b, << >> >> : b \in Bosonic }
  \cup UNION { UNION { IF IsReal(o, t) THEN { << "Real", o, t >> } ELSE { << "Abs", o, t >>, << "Ph", o, t >> }
                       : t \in Independent(o) } : o \in CardOps }
  \cup { << "Scale", "", << >> >> }
AllStated == Done => { << e.part, e.op, e.t >> : e \in card } = Needed
(* one real number of the card for each of the 2499 parameters, and the    *)
(* cutoff scale                                                            *)
Count == Done => Cardinality(card) = 2500
(* phases only of coefficients whose label's index is not the conjugate    *)
NotConjugated == \A e \in card : ~e.conj
(* the standard entries do not collide with those of the coefficients      *)
Upper == { "FRBLOCK" }
StandardApart == Done /\ set = "A" => << "FRBlock", <<1475>> >> \notin Places
StandardOnce == LET P == Standard(set, scheme) IN Cardinality({ << x.block, x.code >> : x \in P }) = Cardinality(P)
(* the schemes differ in what concerns the W mass and alpha only           *)
SchemesDiffer == LET P(i) == { x \in Standard(set, i) : ~(x.block = "MASS" /\ x.code[1] \in WLike)
                               /\ x.block # "SMINPUTS" /\ x.block # "FRBLOCK" }
                 IN  P("alpha") = P("mw")

CEmit == (Done /\ set = "B" /\ scheme = "mw") =>
  JsonSerialize(IOEnv.OUT, [ standard |-> [ s \in Sets |-> [ i \in Schemes |-> Standard(s, i) ] ] ])
EmitCards == (Done /\ scheme = "alpha") => JsonSerialize(IOEnv.OUT \o set, [ card |-> card ])
=============================================================================
