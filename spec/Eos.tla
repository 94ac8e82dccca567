--------------------------------- MODULE Eos --------------------------------
(***************************************************************************)
(* Conversion of a Wilson coefficient object to EOS parameters.  The EOS   *)
(* installation has parameter files, some of them relevant; each parameter *)
(* is a real number: a whole coefficient, or the real or imaginary part of *)
(* one, possibly for a generic lepton.  The converter reads the files in   *)
(* any order and adds the object's contribution.  Property C18.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

(* values of a coefficient in the object                                   *)
Absent == "absent"
Present == { "zero", "real", "imag", "cplx" }
Vals == Present \cup { Absent }
Relevance == { "true", "false", "nokey", "nometa" }

(* parameters in the two files                                             *)
P(file, chan, part) == [ file |-> file, chan |-> chan, part |-> part ]
Params == { P(1, "fcnc", "plain"), P(1, "fcnc2", "Re"), P(1, "fcnc2", "Im"),
            P(2, "cc", "Re"), P(2, "cc", "Im") }

VARIABLES rel, parts, plain, own, gen, el, mu, read, sm, result
vars == <<rel, parts, plain, own, gen, el, mu, read, sm, result>>
(* the installation may list one part of a charged-current coefficient only *)
Listed(f) == { p \in Params : p.file = f /\ (p.chan = "cc" => p.part \in parts) }
Init == /\ rel \in [ 1..2 -> Relevance ]
        /\ parts \in { {"Re", "Im"}, {"Re"}, {"Im"} }
        /\ (rel[2] # "true" => parts = {"Re", "Im"})
        /\ plain \in Vals            \* coefficient named like the plain parameter
        /\ own \in Vals              \* coefficient whose parts are parameters
        /\ gen \in { Absent, "cplx" } \* generic-lepton coefficient in the object itself
        /\ el \in Vals /\ mu \in Vals \* electron and muon coefficients
        /\ (gen # Absent => el = Absent /\ mu = Absent)
        /\ (rel[1] # "true" => plain = "cplx" /\ own = "cplx")
        /\ read = {} /\ sm = {} /\ result = << "none" >>

Read == /\ result = << "none" >>
        /\ \E f \in 1..2 : /\ f \notin read
                           /\ read' = read \cup {f}
                           /\ sm' = IF rel[f] = "true" THEN sm \cup Listed(f) ELSE sm
        /\ UNCHANGED <<rel, parts, plain, own, gen, el, mu, result>>

(* an absent coefficient counts as zero                                    *)
Num(v) == IF v = Absent THEN "zero" ELSE v
Np(p) == CASE p.chan = "fcnc" -> << Num(plain), "Re" >>
           [] p.chan = "fcnc2" -> << Num(own), p.part >>
           [] p.chan = "cc" -> IF gen # Absent THEN << gen, p.part >>
                               ELSE << Num(el), p.part >>
Clash(p) == p.chan = "cc" /\ gen = Absent /\ Num(el) # Num(mu)
Convert == /\ read = {1, 2} /\ result = << "none" >>
           /\ result' = IF \E p \in sm : Clash(p) THEN << "error" >>
                        ELSE << "ok", { [ p |-> p, np |-> Np(p) ] : p \in sm } >>
           /\ UNCHANGED <<rel, parts, plain, own, gen, el, mu, read, sm>>
Next == Read \/ Convert
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == result # << "none" >>
OrderIndependent == read = {1, 2} => sm = UNION { Listed(f) : f \in { g \in 1..2 : rel[g] = "true" } }
ErrorOnlyForCC == (Done /\ result[1] = "error") => rel[2] = "true" /\ Num(el) # Num(mu)
UniversalFine == (Done /\ Num(el) = Num(mu)) => result[1] = "ok"
ZeroGivesSM == (Done /\ result[1] = "ok" /\ Num(plain) = "zero" /\ Num(own) = "zero" /\ Num(gen) = "zero" /\ Num(el) = "zero")
                  => \A x \in result[2] : x.np[1] = "zero"
Emit == Done => CSVWrite("%1$s", << ToJson(
   [ rel |-> rel, parts |-> parts, plain |-> plain, own |-> own, gen |-> gen, el |-> el, mu |-> mu,
     ok |-> result[1] = "ok", res |-> IF result[1] = "ok" THEN result[2] ELSE {} ]) >>, IOEnv.OUT)
=============================================================================
