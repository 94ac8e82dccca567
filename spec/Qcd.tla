--------------------------------- MODULE Qcd --------------------------------
(***************************************************************************)
(* The running QCD parameters.  A value lives in the theory with nf        *)
(* flavours at a scale; it can be run to another scale at fixed nf and be  *)
(* matched onto the theory with one flavour less or more at the threshold  *)
(* of that flavour.  Answering a query (quantity, flavours, scale) means   *)
(* walking from the input to the target; the specification also has the    *)
(* history of queries, whose answers never depend on one another.          *)
(* Property C16.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS MaxQueries

Quantities == { "alpha_s", "m_b", "m_c", "m_s" }
(* where the input is given: flavours and scale (mq = the mass itself)     *)
StartNf == "alpha_s" :> 5 @@ "m_b" :> 5 @@ "m_c" :> 4 @@ "m_s" :> 3
StartMu == "alpha_s" :> "MZ" @@ "m_b" :> "mq" @@ "m_c" :> "mq" @@ "m_s" :> "2"
MaxNf == "alpha_s" :> 6 @@ "m_b" :> 6 @@ "m_c" :> 5 @@ "m_s" :> 5
(* the threshold between nf - 1 and nf flavours, in units of 0.1 GeV       *)
Threshold == 4 :> 13 @@ 5 :> 48 @@ 6 :> 1700
Allowed(q, f) == f \in 3..MaxNf[q]

Run(nf, mu) == [ do |-> "run", nf |-> nf, mu |-> mu, th |-> 0 ]
Down(nf) == [ do |-> "down", nf |-> nf, mu |-> "th", th |-> Threshold[nf] ]        \* nf -> nf-1
Up(nf) == [ do |-> "up", nf |-> nf, mu |-> "th", th |-> Threshold[nf + 1] ]        \* nf -> nf+1
(* a mass walking up takes the coupling of the theory it has entered from  *)
(* the coupling's own input before it walks on                             *)
Anchor(nf) == [ do |-> "anchor", nf |-> nf, mu |-> "th", th |-> Threshold[nf] ]
RunTh(nf, t) == [ do |-> "run", nf |-> nf, mu |-> "th", th |-> t ]

VARIABLES q, f, nf, at, steps, pc, hist
vars == <<q, f, nf, at, steps, pc, hist>>
(* query world of the histories                                            *)
Scales == { 1, 2, 3 }
Inputs == { 1, 2, 3 }
(* queries may be almost the same as another one: an input that is next to *)
(* the one of the same number                                              *)
Near == { "none", "scale", "as", "mass" }

Idle == pc = "idle"
Init == /\ q = "alpha_s" /\ f = 5 /\ nf = 5 /\ at = "MZ" /\ steps = << >> /\ pc = "idle" /\ hist = << >>
Ask(qq, ff, s, a, m, n) ==
   /\ Idle /\ Len(hist) < MaxQueries
   /\ q' = qq /\ f' = ff
   /\ nf' = StartNf[qq] /\ at' = StartMu[qq] /\ steps' = << >>
   /\ pc' = IF Allowed(qq, ff) THEN "walk" ELSE "refused"
   /\ hist' = Append(hist, [ q |-> qq, f |-> ff, scale |-> s, as |-> a, mass |-> m, near |-> n ])
Cross == /\ pc = "walk" /\ nf # f
         /\ IF f < nf THEN steps' = steps \o << RunTh(nf, Threshold[nf]), Down(nf) >> /\ nf' = nf - 1
                      ELSE steps' = steps \o (IF q # "alpha_s" /\ nf # StartNf[q] THEN << Anchor(nf) >> ELSE << >>)
                                          \o << RunTh(nf, Threshold[nf + 1]), Up(nf) >> /\ nf' = nf + 1
         /\ at' = "th" /\ UNCHANGED <<q, f, pc, hist>>
Arrive == /\ pc = "walk" /\ nf = f
          /\ steps' = Append(steps, Run(nf, "mu")) /\ at' = "mu" /\ pc' = "answered"
          /\ UNCHANGED <<q, f, nf, hist>>
Ready == pc \in {"answered", "refused"} /\ pc' = "idle" /\ UNCHANGED <<q, f, nf, at, steps, hist>>
Next == (\E qq \in Quantities, ff \in 2..7, s \in Scales, a \in Inputs, m \in Inputs, n \in Near : Ask(qq, ff, s, a, m, n))
        \/ Cross \/ Arrive \/ Ready
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
abs(x) == IF x < 0 THEN -x ELSE x
Crossings == { i \in 1..Len(steps) : steps[i].do \in {"up", "down"} }
(* each threshold between the input and the target is crossed exactly once, in order *)
Minimal == pc = "answered" =>
             /\ Cardinality(Crossings) = abs(f - StartNf[q])
             /\ \A i, j \in Crossings : i # j => steps[i].th # steps[j].th
             /\ \A i, j \in Crossings : (i < j /\ f < StartNf[q]) => steps[i].th > steps[j].th
             /\ \A i, j \in Crossings : (i < j /\ f > StartNf[q]) => steps[i].th < steps[j].th
(* at a threshold the value is at the threshold; running never changes nf  *)
Connected == \A i \in Crossings : i > 1 /\ steps[i-1].do = "run" /\ steps[i-1].th = steps[i].th
                                  /\ steps[i-1].nf = steps[i].nf
EndsThere == pc = "answered" => nf = f /\ at = "mu" /\ steps[Len(steps)].nf = f
RefusedOnlyOutside == pc = "refused" <=> (pc # "idle" /\ pc # "walk" /\ pc # "answered")
NeverRefused == (pc = "refused") => ~Allowed(q, f)

(* plans, one per quantity and flavour number (independent of the history) *)
EmitPlan == (pc \in {"answered", "refused"} /\ Len(hist) = 1 /\ hist[1].scale = 1 /\ hist[1].as = 1 /\ hist[1].mass = 1 /\ hist[1].near = "none") =>
   CSVWrite("%1$s", << ToJson([ q |-> q, f |-> f, ok |-> pc = "answered", steps |-> steps,
                                start |-> StartMu[q], startnf |-> StartNf[q] ]) >>, IOEnv.OUT)
(* histories                                                               *)
EmitHist == (Idle /\ Len(hist) = MaxQueries) => CSVWrite("%1$s", << ToJson(hist) >>, IOEnv.OUT)
=============================================================================
