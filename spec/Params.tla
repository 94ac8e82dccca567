------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameters of translations and matchings (C17).  The state holds the    *)
(* default parameters, the mapping the user passes, and the last call.  A  *)
(* call sees the defaults overridden by what it is given, its result is a  *)
(* function of the parameters the conversion depends on, and a call leaves *)
(* both mappings as they are.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Ckm == { "Vus", "Vub", "Vcb", "gamma" }
Run == { "m_b", "alpha_s" }
Names == Ckm \cup { "m_W", "m_Z", "GF", "alpha_e", "alpha_s", "m_b", "m_s", "m_e", "m_mu", "m_tau" }
(* conversions and the parameters their results depend on *)
Dep ==
  "Warsaw-Warsaw up" :> Ckm @@ "Warsaw up-Warsaw" :> Ckm @@ "Warsaw-Warsaw mass" :> Ckm
  @@ "Warsaw up-JMS" :> Ckm \cup { "m_W", "m_Z", "GF", "alpha_e" }
  @@ "Warsaw-JMS" :> Ckm \cup { "m_W", "m_Z", "GF", "alpha_e" }
  @@ "Warsaw-flavio" :> Ckm \cup Run \cup { "m_W", "m_Z", "GF", "alpha_e" }
  @@ "Warsaw-Bern" :> Ckm \cup Run \cup { "m_W", "m_Z", "GF", "alpha_e" }
  @@ "Warsaw-EOS" :> Ckm \cup Run \cup { "m_W", "m_Z", "GF", "alpha_e", "m_s" }
  @@ "JMS-Bern" :> Run \cup { "GF", "alpha_e" }
  @@ "JMS-flavio" :> Ckm \cup Run \cup { "GF", "alpha_e" }
  @@ "JMS-EOS" :> Ckm \cup Run \cup { "GF", "alpha_e", "m_s" }
  @@ "JMS-formflavor" :> { "alpha_e", "alpha_s" }
  @@ "Bern-flavio" :> Ckm \cup Run \cup { "GF", "alpha_e" } @@ "flavio-Bern" :> Ckm \cup Run \cup { "GF", "alpha_e" }
  @@ "JMS-FlavorKit" :> { "alpha_e", "m_e", "m_mu", "m_tau" } @@ "FlavorKit-JMS" :> { "alpha_e", "m_e", "m_mu", "m_tau" }
  @@ "FlavorKit-flavio" :> Ckm \cup Run \cup { "GF", "alpha_e" }
Conv == DOMAIN Dep

(* values: 0 the default, 1 and 2 others, 3 the number zero, 4 another type of number *)
Zeroable == { "Vub", "Vcb", "m_s" }
(* a result that is divided by a CKM element has no value without it *)
Divides == { "Warsaw-flavio", "Warsaw-EOS", "JMS-flavio", "JMS-EOS", "Bern-flavio", "flavio-Bern", "FlavorKit-flavio" }
Defined(c, u) == c \in Divides => \A n \in DOMAIN u : u[n] = 3 => n \notin { "Vub", "Vcb" }
CONSTANTS MaxUser, MaxCalls
Default == [ n \in Names |-> 0 ]
(* how the parameters are given: not at all, an empty mapping, the user's  *)
(* mapping, the user's completed by all defaults, or by some               *)
Modes == { "none", "empty", "user", "full", "some" }
VARIABLES defaults, user, call, calls
vars == << defaults, user, call, calls >>
Over(m, d) == [ n \in Names |-> IF n \in DOMAIN m THEN m[n] ELSE d[n] ]
Given(mode, u) == IF mode \in { "none", "empty" } THEN [ n \in {} |-> 0 ] ELSE u
Eff(mode) == Over(Given(mode, user), defaults)
Result(c, eff) == [ c |-> c, p |-> [ n \in Dep[c] |-> eff[n] ] ]
NoCall == [ c |-> "", mode |-> "", res |-> << >> ]
Init == defaults = Default /\ user = [ n \in {} |-> 0 ] /\ call = NoCall /\ calls = 0
Set(n, x) == /\ x = 3 => n \in Zeroable
             /\ n \notin DOMAIN user => Cardinality(DOMAIN user) < MaxUser
             /\ user' = (n :> x) @@ user /\ call' = NoCall /\ UNCHANGED << defaults, calls >>
Unset(n) == /\ n \in DOMAIN user
            /\ user' = [ m \in DOMAIN user \ { n } |-> user[m] ] /\ call' = NoCall /\ UNCHANGED << defaults, calls >>
Call(c, mode) == /\ calls < MaxCalls
                 /\ Defined(c, Given(mode, user))
                 /\ call' = [ c |-> c, mode |-> mode, res |-> Result(c, Eff(mode)) ]
                 /\ calls' = calls + 1 /\ UNCHANGED << defaults, user >>
Do(a) == CASE a[1] = "set" -> Set(a[2], a[3]) [] a[1] = "unset" -> Unset(a[2]) [] a[1] = "call" -> Call(a[2], a[3])
Acts == ({ "set" } \X Names \X (0..4)) \cup ({ "unset" } \X Names \X { 0 }) \cup ({ "call" } \X Conv \X Modes)
Next == \E a \in Acts : Do(a)
Spec == Init /\ [][Next]_vars

Called == call.c # ""
DefaultsKept == defaults = Default
(* what is passed counts, what is not passed is the default *)
Override == Called => \A n \in Dep[call.c] :
    call.res.p[n] = IF call.mode \in { "user", "full", "some" } /\ n \in DOMAIN user THEN user[n] ELSE 0
(* all ways of passing the same parameters agree *)
SameResult == Called => \A m \in { "user", "full", "some" } : call.mode \in { "user", "full", "some" } =>
    call.res = Result(call.c, Over(Given(m, user), Default))
(* nothing passed where nothing differs is the same as passing it *)
NoChange == (Called /\ \A n \in DOMAIN user : user[n] = 0) => call.res = Result(call.c, Default)
(* the next call without parameters uses the defaults again *)
Again == [][ \A c \in Conv : (call'.c = c /\ call'.mode \in { "none", "empty" }) => call'.res = Result(c, Default) ]_vars
Relevant == { n \in Names : \E c \in Conv : n \in Dep[c] } = Names

Rep == [ lvl |-> TLCGet("level"), user |-> { [ n |-> n, x |-> user[n] ] : n \in DOMAIN user }, c |-> call.c, mode |-> call.mode,
         eff |-> IF Called THEN { [ n |-> n, x |-> Eff(call.mode)[n] ] : n \in { m \in Names : Eff(call.mode)[m] # 0 } } ELSE {},
         dep |-> IF Called THEN Dep[call.c] ELSE {} ]
EmitAll == TLCGet("level") >= 1 => CSVWrite("%1$s", << ToJson(Rep) >>, IOEnv.OUT)
EmitSim == TLCGet("level") > 1 => CSVWrite("%1$s", << ToJson(Rep) >>, IOEnv.OUT)
=============================================================================
