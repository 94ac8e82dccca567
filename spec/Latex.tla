------------------------------- MODULE Latex --------------------------------
(***************************************************************************)
(* The LaTeX part of validating a basis: a document with the code of all   *)
(* coefficients is written to a temporary directory, an external latex     *)
(* program (which may be missing, succeed or fail, and may or may not      *)
(* write a usable log) is run on it, its verdict is read and the directory *)
(* is removed.  Properties: C21 (and the LaTeX part of C04).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen      \* number of coefficients in a basis

(* behaviours of the program; "denied" and "noexec" are found but cannot   *)
(* be run; during "interrupt" the user interrupts the check; "judge"       *)
(* compiles the document: it fails if some code is bad or if the formulas  *)
(* are not delimited                                                       *)
Tools == { "absent", "denied", "noexec", "interrupt", "ok", "oknolog", "okbinlog", "okerrlog", "judge",
           "undefined", "emergency", "nolog", "emptylog", "truncated", "otherlog", "binlog", "killed", "later",
           "fileline", "indented" }
Failing == { "undefined", "emergency", "nolog", "emptylog", "truncated", "otherlog", "binlog", "killed", "later",
             "fileline", "indented" }

(* logs that state an error the user should be told; in "later" it comes   *)
(* after unrelated text and is followed by another one; in "fileline" and  *)
(* "indented" it does not start its line                                   *)
Stating == { "undefined", "emergency", "truncated", "binlog", "later", "fileline", "indented" }

(* kinds of coefficient definitions; "lone" is text that no encoding has   *)
Kinds == { "none", "notex", "empty", "good", "bad", "accents", "lone" }
Code(k) == k \in { "empty", "good", "bad", "accents", "lone" }
Bases == UNION { [ 1..n -> Kinds ] : n \in 0..MaxLen }

(* The document body as TeX reads it: every non-empty code between two $.  *)
(* An empty code must not be written as $$, which is a displayed equation. *)
Shown(k) == k \in { "good", "bad", "accents", "lone" }
RECURSIVE Body(_)
Body(b) == IF b = << >> THEN << >>
           ELSE IF Shown(Head(b)) THEN << "$", Head(b), "$", "," >> \o Body(Tail(b)) ELSE Body(Tail(b))
RECURSIVE Tex(_, _)
Tex(mode, d) ==
  IF d = << >> THEN mode
  ELSE IF Head(d) # "$" THEN Tex(IF Head(d) = "bad" THEN "error" ELSE mode, Tail(d))
  ELSE LET two == Len(d) > 1 /\ d[2] = "$" IN
       CASE mode = "error" -> "error"
         [] mode = "inline" -> Tex("text", Tail(d))
         [] mode = "display" -> IF two THEN Tex("text", Tail(Tail(d))) ELSE "error"
         [] OTHER -> IF two THEN Tex("display", Tail(Tail(d))) ELSE Tex("inline", Tail(d))
Compiles(b) == Tex("text", Body(b)) = "text"

VARIABLES tool, basis, pc, tmp, seen, verdict, quoted
vars == <<tool, basis, pc, tmp, seen, verdict, quoted>>

Init == /\ tool \in Tools /\ basis \in Bases
        /\ pc = "start" /\ tmp = {} /\ seen = <<>> /\ verdict = "none" /\ quoted = FALSE

IsBad(k) == k = "bad"
Bad(s) == \E i \in 1..Len(s) : IsBad(s[i])
MkDir == pc = "start" /\ tmp' = {"dir"} /\ pc' = "write" /\ UNCHANGED <<tool, basis, seen, verdict, quoted>>
IsLone(k) == k = "lone"
Lone(s) == \E i \in 1..Len(s) : IsLone(s[i])
(* the document may be impossible to write; what is reported then is open  *)
Write == /\ pc = "write" /\ tmp' = tmp \cup {"tex"}
         /\ IF Lone(basis) THEN pc' = "clean" /\ verdict' = "any" ELSE pc' = "run" /\ UNCHANGED verdict
         /\ UNCHANGED <<tool, basis, seen, quoted>>
Missing == { "absent", "denied", "noexec" }
Interrupt == /\ pc = "run" /\ tool = "interrupt"
             /\ verdict' = "interrupted" /\ pc' = "clean" /\ UNCHANGED <<tool, basis, tmp, seen, quoted>>
RunAbsent == /\ pc = "run" /\ tool \in Missing
             /\ verdict' = "ok" /\ pc' = "clean" /\ UNCHANGED <<tool, basis, tmp, seen, quoted>>
RunLatex == /\ pc = "run" /\ tool \notin Missing \cup { "interrupt" }
            /\ seen' = SelectSeq(basis, Code)
            /\ tmp' = tmp \cup (IF tool \in {"oknolog", "nolog"} THEN {} ELSE {"log"})
            /\ verdict' = IF tool \in Failing \/ (tool = "judge" /\ ~Compiles(basis)) THEN "ValueError" ELSE "ok"
            /\ quoted' = (tool \in Stating \/ (tool = "judge" /\ Bad(basis)))
            /\ pc' = "clean" /\ UNCHANGED <<tool, basis>>
Clean == pc = "clean" /\ tmp' = {} /\ pc' = "done" /\ UNCHANGED <<tool, basis, seen, verdict, quoted>>
Next == MkDir \/ Write \/ Interrupt \/ RunAbsent \/ RunLatex \/ Clean
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
NothingLeft == pc = "done" => tmp = {}
VerdictIsLatexs == pc = "done" /\ ~Lone(basis) =>
   (verdict = "ValueError" <=> tool \in Failing \/ (tool = "judge" /\ Bad(basis)))
QuotedOnlyIfRefused == quoted => verdict = "ValueError"
AllHandedOver == pc = "done" /\ tool \notin Missing \cup { "interrupt" } /\ ~Lone(basis) =>
   Len(seen) = Cardinality({ i \in 1..Len(basis) : Code(basis[i]) })
(* the document compiles unless some code does not *)
OnlyBadCodeFails == Compiles(basis) <=> ~Bad(basis)
Terminates == <>(pc = "done")

Emit == pc = "done" =>
   CSVWrite("%1$s", <<ToJson([ tool |-> tool, basis |-> basis, seen |-> seen, verdict |-> verdict, quoted |-> quoted ])>>, IOEnv.OUT)
=============================================================================
