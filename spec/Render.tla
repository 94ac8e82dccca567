------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Printing of bases and Wilson coefficient objects: the tables are built  *)
(* row by row from the object; when done, the printed rows are exactly the *)
(* coefficients of the object.  Property: C22.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANT MaxLen

(* a coefficient definition: attributes it has; type is R only if real=TRUE *)
Defs == { "none", "empty", "real", "notreal", "tex", "textreal", "texnot" }
TypeOf(d) == IF d \in {"real", "textreal"} THEN "R" ELSE "C"
TexOf(d)  == IF d \in {"tex", "textreal", "texnot"} THEN "code" ELSE "nothing"
Sector == UNION { [ 1..n -> Defs ] : n \in 0..MaxLen }
Metas == { "absent", "nodescription", "description" }

VARIABLES meta, secs, si, ci, rows   \* rows: sequence of <<sector, coefficient, tex, type>>
vars == <<meta, secs, si, ci, rows>>
Init == /\ meta \in Metas
        /\ secs \in UNION { [ 1..n -> Sector ] : n \in 0..2 }
        /\ si = 1 /\ ci = 1 /\ rows = <<>>
Row   == /\ si <= Len(secs) /\ ci <= Len(secs[si])
         /\ rows' = Append(rows, [ s |-> si, c |-> ci, tex |-> TexOf(secs[si][ci]), type |-> TypeOf(secs[si][ci]) ])
         /\ ci' = ci + 1 /\ UNCHANGED <<meta, secs, si>>
NextSector == /\ si <= Len(secs) /\ ci > Len(secs[si]) /\ si' = si + 1 /\ ci' = 1
              /\ UNCHANGED <<meta, secs, rows>>
Next == Row \/ NextSector
Spec == Init /\ [][Next]_vars

Done == si > Len(secs)
Total == LET F[i \in 0..Len(secs)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(secs[i]) IN F[Len(secs)]
Complete == Done => Len(rows) = Total
InOrder == \A i, j \in 1..Len(rows) : i < j =>
             rows[i].s < rows[j].s \/ (rows[i].s = rows[j].s /\ rows[i].c < rows[j].c)
Emit == Done => CSVWrite("%1$s", <<ToJson([ meta |-> meta, secs |-> secs, rows |-> rows ])>>, IOEnv.OUT)
=============================================================================
