------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Wilson coefficient values as they stand in a file and the numbers they  *)
(* denote.  A number is a pair of named reals; a value is a plain number,  *)
(* a number YAML delivered as text, or a mapping with optional Re and Im,  *)
(* each of them possibly text as well.  Property: C07.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

Reals == { "0", "-0", "1", "-1", "third", "int7", "-int3", "bigint", "tiny", "min", "-min", "eps", "max", "-max", "pi", "1e-3", "1e16" }
IsZero(r) == r \in {"0", "-0"}

(* value forms; "absent" marks a missing part of the mapping               *)
Plain(r)    == [ f |-> "plain", re |-> r, im |-> "absent", txt |-> {} ]
Text(r)     == [ f |-> "text", re |-> r, im |-> "absent", txt |-> {} ]
Mapped(a, b, t) == [ f |-> "map", re |-> a, im |-> b, txt |-> t ]   \* t: the parts that are text
Mapping(a, b) == Mapped(a, b, {})
Parts == Reals \cup {"absent"}
Values == { Plain(r) : r \in Reals } \cup { Text(r) : r \in Reals }
          \cup { v \in { Mapped(a, b, t) : a \in Parts, b \in Parts, t \in SUBSET { "re", "im" } } :
                   (v.re = "absent" => "re" \notin v.txt) /\ (v.im = "absent" => "im" \notin v.txt) }

Part(x) == IF x = "absent" THEN "0" ELSE x
Number(v) == << Part(v.re), Part(v.im) >>          \* what a value denotes
Numbers == Reals \X Reals
(* the value written for a number                                          *)
Value(z) == IF IsZero(z[2]) THEN Plain(z[1]) ELSE Mapping(z[1], z[2])

Eq(x, y) == x = y \/ (IsZero(x) /\ IsZero(y))
EqN(z, y) == Eq(z[1], y[1]) /\ Eq(z[2], y[2])

VARIABLES todo
Init == todo \in ({ <<"read", v>> : v \in Values } \cup { <<"write", z>> : z \in Numbers })
Next == UNCHANGED todo
Spec == Init /\ [][Next]_todo

(* writing a number and reading it back is the identity                    *)
RoundTrip == todo[1] = "write" => EqN(Number(Value(todo[2])), todo[2])
(* reading, writing and reading again is reading                           *)
Stable == todo[1] = "read" => EqN(Number(Value(Number(todo[2]))), Number(todo[2]))
(* reals become plain numbers, others mappings                             *)
Canonical == todo[1] = "write" => (Value(todo[2]).f = "plain" <=> IsZero(todo[2][2]))

Emit == CSVWrite("%1$s", <<ToJson(IF todo[1] = "read"
          THEN [ t |-> "read", v |-> todo[2], number |-> Number(todo[2]) ]
          ELSE [ t |-> "write", z |-> todo[2], value |-> Value(todo[2]) ])>>, IOEnv.OUT)
=============================================================================
