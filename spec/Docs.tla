-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* WCxf documents travelling between objects in memory, JSON text and YAML *)
(* text: dumping, loading and converting.  Whatever the route, the content *)
(* stays the same.  Contents are trees over a vocabulary of scalars that   *)
(* are known to be awkward for serializers.  Properties: C01 C02.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxOps,     \* length of the routes
          Depth       \* nesting depth of the generated shapes

-----------------------------------------------------------------------------
(* trees                                                                   *)
Leaf(s)   == [ t |-> "leaf", v |-> s ]
List(q)   == [ t |-> "list", v |-> q ]
Map(q)    == [ t |-> "map", v |-> q ]          \* q: sequence of <<key, tree>>

Scalars == {
  \* text that looks like something else
  "s:yes", "s:no", "s:true", "s:null", "s:~", "s:empty", "s:1", "s:1.0", "s:1e5", "s:1e-3", "s:1_000",
  "s:0x10", "s:0o7", "s:010", "s:.inf", "s:.nan", "s:date", "s:timestamp", "s:sexagesimal", "s:=", "s:<<",
  "s:dash", "s:colon", "s:hash", "s:brace", "s:bracket", "s:star", "s:amp", "s:bang", "s:pipe", "s:percent",
  "s:at", "s:backtick", "s:quote", "s:dquote", "s:backslash", "s:tex", "s:newline", "s:trailnl", "s:leadspace",
  "s:trailspace", "s:tab", "s:cr", "s:unicode", "s:astral", "s:nbsp", "s:nel", "s:ctrl", "s:long", "s:doc",
  "s:plain", "s:question", "s:comma", "s:json", "s:indent", "s:env", "s:home", "s:format", "s:include", "s:entity",
  "s:tabs", "s:bom", "s:upper", "s:path", "s:slashes", "s:jsonnum", "s:infinity", "s:comment", "s:listlike", "s:blank",
  \* numbers
  "n:0", "n:1", "n:-1", "n:big", "n:0.0", "n:0.1", "n:-2.5", "n:1e-5", "n:1e-300", "n:min", "n:max", "n:1e16",
  "n:1e22", "n:third", "n:intfloat", "n:inf", "n:-inf", "n:digits", "n:-0.0", "n:2e53", "n:-big", "n:1e-12",
  "b:true", "b:false", "null", "emptymap", "emptylist" }

(* every scalar in every context                                           *)
K(k, x) == Map(<< <<k, x>> >>)
Contexts(s) == {
  Leaf(s), List(<<Leaf(s)>>), List(<<Leaf("s:plain"), Leaf(s)>>), K("k", Leaf(s)),
  Map(<< <<"k", Leaf(s)>>, <<"l", Leaf("n:1")>> >>),
  List(<<K("k", Leaf(s))>>), K("k", List(<<Leaf(s), Leaf(s)>>)), List(<<List(<<Leaf(s)>>)>>),
  K("k", K("k", Leaf(s))), K(s, Leaf("n:1")), K("k", K(s, Leaf("null"))) }
InContext == UNION { Contexts(s) : s \in Scalars }

(* every shape up to a depth; "*" is an arbitrary scalar                   *)
RECURSIVE Shapes(_)
Shapes(d) == IF d = 0 THEN { Leaf("*") } ELSE
  LET S == Shapes(d - 1) IN
  { Leaf("*"), List(<<>>), Map(<<>>) }
  \cup { List(<<x>>) : x \in S } \cup { Map(<< <<"k", x>> >>) : x \in S }
  \cup { List(<<x, y>>) : x \in S, y \in S }
  \cup { Map(<< <<"k", x>>, <<"l", y>> >>) : x \in S, y \in S }
Trees == InContext \cup Shapes(Depth)

(* documents with the fields of WCxf files: a complete file of each kind   *)
(* with one field absent or of any of these shapes, at its usual place or  *)
(* first                                                                   *)
N1 == Leaf("n:0.1")
Coeff == { Leaf("null"), Leaf("emptymap"), Leaf("emptylist"), Leaf("n:0"), Leaf("n:1"), Leaf("n:0.0"), Leaf("n:1e-5"),
           Leaf("n:intfloat"), Leaf("n:big"), Leaf("s:1e-3"), Leaf("s:1"), Leaf("s:plain"), Leaf("s:empty"),
           Leaf("b:true"), Leaf("b:false"),
           K("tex", Leaf("s:tex")), K("tex", Leaf("s:empty")), K("tex", Leaf("null")), K("real", Leaf("b:true")),
           Map(<< <<"tex", Leaf("s:tex")>>, <<"real", Leaf("b:false")>> >>),
           K("Re", N1), K("Im", N1), K("Re", Leaf("n:0")), K("Im", Leaf("n:0.0")), K("Re", Leaf("s:1e-3")),
           Map(<< <<"Re", N1>>, <<"Im", Leaf("n:1")>> >>), Map(<< <<"Im", N1>>, <<"Re", Leaf("n:0.0")>> >>),
           Map(<< <<"Re", N1>>, <<"Im", Leaf("n:0.0")>> >>), Map(<< <<"Re", N1>>, <<"Im", Leaf("null")>> >>) }
Fields == Coeff
  \cup { K("s", c) : c \in Coeff } \cup { K("s", K("C", c)) : c \in Coeff }
  \cup { Map(<< <<"s", Leaf("emptymap")>>, <<"t", c>> >>) : c \in Coeff }
  \cup { Map(<< <<"s", c>>, <<"t", Leaf("null")>> >>) : c \in Coeff }
  \cup { K("description", c) : c \in Coeff } \cup { List(<<c, K("C", c)>>) : c \in Coeff }
Usual == [ eft |-> << <<"eft", Leaf("s:plain")>>, <<"sectors", K("s", Leaf("emptymap"))>>,
                      <<"metadata", K("description", Leaf("s:tex"))>> >>,
           basis |-> << <<"eft", Leaf("s:plain")>>, <<"basis", Leaf("s:plain")>>,
                        <<"sectors", K("s", K("C", K("tex", Leaf("s:tex"))))>>,
                        <<"metadata", K("description", Leaf("s:tex"))>>, <<"parent", Leaf("s:plain")>> >>,
           wc |-> << <<"eft", Leaf("s:plain")>>, <<"basis", Leaf("s:plain")>>, <<"scale", Leaf("n:intfloat")>>,
                     <<"values", K("C", N1)>>, <<"metadata", K("description", Leaf("s:tex"))>> >> ]
Docs == UNION { UNION { { [ kind |-> k, field |-> Usual[k][i][1],
                            v |-> Map([ Usual[k] EXCEPT ![i][2] = x ]) ] : x \in Fields }
                        \cup { [ kind |-> k, field |-> Usual[k][i][1],
                                 v |-> Map(<< Usual[k][i] >> \o SubSeq(Usual[k], 1, i - 1)
                                           \o SubSeq(Usual[k], i + 1, Len(Usual[k]))) ],
                               [ kind |-> k, field |-> Usual[k][i][1],
                                 v |-> Map(SubSeq(Usual[k], 1, i - 1)
                                           \o SubSeq(Usual[k], i + 1, Len(Usual[k]))) ] }
                      : i \in DOMAIN Usual[k] } : k \in DOMAIN Usual }

-----------------------------------------------------------------------------
(* routes: objects in memory and one text; the user may change an object   *)
(* afterwards, which concerns neither the text nor other objects           *)
VARIABLES text,    \* the text: its form ("none", "json", "yaml") and content
          objs,    \* contents of the objects, in the order in which they were made
          route    \* the operations so far
vars == <<text, objs, route>>
Init == text = [ form |-> "none", content |-> "none" ] /\ objs = << "doc" >> /\ route = <<>>

Log(op) == route' = Append(route, op)
Intact  == { i \in DOMAIN objs : objs[i] = "doc" }
Latest  == CHOOSE i \in Intact : \A j \in Intact : j <= i
Dump(f) == /\ Intact # {} /\ (text.form # f \/ Latest = Len(objs))
           /\ text' = [ form |-> f, content |-> objs[Latest] ]
           /\ Log("dump" \o f) /\ UNCHANGED objs
Load    == /\ text.form # "none"
           /\ objs' = Append(objs, text.content)
           /\ Log("load") /\ UNCHANGED text
Rewrite(f, g, op) == /\ text.form = f /\ text' = [ text EXCEPT !.form = g ]
                     /\ Log(op) /\ UNCHANGED objs
Spoil   == /\ objs[Len(objs)] = "doc" /\ text.form # "none"
           /\ objs' = [ objs EXCEPT ![Len(objs)] = "other" ]
           /\ Log("spoil") /\ UNCHANGED text
(* the user writes the document by hand, in any layout of the format       *)
Hand(f) == /\ "spoil" \notin { route[i] : i \in DOMAIN route }
           /\ text' = [ form |-> f, content |-> "doc" ] /\ Log("hand" \o f) /\ UNCHANGED objs
Next == /\ Len(route) < MaxOps
        /\ \/ Dump("json") \/ Dump("yaml") \/ Load \/ Spoil \/ Hand("json") \/ Hand("yaml")
           \/ Rewrite("json", "yaml", "toyaml") \/ Rewrite("yaml", "json", "tojson")
Spec == Init /\ [][Next]_vars

(* the text has the content throughout, and so have all objects but those  *)
(* the user changed                                                        *)
ContentKept == /\ text.form # "none" => text.content = "doc"
               /\ Cardinality(Intact) = Len(objs) - Len(SelectSeq(route, LAMBDA x : x = "spoil"))
Emit == route # <<>> => CSVWrite("%1$s", <<ToJson([ t |-> "route", ops |-> route, rep |-> text.form ])>>, IOEnv.OUT)
EmitTrees == route = <<>> =>
  /\ \A x \in Trees : CSVWrite("%1$s", <<ToJson([ t |-> "tree", v |-> x ])>>, IOEnv.OUT)
  /\ \A x \in Docs : CSVWrite("%1$s", <<ToJson([ t |-> "doc", v |-> x ])>>, IOEnv.OUT)
=============================================================================
