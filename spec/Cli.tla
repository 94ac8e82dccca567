--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tools as a staged process: parse the arguments, open   *)
(* the input, load the document, operate, open the output, write, exit.    *)
(* Every stage can fail depending on the scenario; the exit status tells.  *)
(* Property C20.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Cmds == { "convert", "translate", "match", "validate", "eos", "smeftsim", "nosuch", "none" }
(* where the input comes from and the output goes to                       *)
Ins == { "stdin", "dash", "file", "nofile" }
(* "bare": the option without a file name is the standard output; "full":  *)
(* a device on which nothing more can be stored                            *)
Outs == { "stdout", "bare", "file", "nodir", "full" }
(* the document: syntax, completeness, meaning                             *)
Docs == { "good", "malformed", "incomplete", "invalid" }
Syntax == { "json", "yaml" }
(* what the command is asked to do; a known target can have any name       *)
Asked == "convert" :> { "json", "JSON", "yaml", "Yaml", "xml", "wcxf" }
      @@ "translate" :> { "known", "unknown", "self" }
      @@ "match" :> { "known", "unknowneft", "unknownbasis" }
      @@ "validate" :> { "eft", "basis", "wc", "EFT", "file" }
      @@ "eos" :> { "plain", "home", "nohome", "badoption", "universal", "nonuniversal" }
      @@ "smeftsim" :> { "plain", "mw", "B", "mwB", "scale", "badset", "badscheme", "badscale",
                          "ignore", "decline" }
      @@ "nosuch" :> { "plain" } @@ "none" :> { "plain" }
(* how the output file is called and whether it was there before; neither  *)
(* has any bearing on what is written                                      *)
Names == { "result", "out.yaml", "out.json", "card.dat" }
Before == { "new", "old" }
Formats == { "default", "json", "yaml", "YAML", "xml" }

VARIABLES s, stage, status, wrote, said
vars == <<s, stage, status, wrote, said>>

HasFormat(c) == c \in { "translate", "match" }
HasOutput(c) == c \in { "convert", "translate", "match", "eos", "smeftsim" }
Scenario ==
  { x \in [ cmd : Cmds, ask : UNION { Asked[c] : c \in Cmds }, fmt : Formats, inp : Ins, out : Outs,
            doc : Docs, syn : Syntax, name : Names \cup { "default" }, before : Before ] :
      /\ x.ask \in Asked[x.cmd]
      /\ (x.out # "file" => x.name = "result")
      /\ (x.before = "old" => x.out = "file" \/ (x.cmd = "eos" /\ x.ask = "home"))
      (* without the option wcxf2smeftsim has a file name of its own         *)
      /\ (x.name = "default" => x.cmd = "smeftsim")
      /\ (x.ask \in { "universal", "nonuniversal" } => x.doc = "good")
      /\ (~HasFormat(x.cmd) => x.fmt = "default")
      /\ (~HasOutput(x.cmd) => x.out = "stdout")
      /\ (x.out = "bare" => x.ask \notin { "home", "nohome" })
      (* the file is a required argument of wcxf2smeftsim, its output always a file *)
      /\ (x.cmd = "smeftsim" => x.inp \in { "file", "nofile" } /\ x.out \notin { "stdout", "bare" })
      (* conversion looks at the syntax only; to yaml it reads json        *)
      /\ (x.cmd = "convert" => x.doc \in { "good", "malformed" })
      /\ (x.cmd = "convert" /\ x.ask \in {"yaml", "Yaml"} => x.syn = "json")
      (* translating and matching need the fields, not the meaning         *)
      /\ (HasFormat(x.cmd) => x.doc # "invalid")
      /\ (x.cmd \in { "nosuch", "none" } => x.doc = "good" /\ x.inp = "stdin" /\ x.syn = "json") }

Init == s \in Scenario /\ stage = "parse" /\ status = -1 /\ wrote = FALSE /\ said = FALSE
Fail(next) == stage' = "exit" /\ status' = 1 /\ UNCHANGED <<s, wrote, said>>
Go(next) == stage' = next /\ UNCHANGED <<s, status, wrote, said>>

BadArgs == \/ s.cmd = "nosuch"
           \/ s.inp = "nofile"
           \/ (s.out = "nodir" /\ s.cmd # "smeftsim")
           \/ s.ask \in { "badoption", "badset", "badscheme", "badscale" }
           \/ (s.cmd = "eos" /\ s.ask = "home" /\ s.out \in { "file", "full" })      \* two outputs
           \/ (s.cmd = "eos" /\ s.ask = "nohome")
           \/ (s.cmd = "convert" /\ s.ask \in { "xml", "wcxf" })
           \/ (s.cmd = "validate" /\ s.ask \in { "EFT", "file" })
Parse == stage = "parse" /\ (IF BadArgs THEN Fail("") ELSE Go("load"))
Load == /\ stage = "load"
        /\ IF s.cmd # "none" /\ s.doc \in (IF s.cmd = "convert" THEN {"malformed"} ELSE {"malformed", "incomplete"})
           THEN Fail("") ELSE Go("operate")
(* an EFT file has no meaning beyond its fields                            *)
CannotOperate ==
   \/ (s.cmd = "translate" /\ s.ask # "known")
   \/ (s.cmd = "match" /\ s.ask # "known")
   \/ (s.cmd = "validate" /\ s.ask # "eft" /\ s.doc = "invalid")
   \/ (s.cmd \in { "eos", "smeftsim" } /\ s.doc = "invalid")
   (* EOS has one coefficient for all leptons                              *)
   \/ s.ask = "nonuniversal"
(* a file in another basis than Warsaw mass: the user is asked; declining  *)
(* ends the program without a card (the status is not prescribed)          *)
Decline == stage' = "exit" /\ status' = 2 /\ UNCHANGED <<s, wrote, said>>
Operate == stage = "operate" /\ (IF CannotOperate THEN Fail("") ELSE IF s.ask = "decline" THEN Decline ELSE Go("write"))
Write == /\ stage = "write"
         /\ IF s.fmt = "xml" \/ s.out \in { "nodir", "full" } THEN Fail("")
            ELSE /\ stage' = "exit" /\ status' = 0
                 /\ wrote' = HasOutput(s.cmd) /\ said' = (s.cmd = "validate") /\ UNCHANGED s
Next == Parse \/ Load \/ Operate \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Done == stage = "exit"
StatusTells == Done => (status = 0 <=> (wrote \/ said \/ s.cmd = "none"))
NoMessageOnFailure == status \in {1, 2} => ~said /\ ~wrote
BadDocNeverOk == (Done /\ s.doc = "malformed") => status # 0
Terminates == <>Done
Emit == Done => CSVWrite("%1$s", << ToJson([ s |-> s, ok |-> status = 0, any |-> status = 2, wrote |-> wrote, said |-> said ]) >>, IOEnv.OUT)
=============================================================================
