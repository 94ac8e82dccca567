-------------------------------- MODULE Cards --------------------------------
(***************************************************************************)
(* Histories of SMEFTsim cards: cards are initialised, filled (possibly    *)
(* again) from Wilson coefficient instances, written to text.  What a card *)
(* says is decided by the last filling of this very card, whatever else    *)
(* happened; the instances stay as they are.  Property: C19.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils, CSV
CONSTANTS NCards, NInstances, NScales
Cards == 1..NCards
Insts == 1..NInstances
Scales == 1..NScales
Sets == { "A", "B" }
Schemes == { "alpha", "mw" }
None == [ kind |-> "none" ]
Empty(s) == [ kind |-> "empty", set |-> s ]
Filled(s, w, l, i) == [ kind |-> "filled", set |-> s, wc |-> w, scale |-> l, scheme |-> i ]

VARIABLES cards, last
vars == << cards, last >>
Init == cards = [ c \in Cards |-> None ] /\ last = [ op |-> "init" ]

New(c, s) == /\ cards' = [ cards EXCEPT ![c] = Empty(s) ]
             /\ last' = [ op |-> "new", card |-> c, set |-> s ]
Fill(c, w, l, i) == /\ cards[c].kind # "none"
                    /\ cards' = [ cards EXCEPT ![c] = Filled(cards[c].set, w, l, i) ]
                    /\ last' = [ op |-> "fill", card |-> c, wc |-> w, scale |-> l, scheme |-> i ]
Write(c) == /\ cards[c].kind = "filled" /\ last.op # "write" /\ UNCHANGED cards
            /\ last' = [ op |-> "write", card |-> c ]
(* the command line does all of it at once and leaves nothing behind       *)
Command(s, w, l, i) == /\ UNCHANGED cards
                       /\ last' = [ op |-> "command", set |-> s, wc |-> w, scale |-> l, scheme |-> i ]
Next == \/ \E c \in Cards, s \in Sets : New(c, s)
        \/ \E c \in Cards, w \in Insts, l \in Scales, i \in Schemes : Fill(c, w, l, i)
        \/ \E c \in Cards : Write(c)
        \/ \E s \in Sets, w \in Insts, l \in Scales, i \in Schemes : Command(s, w, l, i)
Spec == Init /\ [][Next]_vars

(* only the card an action names changes *)
Isolated == [][ \A c \in Cards : (cards'[c] # cards[c]) => (last'.op \in { "new", "fill" } /\ last'.card = c) ]_vars
(* a filled card keeps its model set *)
SetKept == [][ \A c \in Cards : (cards[c].kind # "none" /\ cards'[c].kind = "filled") => cards'[c].set = cards[c].set ]_vars
Log == CSVWrite("%1$s", << ToJson([ lvl |-> TLCGet("level"), last |-> last, cards |-> cards ]) >>, IOEnv.OUT)
=============================================================================
