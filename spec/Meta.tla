------------------------------- MODULE Meta -------------------------------
(***************************************************************************)
(* The metadata language as an automaton over lexical tokens <<kind,value>>: *)
(*   key name | eq | open b | close b | semi | int n | real n | str s |     *)
(*   comma | sp | nl | block | line | junk                                  *)
(* (b is "[" or "{"; a real carries the number of a table of doubles; line  *)
(* is a comment to the end of the line; junk is anything else).             *)
(* Assignments   key = [ values ];   or   key = { strings };   each start a *)
(* line and end it; values in [] are separated by commas and/or blanks,     *)
(* strings in {} by blanks; lines may break inside the brackets.  Anything  *)
(* else is an error, and so is the end of the text inside an assignment.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Start == [ at |-> "start", key |-> "", br |-> "", vals |-> <<>>, sep |-> "free", dict |-> <<>> ]
Err(s) == [ s EXCEPT !.at = "error" ]
Go(s,a) == [ s EXCEPT !.at = a ]
Closing(b) == IF b = "[" THEN "]" ELSE "}"
Blank == {"sp","block"}
IsValue(k) == k \in {"int","real","str"}
Feed(s,t) == LET k == t[1] IN
   CASE s.at = "error" -> s
     [] s.at = "start" -> (IF k \in Blank \cup {"nl"} THEN s
           ELSE IF k = "line" THEN s
           ELSE IF k = "key" THEN [s EXCEPT !.at = "key", !.key = t[2]] ELSE Err(s))
     [] s.at = "key" -> (IF k \in Blank THEN s ELSE IF k = "eq" THEN Go(s,"eq") ELSE Err(s))
     [] s.at = "eq" -> (IF k \in Blank THEN s
           ELSE IF k = "open" THEN [s EXCEPT !.at = "in", !.br = t[2], !.vals = <<>>, !.sep = "free"] ELSE Err(s))
     [] s.at = "in" -> (
           IF k \in Blank \cup {"nl","line"}
           THEN IF s.sep = "none" THEN [s EXCEPT !.sep = "blank"] ELSE s
           ELSE IF k = "comma"
           THEN IF s.br = "[" /\ s.sep \in {"none","blank"} THEN [s EXCEPT !.sep = "comma"] ELSE Err(s)
           ELSE IF IsValue(k) /\ s.sep # "none" /\ (s.br = "[" \/ k = "str")
           THEN [s EXCEPT !.vals = Append(@,t), !.sep = "none"]
           ELSE IF k = "close" /\ t[2] = Closing(s.br) /\ s.vals # <<>> /\ s.sep # "comma"
           THEN Go(s,"closed") ELSE Err(s))
     [] s.at = "closed" -> (IF k = "semi" THEN [s EXCEPT !.at = "end", !.dict = Append(@,<<s.key,s.vals>>)] ELSE Err(s))
     [] OTHER ->  \* after the semicolon
          (IF k \in Blank \cup {"line"} THEN s ELSE IF k = "nl" THEN Go(s,"start") ELSE Err(s))
Run(ts) == FoldLeft(Feed,Start,ts)
Accepts(ts) == Run(ts).at \in {"start","end"}
(* key -> values; the last assignment of a key counts *)
LastOf(d,k) == d[CHOOSE i \in DOMAIN d : d[i][1] = k /\ \A j \in DOMAIN d : d[j][1] = k => j <= i][2]
Keys(d) == { d[i][1] : i \in DOMAIN d }
Dict(ts) == LET d == Run(ts).dict IN [ k \in Keys(d) |-> LastOf(d,k) ]
=============================================================================
