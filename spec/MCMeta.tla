------------------------------ MODULE MCMeta ------------------------------
(* Grows every token sequence up to a length from a reduced alphabet, abandoning
   those already refused. *)
EXTENDS Meta, TLC
CONSTANT MaxLen
VARIABLE ts
Alphabet == { <<"key","a">>, <<"eq",0>>, <<"open","[">>, <<"open","{">>, <<"close","]">>, <<"close","}">>, <<"semi",0>>,
              <<"int",1>>, <<"str","s">>, <<"comma",0>>, <<"sp",0>>, <<"nl",0>> }
Init == ts = <<>>
Next == /\ Len(ts) < MaxLen /\ Run(ts).at # "error"
        /\ \E t \in Alphabet : ts' = Append(ts,t)
Spec == Init /\ [][Next]_ts
IsPrefixSeq(p,q) == Len(p) <= Len(q) /\ SubSeq(q,1,Len(p)) = p
(* a truncated text is refused or yields a prefix of the assignments, unchanged *)
Truncation == \A n \in 0..Len(ts) : LET h == SubSeq(ts,1,n) IN
   Run(ts).at # "error" /\ Accepts(h) => IsPrefixSeq(Run(h).dict,Run(ts).dict)
(* blanks where there are blanks, and comments before line ends, change nothing *)
Layout == \A n \in DOMAIN ts :
   /\ ts[n][1] \in {"sp","nl"} => Run(InsertAt(ts,n,<<"sp",0>>)) = Run(ts) \/ Run(SubSeq(ts,1,n)).at = "closed"
                                  \/ Run(SubSeq(ts,1,n)).at = "error"
   /\ ts[n][1] = "nl" => \/ Run(InsertAt(ts,n,<<"line",0>>)) = Run(ts)
                         \/ Run(SubSeq(ts,1,n)).at = "error"
(* every accepted value was read between matching delimiters *)
Opens(d) == Cardinality({ n \in DOMAIN ts : ts[n] = <<"open",d>> })
Closes(d) == Cardinality({ n \in DOMAIN ts : ts[n] = <<"close",d>> })
Balanced == Accepts(ts) => /\ Opens("[") = Closes("]") /\ Opens("{") = Closes("}")
                           /\ Opens("[") + Opens("{") = Len(Run(ts).dict)
                           /\ Cardinality({ n \in DOMAIN ts : ts[n][1] = "semi" }) = Len(Run(ts).dict)
NoEmpty == \A i \in DOMAIN Run(ts).dict : Run(ts).dict[i][2] # <<>>
(* one token lost from an accepted text: refused, or the keys remain and at most
   one of the values was shortened *)
Lost == Accepts(ts) => \A n \in DOMAIN ts : ts[n][1] \in {"eq","open","close","semi","key"} => ~Accepts(RemoveAt(ts,n)) 
=============================================================================
