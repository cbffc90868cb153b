----------------------------- MODULE MCCommand -----------------------------
(* All short runs of a command that reads one grid file and writes another,
   possibly the same, over every combination of damaged inputs and lines.
   Early = TRUE is the mistake of opening the output before reading. *)
EXTENDS Command, TLC
CONSTANTS Early
VARIABLES files, orig, pc, line, inp, outp, read, res
vars == <<files,orig,pc,line,inp,outp,read,res>>
Paths == {"a","b","c"}
NI == 1
NJ == 1
G(v) == [ f \in Fields |-> [ i \in 1..Rows(f,NI) |-> [ j \in 1..Cols(f,NJ) |-> 10 + v ] ] ]
Good(v) == Encode(NI,NJ,G(v))
Contents == { <<>>, Good(1), SubSeq(Good(2),1,20) }
Refused == <<-1>>
\* the function: from a grid v makes grid v+5
Fn(words) == IF Len(words) < FileLen(NI,NJ) THEN Refused ELSE Encode(NI,NJ,[f \in Fields |-> [ i \in 1..Rows(f,NI) |-> [ j \in 1..Cols(f,NJ) |-> DecodeField(NI,NJ,words,f)[i][j] + 5 ] ] ])
Full == { <<r,IF r \in Ints THEN "int" ELSE IF r \in Floats THEN "real" ELSE "word">> : r \in Required("mkgrid") }
Lines == { Full } \cup { Full \ {o} : o \in Full } \cup { (Full \ {o}) \cup {<<o[1],"none">>} : o \in Full }
         \cup { Full \cup {<<"bogus","word">>} } \cup { Full \cup {<<"verbose","flag">>} }
Init == /\ orig \in [Paths -> Contents] /\ files = orig /\ pc = "parse" /\ line \in Lines
        /\ inp \in Paths /\ outp \in Paths /\ read = <<>> /\ res = <<>>
Parse == pc = "parse" /\ pc' = (IF Parses("mkgrid",line) THEN IF Early THEN "open" ELSE "read" ELSE "failed") /\ UNCHANGED <<files,orig,line,inp,outp,read,res>>
Open == pc = "open" /\ files' = [files EXCEPT ![outp] = <<>>] /\ pc' = (IF Early /\ read = <<>> THEN "read" ELSE "write") /\ UNCHANGED <<orig,line,inp,outp,read,res>>
Read == pc = "read" /\ read' = files[inp] /\ pc' = "compute" /\ UNCHANGED <<files,orig,line,inp,outp,res>>
Compute == /\ pc = "compute" /\ res' = Fn(read)
           /\ pc' = (IF Fn(read) = Refused THEN "failed" ELSE IF Early THEN "write" ELSE "open")
           /\ UNCHANGED <<files,orig,line,inp,outp,read>>
\* one segment after the other
Write == /\ pc = "write"
         /\ LET n == Len(files[outp]) IN
            IF n = Len(res) THEN pc' = "done" /\ UNCHANGED files
            ELSE files' = [files EXCEPT ![outp] = SubSeq(res,1,n + SegLen(NI,NJ))] /\ pc' = pc
         /\ UNCHANGED <<orig,line,inp,outp,read,res>>
Next == Parse \/ Open \/ Read \/ Compute \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
FailedClean == pc = "failed" => files = orig
DoneRight == pc = "done" => /\ files[outp] = Fn(orig[inp]) /\ Fn(orig[inp]) # Refused /\ Parses("mkgrid",line)
                            /\ \A p \in Paths : p # outp => files[p] = orig[p]
FailsRight == pc = "failed" => ~Parses("mkgrid",line) \/ Fn(orig[inp]) = Refused
Halts == <>(pc \in {"failed","done"})
=============================================================================
