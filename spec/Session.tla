------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A process that performs operations one after another, as its user sees  *)
(* it: a heap of objects the user holds (arguments given and results       *)
(* received, each matrix of a grid on its own), a disk of files, and the   *)
(* memory of what each operation answered.                                 *)
(*   operation: reads some objects and files, answers, may write files it  *)
(*              was told to write;                                         *)
(*   mutate:    the user overwrites one object;                            *)
(*   put:       the user replaces one file.                                *)
(* An operation is a function of <<what it is, contents of its arguments,  *)
(* contents of the files it reads>>.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Absent == "-"
At(f,x) == IF x \in DOMAIN f THEN f[x] ELSE Absent
\* nothing but what is in S changed (appearing and vanishing included)
Kept(f,g,S) == \A x \in (DOMAIN f \cup DOMAIN g) \ S : At(f,x) = At(g,x)
Key(op,objs,reads,heap,disk) ==
   << op, [ k \in DOMAIN objs |-> At(heap,objs[k]) ], [ k \in DOMAIN reads |-> <<reads[k],At(disk,reads[k])>> ] >>
Agrees(memo,key,res) == key \in DOMAIN memo => memo[key] = res
Learn(memo,key,res) == [ k \in DOMAIN memo \cup {key} |-> IF k = key THEN res ELSE memo[k] ]
=============================================================================
