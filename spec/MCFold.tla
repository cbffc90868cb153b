------------------------------- MODULE MCFold -------------------------------
(* Shapes and foldings: an accepted folding accounts for every element, names
   the trailing dimensions, and reading it back gives the array's elements in
   the array's order; the default never refuses; agreeing arguments never
   change what is written. *)
EXTENDS Mds, TLC
VARIABLES shape, nd, nr, dl
Opt(S) == { <<>> } \cup { <<x>> : x \in S }
Shapes == UNION { [1..k -> 1..3] : k \in 1..4 }
Init == /\ shape \in Shapes /\ nd \in Opt(0..5) /\ nr \in Opt(1..9)
        /\ dl \in { <<>>, Reverse2(shape), shape }
Next == UNCHANGED <<shape,nd,nr,dl>>
Spec == Init /\ [][Next]_<<shape,nd,nr,dl>>
F == Fold(shape,nd,nr,dl)
Accounts == F.ok => /\ F.nrecords * Prod(F.dimlist) = Prod(shape)
                    /\ Len(F.dimlist) = F.ndims
                    /\ F.dimlist = SubSeq(Reverse2(shape),1,F.ndims)
Default == (nd = <<>> /\ nr = <<>> /\ dl = <<>>) => F.ok
Honoured == F.ok => /\ nd # <<>> => F.ndims = nd[1]
                    /\ nr # <<>> => F.nrecords = nr[1]
                    /\ dl # <<>> => F.dimlist = dl
Agree == F.ok => Fold(shape,<<F.ndims>>,<<F.nrecords>>,F.dimlist) = F
(* one tile covering everything reads back as it was written *)
Data == [ p \in 1..Prod(shape) |-> 10 + p ]
Back == (F.ok /\ F.ndims >= 2) =>
   Assembled(Reverse2(F.dimlist),F.nrecords,
      << [i0 |-> [k \in 1..F.ndims |-> 0], n |-> Reverse2(F.dimlist), map |-> <<>>, data |-> Data] >>, 0) = Data
=============================================================================
