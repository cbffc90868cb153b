------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* Where a source grid comes from.  A source denotes corner matrices; a    *)
(* result is a function of the corners and the call's parameters alone, so *)
(* any two sources that denote the same corners must give the same result. *)
(***************************************************************************)
EXTENDS MitFile
\* column-major binary matrix of (ni+1) x (nj+1) doubles
BinMatrix(ni,nj,w) == [ i \in 1..ni+1 |-> [ j \in 1..nj+1 |-> w[(j-1)*(ni+1)+i] ] ]
\* <<XG,YG>> a source denotes; <<>> if it denotes none
Denotes(s) ==
   CASE s.src = "file" -> IF s.ni > 0 /\ s.nj > 0
                          THEN LET g == Decode(s.ni,s.nj,s.words) IN << g["XG"], g["YG"] >> ELSE <<>>
     [] s.src = "bin"  -> IF s.ni > 0 /\ s.nj > 0
                          THEN << BinMatrix(s.ni,s.nj,s.xw), BinMatrix(s.ni,s.nj,s.yw) >> ELSE <<>>
     [] s.src = "csv"  -> IF s.ni > 0 /\ s.nj > 0 THEN << s.xr, s.yr >> ELSE <<>>
     [] s.src = "mats" -> << s.xr, s.yr >>
     [] OTHER          -> <<>>
=============================================================================
