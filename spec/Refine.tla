------------------------------ MODULE Refine ------------------------------
(***************************************************************************)
(* Grid refinement: which great-circle construction produces each point of *)
(* the compute lattice of an nx x ny cell region refined ls x ks times.    *)
(* The refined grid has nX = ls*nx by nY = ks*ny cells; its compute lattice*)
(* has points (p,q), 0 <= p <= 2nX, 0 <= q <= 2nY.                         *)
(*                                                                         *)
(* Terms: <<0,i,j>>        the existing corner (i,j)                       *)
(*        <<1,i,j,k>>      k/(2ls) along the great circle (i,j)-(i+1,j)    *)
(*        <<2,p,j,k>>      k/(2ks) along the great circle from lattice     *)
(*                         point (p,2ks j) to lattice point (p,2ks (j+1))  *)
(***************************************************************************)
EXTENDS Stagger

SX(ls) == 2*ls
SY(ks) == 2*ks

XTerm(p,j,ls) == IF p % SX(ls) = 0 THEN <<0, p \div SX(ls), j>>
                 ELSE <<1, p \div SX(ls), j, p % SX(ls)>>
Term(p,q,ls,ks) == IF q % SY(ks) = 0 THEN XTerm(p, q \div SY(ks), ls)
                   ELSE <<2, p, q \div SY(ks), q % SY(ks)>>

LatticePts(nx,ny,ls,ks) == (0..SX(ls)*nx) \X (0..SY(ks)*ny)
=============================================================================
