------------------------------- MODULE Obcs -------------------------------
(***************************************************************************)
(* Open boundaries of an ni x nj region (tracer cells (i,j), zero-based).  *)
(*                                                                         *)
(* A boundary names one cell per row (E, W) or column (N, S): by an index  *)
(* vector, one-based, negative counting back from the far end, or by       *)
(* default the outermost cells; a vector of zeros switches it off; a zero *)
(* among others names no cell.                                             *)
(* A variable lives at cell centres (T), west faces (U) or south faces (V).*)
(* The boundary value of a cell is taken at the cell's own point of that   *)
(* kind, except that a normal velocity is taken on the face between the    *)
(* cell and the interior of the region.                                    *)
(* A boundary file holds one double per (along, depth, time), along        *)
(* varying fastest, times in increasing order.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Sides == {"N","S","E","W"}
Variables == {"T","S","Eta","W","U","UICE","V","VICE"}
Lower(v) == CASE v = "T" -> "t" [] v = "S" -> "s" [] v = "Eta" -> "eta" [] v = "W" -> "w"
              [] v = "U" -> "u" [] v = "UICE" -> "uice" [] v = "V" -> "v" [] v = "VICE" -> "vice"
Stag(v) == IF v \in {"U","UICE"} THEN "U" ELSE IF v \in {"V","VICE"} THEN "V" ELSE "T"
FileName(side,v) == "OB" \o side \o Lower(v)

AlongX(side) == side \in {"N","S"}
Along(side,ni,nj)  == IF AlongX(side) THEN ni ELSE nj
Across(side,ni,nj) == IF AlongX(side) THEN nj ELSE ni
\* vec = <<>> : no vector given
Enabled(vec) == vec = <<>> \/ \E k \in DOMAIN vec : vec[k] # 0
Default(side,ni,nj) == IF side \in {"N","E"} THEN Across(side,ni,nj) ELSE 1
Named(side,vec,b,ni,nj) == LET n == IF vec = <<>> THEN Default(side,ni,nj) ELSE vec[b+1] IN
                           IF n < 0 THEN Across(side,ni,nj) + 1 + n ELSE n
Cell(side,vec,b,ni,nj) == LET n == Named(side,vec,b,ni,nj) - 1 IN IF AlongX(side) THEN <<b,n>> ELSE <<n,b>>
Shift(side,st) == IF side = "S" /\ st = "V" THEN <<0,1>> ELSE IF side = "W" /\ st = "U" THEN <<1,0>> ELSE <<0,0>>
Point(side,vec,st,b,ni,nj) == LET c == Cell(side,vec,b,ni,nj) s == Shift(side,st) IN << c[1]+s[1], c[2]+s[2] >>

\* number of points of each kind in an m x n cell grid; and of a grid known only up to its
\* last row and column of cells ("trimmed": results hold no outermost corners)
PShape(st,m,n,trim) ==
   CASE st = "T" -> <<m,n>>
     [] st = "U" -> IF trim THEN <<m,n-1>> ELSE <<m+1,n>>
     [] st = "V" -> IF trim THEN <<m-1,n>> ELSE <<m,n+1>>

\* file word p (from zero) of a boundary with L cells and D depths
AlongOf(p,L) == p % L
DepthOf(p,L,D) == (p \div L) % D
TimeOf(p,L,D) == p \div (L*D)
Words(L,D,T) == L*D*T
=============================================================================
