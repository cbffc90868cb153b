------------------------------ MODULE Orient ------------------------------
(***************************************************************************)
(* Turning a grid of m x n corner positions by quarter turns, and the block*)
(* between two of its corners in the turned view.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Pos(m,n) == (0..m-1) \X (0..n-1)
\* dimensions after r quarter turns, and where original position x lands
Rows4(m,n,r) == IF r % 2 = 0 THEN m ELSE n
Cols4(m,n,r) == IF r % 2 = 0 THEN n ELSE m
Turn(m,n,x) == << n-1-x[2], x[1] >>
RECURSIVE View(_,_,_,_)
View(m,n,r,x) == IF r = 0 THEN x
                 ELSE Turn(Rows4(m,n,r-1), Cols4(m,n,r-1), View(m,n,r-1,x))
\* the original position shown at y in the view after r turns (closed form; MCOrient
\* checks it against View)
Unview(m,n,r,y) == CASE r = 0 -> y
                     [] r = 1 -> << y[2], n-1-y[1] >>
                     [] r = 2 -> << m-1-y[1], n-1-y[2] >>
                     [] r = 3 -> << m-1-y[2], y[1] >>

Diagonal(a,b) == a[1] # b[1] /\ a[2] # b[2]
AlignedAt(m,n,r,a,b) == LET va == View(m,n,r,a) vb == View(m,n,r,b) IN va[1] < vb[1] /\ va[2] > vb[2]
\* the one rotation that puts a north-west of b
Rotation(m,n,a,b) == CHOOSE r \in 0..3 : AlignedAt(m,n,r,a,b)
\* the block between them: number of cells, and the original position of its corner (i,j)
BlockNx(m,n,a,b) == LET r == Rotation(m,n,a,b) IN View(m,n,r,b)[1] - View(m,n,r,a)[1]
BlockNy(m,n,a,b) == LET r == Rotation(m,n,a,b) IN View(m,n,r,a)[2] - View(m,n,r,b)[2]
Block(m,n,a,b) == LET r == Rotation(m,n,a,b)
                      va == View(m,n,r,a)
                      vb == View(m,n,r,b)
                  IN [ i \in 1..vb[1]-va[1]+1 |-> [ j \in 1..va[2]-vb[2]+1 |->
                        Unview(m,n,r, <<va[1]+i-1, vb[2]+j-1>>) ] ]
=============================================================================
