----------------------------- MODULE MCOrient -----------------------------
EXTENDS Orient, TLC
CONSTANT MaxN
VARIABLES m, n, a, b
vars == <<m,n,a,b>>
Init == m \in 2..MaxN /\ n \in 2..MaxN /\ a \in Pos(m,n) /\ b \in Pos(m,n)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* turning is a bijection, four turns are the identity, Unview inverts View
Turns == \A x \in Pos(m,n) : /\ View(m,n,4,x) = x
                             /\ \A r \in 0..3 : /\ View(m,n,r,x) \in Pos(Rows4(m,n,r),Cols4(m,n,r))
                                                /\ Unview(m,n,r,View(m,n,r,x)) = x
\* exactly one rotation aligns a diagonal pair, none any other pair
OneRotation == Cardinality({ r \in 0..3 : AlignedAt(m,n,r,a,b) }) = IF Diagonal(a,b) THEN 1 ELSE 0
\* the block is not mirrored: handedness of the unit steps is that of the stored grid
Handed == Diagonal(a,b) =>
   LET B == Block(m,n,a,b)
       dx == << B[2][1][1]-B[1][1][1], B[2][1][2]-B[1][1][2] >>
       dy == << B[1][2][1]-B[1][1][1], B[1][2][2]-B[1][1][2] >>
   IN dx[1]*dy[2] - dx[2]*dy[1] = 1
Corners == Diagonal(a,b) =>
   LET B == Block(m,n,a,b) nx == BlockNx(m,n,a,b) ny == BlockNy(m,n,a,b) IN
   /\ Len(B) = nx+1 /\ Len(B[1]) = ny+1
   /\ B[1][ny+1] = a /\ B[nx+1][1] = b
   /\ nx*ny = (IF a[1]>b[1] THEN a[1]-b[1] ELSE b[1]-a[1]) * (IF a[2]>b[2] THEN a[2]-b[2] ELSE b[2]-a[2])
=============================================================================
