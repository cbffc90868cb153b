------------------------------ MODULE Regrid ------------------------------
(***************************************************************************)
(* Corner selection and orientation in regrid, as a state machine.         *)
(*                                                                         *)
(* The stored grid has M x N corner positions.  NW and SE are the sets of  *)
(* positions nearest to the two user points (more than one when positions  *)
(* coincide, e.g. at a pole or across a periodic seam).  The search takes  *)
(* the first of them in a fixed scan order; the grid is turned by 90       *)
(* degrees until the NW pick lies at smaller i and larger j than the SE    *)
(* pick, and the search is repeated after every turn.                      *)
(*                                                                         *)
(* Scan = "memory": ties are broken by position in memory, which a turn    *)
(*        does not change (numpy's nditer, which the code uses).           *)
(* Scan = "view":   ties are broken row-major in the turned view.          *)
(* Under "memory" the loop terminates for every input; under "view" it     *)
(* does not (RegridView.cfg keeps TLC's counterexample reproducible).      *)
(***************************************************************************)
EXTENDS Orient, TLC
CONSTANTS MaxM, MaxN, Scan, MaxTies
VARIABLES M, N, nw, se, rot, pc, pick
vars == <<M,N,nw,se,rot,pc,pick>>

Before(x,y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
First(S) == CHOOSE x \in S : \A y \in S : x = y \/ Before(x,y)
\* the view index of the picked member of S at rotation r
Nearest(m,n,r,S) == IF Scan = "memory" THEN View(m,n,r,First(S))
                    ELSE First({ View(m,n,r,x) : x \in S })

Init == /\ M \in 2..MaxM /\ N \in 2..MaxN
        /\ nw \in { S \in SUBSET Pos(M,N) : S # {} /\ Cardinality(S) <= MaxTies }
        /\ se \in { S \in SUBSET Pos(M,N) : S # {} /\ Cardinality(S) <= MaxTies }
        /\ rot = 0 /\ pc = "locate" /\ pick = << <<0,0>>, <<0,0>> >>

Locate == /\ pc = "locate"
          /\ pick' = << Nearest(M,N,rot,nw), Nearest(M,N,rot,se) >>
          /\ pc' = IF pick'[1][1] = pick'[2][1] \/ pick'[1][2] = pick'[2][2]
                   THEN "refused" ELSE "orient"
          /\ UNCHANGED <<M,N,nw,se,rot>>
Aligned == pick[1][2] > pick[2][2] /\ pick[2][1] > pick[1][1]
Rotate == /\ pc = "orient" /\ ~Aligned
          /\ rot' = (rot + 1) % 4
          /\ pick' = << Nearest(M,N,rot',nw), Nearest(M,N,rot',se) >>
          /\ UNCHANGED <<M,N,nw,se,pc>>
Extract == pc = "orient" /\ Aligned /\ pc' = "done" /\ UNCHANGED <<M,N,nw,se,rot,pick>>
Next == Locate \/ Rotate \/ Extract
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(pc \in {"done","refused"})
\* what a returned region is: NW pick at (0,last), SE pick at (last,0) of the extracted block
DoneOK == pc = "done" => /\ \E x \in nw : pick[1] = View(M,N,rot,x)
                         /\ \E x \in se : pick[2] = View(M,N,rot,x)
                         /\ pick[1][1] < pick[2][1] /\ pick[1][2] > pick[2][2]
\* with unambiguous corners the outcome is decided by the corners alone
Unique == Cardinality(nw) = 1 /\ Cardinality(se) = 1
Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Decided == Unique => LET a == First(nw) b == First(se) IN
   /\ pc = "refused" => (a[1] = b[1] \/ a[2] = b[2])
   /\ pc \in {"orient","done"} => (a[1] # b[1] /\ a[2] # b[2])
   /\ pc = "done" => rot = Rotation(M,N,a,b)
   /\ pc = "done" => rot = (CASE Sign(b[1]-a[1]) =  1 /\ Sign(a[2]-b[2]) =  1 -> 0
                              [] Sign(b[1]-a[1]) = -1 /\ Sign(a[2]-b[2]) =  1 -> 1
                              [] Sign(b[1]-a[1]) = -1 /\ Sign(a[2]-b[2]) = -1 -> 2
                              [] Sign(b[1]-a[1]) =  1 /\ Sign(a[2]-b[2]) = -1 -> 3)
=============================================================================
