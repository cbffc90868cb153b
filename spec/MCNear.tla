------------------------------ MODULE MCNear ------------------------------
(* A running-minimum scan visiting the positions in any order (any memory
   layout) ends at a nearest position, at the same distance for every order. *)
EXTENDS Near
CONSTANTS Shapes, Vals
MCShapes == { <<1,1>>, <<1,3>>, <<3,1>>, <<2,2>>, <<2,3>> }
VARIABLES d, todo, best, dist
vars == <<d,todo,best,dist>>
Inf == 99
Init == /\ \E s \in Shapes : d \in [1..s[1] -> [1..s[2] -> Vals]]
        /\ todo = Pos(d) /\ best = <<0,0>> /\ dist = Inf
Visit == \E p \in todo :
         /\ todo' = todo \ {p}
         /\ IF At(d,p) < dist THEN best' = p /\ dist' = At(d,p) ELSE UNCHANGED <<best,dist>>
         /\ UNCHANGED d
Spec == Init /\ [][Visit]_vars
Right == todo = {} => best \in Nearest(d) /\ dist = Min(d)
Running == best # <<0,0>> => /\ At(d,best) = dist
                             /\ \A p \in Pos(d) \ todo : dist <= At(d,p)
Shift == todo = {} => NearestWithin(d,0) = Nearest(d)
=============================================================================
