---------------------------- MODULE TraceRegrid ----------------------------
(***************************************************************************)
(* Validates recorded regrid calls against Orient/Stagger.  One event per  *)
(* call:                                                                   *)
(*  m,n        stored corner matrix size                                   *)
(*  nws,ses    positions nearest to the two given points (several if they  *)
(*             coincide)                                                   *)
(*  ids        [pos -> id] identity of each stored position (coincident    *)
(*             positions share one)                                        *)
(*  bits       [pos -> <<lon token, lat token>>] exact stored values       *)
(*  kind       "ok" | "err" | "hang";  value_error                         *)
(*  ni,nj, ls,ks                                                           *)
(*  shapes     field -> <<rows, cols>> of the result                       *)
(*  cid        ids of the result's coarse corners (0 if at no stored one)  *)
(*  cbits      exact values of the result's coarse corners                 *)
(***************************************************************************)
EXTENDS Orient, Stagger, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l,bad>>
At2(mat,x) == mat[x[1]+1][x[2]+1]
Pairs(e) == { <<e.nws[a],e.ses[b]>> : a \in DOMAIN e.nws, b \in DOMAIN e.ses }
DiagPairs(e) == { p \in Pairs(e) : Diagonal(p[1],p[2]) }
Fits(e,p) == LET nx == BlockNx(e.m,e.n,p[1],p[2]) ny == BlockNy(e.m,e.n,p[1],p[2]) IN
             e.ni = e.ls*nx /\ e.nj = e.ks*ny
CoarseOK(e,p,mat,obs) ==
   LET B == Block(e.m,e.n,p[1],p[2]) IN
   /\ Len(obs) = Len(B)
   /\ \A i \in DOMAIN B : Len(obs[i]) = Len(B[i]) /\ \A j \in DOMAIN B[i] : obs[i][j] = At2(mat,B[i][j])
ShapesOK(e) == \A f \in Fields : e.shapes[f] = << e.ni + NiDel(f), e.nj + NjDel(f) >>
Clauses(e) ==
   LET dp == DiagPairs(e) allp == Pairs(e) IN <<
   <<"ends",     e.kind # "hang">>,
   <<"refuse",   dp = {} => (e.kind = "hang" \/ (e.kind = "err" /\ e.value_error))>>,
   <<"accept",   (dp = allp) => e.kind # "err">>,
   <<"only.ve",  e.kind = "err" => e.value_error>>,
   <<"orient",   (e.kind = "ok" /\ dp # {}) => \E p \in dp : Fits(e,p) /\ CoarseOK(e,p,e.ids,e.cid)>>,
   <<"size",     (e.kind = "ok" /\ dp # {}) => \E p \in dp : Fits(e,p)>>,
   <<"shapes",   e.kind = "ok" => ShapesOK(e)>>,
   <<"corners",  (e.kind = "ok" /\ dp # {}) => \E p \in dp : Fits(e,p) /\ CoarseOK(e,p,e.bits,e.cbits)>> >>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET F == Failing(Trace[l]) IN bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
        /\ l' = l + 1
Finish == l = Len(Trace)+1 /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad]) /\ l' = l+1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
