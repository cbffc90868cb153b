---------------------------- MODULE TraceTiles ----------------------------
(***************************************************************************)
(* Validates recorded fringing and joining of tile files.  State: contents *)
(* of the tile files and their sizes.                                      *)
(*  [ev reset] | [ev put, path, ni, nj, words]                             *)
(*  [ev fringe, a, b, edge, kind, ea, eb, res, files]                      *)
(*  [ev stitch, a, b, edge, kind, fr (fringed A), nic, njc, res, files,    *)
(*      out (path the joined grid is then written to, "" if none)]         *)
(*  [ev final, path, of, cuts]   the joined file against the uncut grid    *)
(***************************************************************************)
EXTENDS Tiles, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, bad
Put(fsys,p,v) == (p :> v) @@ fsys
Grid(p) == Decode(fs[p].ni, fs[p].nj, fs[p].words)
Words(obs) == [ p \in DOMAIN fs |-> fs[p].words ] = obs
ShapeOK(g,ni,nj) == \A f \in Fields : /\ Len(g[f]) = Rows(f,ni)
                                      /\ \A i \in DOMAIN g[f] : Len(g[f][i]) = Cols(f,nj)
Cd(e) == CASE e = "N" -> 0 [] e = "S" -> 1 [] e = "E" -> 2 [] e = "W" -> 3
Op(e) == CASE e = "N" -> "S" [] e = "S" -> "N" [] e = "E" -> "W" [] e = "W" -> "E"
FringeClauses(e) ==
   LET A == Grid(e.a) na == fs[e.a] nb == fs[e.b] IN
   << <<"fringe.ok",    e.kind = "ok">>,
      <<"fringe.edge",  e.kind = "ok" => e.ea = Cd(e.edge) /\ e.eb = Cd(Op(e.edge))>>,
      <<"fringe.shape", e.kind = "ok" => ShapeOK(e.res,na.ni,na.nj)>>,
      <<"fringe.keep",  (e.kind = "ok" /\ ShapeOK(e.res,na.ni,na.nj)) =>
           \A f \in Fields : \A i \in DOMAIN A[f] : \A j \in DOMAIN A[f][i] :
              ~IsZero(A[f][i][j]) => e.res[f][i][j] = A[f][i][j]>>,
      <<"fringe.none",  (e.kind = "ok" /\ ShapeOK(e.res,na.ni,na.nj)) =>
           \A f \in Fields : \A i \in DOMAIN A[f] : \A j \in DOMAIN A[f][i] :
              (IsZero(A[f][i][j]) /\ Decides(e.edge,f,na.ni,na.nj,nb.ni,nb.nj,i-1,j-1) = "none")
                 => IsZero(e.res[f][i][j])>>,
      <<"fringe.files", Words(e.files)>> >>
StitchClauses(e) ==
   LET A == Grid(e.a) B == Grid(e.b) na == fs[e.a] nb == fs[e.b]
       ni == JoinNi(e.edge,na.ni,nb.ni) nj == JoinNj(e.edge,na.nj,nb.nj)
       ok == e.kind = "ok" /\ ShapeOK(e.res,ni,nj)
       P  == Place(e.edge,na.ni,na.nj,nb.ni,nb.nj,e.fr,B)
       PA == Place(e.edge,na.ni,na.nj,nb.ni,nb.nj,A,B)
   IN << <<"stitch.ok",    e.kind = "ok">>,
         <<"stitch.size",  e.kind = "ok" => e.nic = ni /\ e.njc = nj>>,
         <<"stitch.shape", e.kind = "ok" => ShapeOK(e.res,ni,nj)>>,
         <<"stitch.place", ok => e.res = P>>,
         <<"stitch.keep",  ok => \A f \in Fields : \A i \in DOMAIN PA[f] : \A j \in DOMAIN PA[f][i] :
                                    ~IsZero(PA[f][i][j]) => e.res[f][i][j] = PA[f][i][j]>>,
         <<"stitch.files", Words(e.files)>> >>
FinalClauses(e) ==
   LET G == Grid(e.of) H == Grid(e.path) IN
   << <<"final.values", fs[e.of].ni = fs[e.path].ni /\ fs[e.of].nj = fs[e.path].nj /\
        \A f \in Fields : \A i \in DOMAIN G[f] : \A j \in DOMAIN G[f][i] :
           (~IsZero(G[f][i][j]) /\ ~Straddles(f,i-1,j-1,e.cuts)) => H[f][i][j] = G[f][i][j]>>,
      <<"final.zero", fs[e.of].ni = fs[e.path].ni /\ fs[e.of].nj = fs[e.path].nj =>
        \A f \in Fields : \A i \in DOMAIN G[f] : \A j \in DOMAIN G[f][i] :
           (~Coord(f) /\ IsZero(G[f][i][j]) /\ ~Defined(fs[e.of].ni,fs[e.of].nj,f,i-1,j-1)) => IsZero(H[f][i][j])>> >>
Clauses(e) == CASE e.ev = "fringe" -> FringeClauses(e)
                [] e.ev = "stitch" -> StitchClauses(e)
                [] e.ev = "final"  -> FinalClauses(e)
                [] OTHER -> <<>>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ fs = [q \in {} |-> <<>>] /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET e == Trace[l] F == Failing(e) IN
           /\ bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
           /\ fs' = CASE e.ev = "reset" -> [q \in {} |-> <<>>]
                      [] e.ev = "put"   -> Put(fs, e.path, [ni |-> e.ni, nj |-> e.nj, words |-> e.words])
                      [] OTHER -> fs
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<fs,bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l,fs,bad>>
=============================================================================
