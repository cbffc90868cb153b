----------------------------- MODULE TraceObcs -----------------------------
(* events [ev "run"]:
   has      what the caller supplied: rdir, pfile, psize, pmat, pres (grid in
            the results directory), rfile, rsize, rmat (booleans)
   ni,nj    region size;  pm,pn parent size;  trim: outermost corners unknown
   vecs     side -> index vector (<<>> = none)
   steps    time steps, as met;  results  var -> [step index -> [depth -> matrix of tokens]]
   regs     regridders built: [src, dst: kinds of point ("T","U","V") the whole
            array of points agrees with, srcshape, dstshape, bilinear, plain, stale]
   calls    fields interpolated: [reg, data]
   files    boundary files written: name -> words, each <<call, i, j>> (zeros if the word is no such value)
   size     name -> bytes
   others   old/new: other OB* files <<name, digest>> before and after
   clean    inputs (results directory, grid files, matrices, vectors) unchanged
   kind, mro *)
EXTENDS Obcs, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l,bad>>
Usable(e) == /\ e.has.rdir
             /\ IF e.has.pfile THEN e.has.psize ELSE e.has.pmat \/ e.has.pres
             /\ IF e.has.rfile THEN e.has.rsize ELSE e.has.rmat
Present(e) == { v \in Variables : v \in DOMAIN e.results }
Active(e) == { s \in Sides : Enabled(e.vecs[s]) }
Pairs(e) == Active(e) \X Present(e)
Names(e) == { FileName(p[1],p[2]) : p \in Pairs(e) }
D(e,v) == Len(e.results[v][1])
T(e) == Len(e.steps)
\* index of the r-th earliest step (r from zero)
Rank(e,q) == Cardinality({ x \in DOMAIN e.steps : e.steps[x] < e.steps[q] })
AtTime(e,r) == CHOOSE q \in DOMAIN e.steps : Rank(e,q) = r
\* a result as a field on the points of its kind: zero where it has no value
Padded(m,sh) == [ i \in 1..sh[1] |-> [ j \in 1..sh[2] |-> IF i <= Len(m) /\ j <= Len(m[1]) THEN m[i][j] ELSE 0 ] ]
Source(e,v,k,r) == Padded(e.results[v][AtTime(e,r)][k+1], PShape(Stag(v),e.pm,e.pn,e.trim /\ Stag(v) # "T"))
RegOK(e,st,g) == /\ st \in Range(g.src) /\ st \in Range(g.dst) /\ g.bilinear /\ g.plain /\ ~g.stale
                 /\ g.srcshape = PShape(st,e.pm,e.pn,e.trim /\ st # "T")
                 /\ g.dstshape = PShape(st,e.ni,e.nj,FALSE)
Dim(e,s) == Along(s,e.ni,e.nj)
\* word p (from zero) of file (s,v) comes from the right field
FieldOK(e,s,v,p) == LET w == e.files[FileName(s,v)][p+1] IN
   /\ w[1] # 0
   /\ e.calls[w[1]].data = Source(e,v,DepthOf(p,Dim(e,s),D(e,v)),TimeOf(p,Dim(e,s),D(e,v)))
   /\ AlongOf(p,Dim(e,s)) = IF AlongX(s) THEN w[2] ELSE w[3]
ValueOK(e,s,v,p) == LET w == e.files[FileName(s,v)][p+1] IN
   /\ FieldOK(e,s,v,p)
   /\ RegOK(e,Stag(v),e.regs[e.calls[w[1]].reg])
   /\ Named(s,e.vecs[s],AlongOf(p,Dim(e,s)),e.ni,e.nj) # 0 =>     \* a row without a cell: any value
      <<w[2],w[3]>> = Point(s,e.vecs[s],Stag(v),AlongOf(p,Dim(e,s)),e.ni,e.nj)
Count(e,s,v) == Words(Dim(e,s),D(e,v),T(e))
LenOK(e,s,v) == FileName(s,v) \in DOMAIN e.files /\ Len(e.files[FileName(s,v)]) = Count(e,s,v)
                /\ e.size[FileName(s,v)] = 8*Count(e,s,v)
Keep(e,S) == { x \in S : x[1] \notin Names(e) }
Clauses(e) == IF ~Usable(e)
   THEN << <<"refused", e.kind = "err" /\ \E q \in DOMAIN e.mro : e.mro[q] = "ValueError">>, <<"inputs", e.clean>> >>
   ELSE << <<"runs", e.kind = "ok">>, <<"inputs", e.clean>>,
      <<"set", e.kind = "ok" => DOMAIN e.files = Names(e)>>,
      <<"others", Keep(e,Range(e.old)) = Keep(e,Range(e.new))>>,
      <<"length", e.kind = "ok" => \A x \in Pairs(e) : LenOK(e,x[1],x[2])>>,
      <<"order", e.kind = "ok" => \A x \in Pairs(e) : LenOK(e,x[1],x[2]) =>
                      \A p \in 0..Count(e,x[1],x[2])-1 : FieldOK(e,x[1],x[2],p)>>,
      <<"value", e.kind = "ok" => \A x \in Pairs(e) : LenOK(e,x[1],x[2]) =>
                      \A p \in 0..Count(e,x[1],x[2])-1 : ValueOK(e,x[1],x[2],p)>>,
      <<"weights", \A g \in DOMAIN e.regs : ~e.regs[g].stale>> >>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET F == Failing(Trace[l]) IN bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
