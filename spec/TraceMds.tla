------------------------------ MODULE TraceMds ------------------------------
(***************************************************************************)
(* Recorded uses of MDS file sets.                                          *)
(*  [ev "read", dims, nrec, sets, metas, fill, its, itscalar, rec, levs,     *)
(*   levscalar, region, squeeze, kind, mro, shape, data, got]                *)
(*    sets:  iteration sets (sequences of tiles), metas: likewise, the text  *)
(*           of the metadata common to all tiles (equal iff compatible)      *)
(*    its:   indices into sets (0: no such file), rec: [all, scalar, list]    *)
(*    got:   [has, itsok, dimlist, nrecords, steps, intervals] of the returned *)
(*           metadata, wanted: the same of the files                          *)
(*  [ev "write", shape, words, ndims, nrecords, dimlist, itr, times2, dt2,    *)
(*   simulation, fields, dataprec, kind, files, wrote, meta, back, backshape] *)
(*  [ev "conv", grid: field -> <<>> or [dims,nrec,tiles], kind, out, ni, nj]  *)
(***************************************************************************)
EXTENDS Mds, TLC, Json, IOUtils
S == INSTANCE Stagger
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l,bad>>
In(x,s) == \E k \in DOMAIN s : s[k] = x

---------------------------------------------------------------------------
Missing(e) == In(0,e.its)
Conflict(e) == \E a,b \in DOMAIN e.its : e.its[a] # 0 /\ e.its[b] # 0 /\
   \E p \in DOMAIN e.metas[e.its[a]], q \in DOMAIN e.metas[e.its[b]] :
      e.metas[e.its[a]][p] # e.metas[e.its[b]][q]
BadRec(e) == ~e.rec.all /\ \E k \in DOMAIN e.rec.list :
      FromEnd(e.rec.list[k],e.nrec) \notin 0..e.nrec-1
Mapped(e) == \E a \in DOMAIN e.its : e.its[a] # 0 /\
      \E k \in DOMAIN e.sets[e.its[a]] : e.sets[e.its[a]][k].map # <<>>
Recs(e) == IF e.rec.all THEN [k \in 1..e.nrec |-> k-1] ELSE e.rec.list
ReadClauses(e) ==
   IF Missing(e) THEN << <<"read.missing", e.kind = "err" /\ (Conflict(e) \/ BadRec(e) \/ (Mapped(e) /\ e.region # <<>>) \/ In("OSError",e.mro))>> >>
   ELSE IF Conflict(e) THEN << <<"read.conflict", e.kind = "err" /\ (BadRec(e) \/ (Mapped(e) /\ e.region # <<>>) \/ In("ValueError",e.mro))>> >>
   ELSE IF BadRec(e) THEN << <<"read.norecord", e.region = <<>> => e.kind = "err">> >>
   ELSE IF Mapped(e) /\ e.region # <<>> THEN << <<"read.mapregion", e.kind = "err">> >>
   ELSE LET want == Selection(e.dims,e.nrec,[k \in DOMAIN e.its |-> e.sets[e.its[k]]],
                              e.fill,Recs(e),e.levs,e.region)
            sh(rs) == ResultShape(e.dims,Len(e.its),e.itscalar,Len(Recs(e)),rs,
                              e.levs,e.levscalar,e.region,e.squeeze)
        IN <<
   <<"read.answers", e.kind = "ok">>,
   \* whether an unselected single record keeps its axis without squeezing is open
   <<"read.shape", e.kind = "ok" => \/ e.shape = sh(e.rec.scalar)
                                    \/ e.rec.all /\ e.nrec = 1 /\ e.shape = sh(TRUE)>>,
   <<"read.data", e.kind = "ok" => e.data = want>>,
   <<"read.meta", (e.kind = "ok" /\ e.got.has) =>
        /\ e.got.its = e.itnums
        /\ e.got.dimlist = Reverse2(e.dims)
        /\ e.got.nrecords = <<e.nrec>>
        /\ e.got.steps = e.steps
        /\ e.got.intervals2 = e.intervals2>> >>

---------------------------------------------------------------------------
WriteClauses(e) ==
   LET f == Fold(e.shape,e.ndims,e.nrecords,e.dimlist)
       itr == IF e.itr # <<>> THEN e.itr
              ELSE IF e.dt2 # <<>> /\ e.times2 # <<>> THEN << e.times2[Len(e.times2)] \div e.dt2[1] >> ELSE <<>>
       times == IF e.times2 # <<>> THEN e.times2
                ELSE IF e.dt2 # <<>> /\ e.itr # <<>> THEN << e.dt2[1]*e.itr[1] >> ELSE <<>>
   IN IF ~f.ok \/ e.badprec THEN << <<"write.refused", e.kind = "err">>, <<"write.nofiles", e.files = <<>> >> >>
      ELSE <<
   <<"write.answers", e.kind = "ok">>,
   <<"write.files", e.kind = "ok" => e.files = e.wantfiles>>,
   <<"write.data", (e.kind = "ok" /\ e.files = e.wantfiles) => e.wrote = e.words>>,
   <<"write.step", (e.kind = "ok") => e.step = itr>>,
   <<"back.answers", e.kind = "ok" => e.backkind = "ok">>,
   <<"back.shape", (e.kind = "ok" /\ e.backkind = "ok") =>
        e.backshape = (IF f.nrecords > 1 THEN <<f.nrecords>> ELSE <<>>) \o Reverse2(f.dimlist)>>,
   <<"back.data", (e.kind = "ok" /\ e.backkind = "ok") => e.back = e.words>>,
   <<"back.meta", (e.kind = "ok" /\ e.backkind = "ok") =>
        /\ e.meta.ndims = <<f.ndims>>
        /\ e.meta.nrecords = <<f.nrecords>>
        /\ e.meta.dimlist = f.dimlist
        /\ e.meta.dataprec = <<e.dataprec>> >>,
   <<"back.meta.fields", (e.kind = "ok" /\ e.backkind = "ok") =>
        /\ e.meta.fields = e.fields
        /\ e.meta.nflds = (IF e.fields = <<>> THEN <<>> ELSE <<Len(e.fields)>>)>>,
   <<"back.meta.simulation", (e.kind = "ok" /\ e.backkind = "ok") => e.meta.simulation = e.simulation>>,
   <<"back.meta.times", (e.kind = "ok" /\ e.backkind = "ok") =>
        /\ e.meta.step = itr
        /\ e.meta.times2 = (IF times = <<>> THEN <<>> ELSE <<times>>)>> >>

---------------------------------------------------------------------------
Names == { S!FieldNames[k] : k \in 1..16 }
Present(e) == { f \in Names : e.grid[f] # <<>> }
Conv(e,f) ==       \* x along the first axis, extended by zeros
   LET g == e.grid[f] ny == NY(g.dims) nx == NX(g.dims) a == Assembled(g.dims,1,g.tiles,0) IN
   [ i \in 1..(nx + S!NiDel(f)) |-> [ j \in 1..(ny + S!NjDel(f)) |->
        IF i <= nx /\ j <= ny THEN a[1 + (j-1)*nx + (i-1)] ELSE 0 ] ]
ConvClauses(e) == <<
   <<"conv.answers", e.kind = "ok">>,
   <<"conv.keys", e.kind = "ok" => e.keys>>,
   <<"conv.absent", (e.kind = "ok" /\ e.keys) => \A f \in Names \ Present(e) : e.none[f]>>,
   <<"conv.value", (e.kind = "ok" /\ e.keys) => \A f \in Present(e) : ~e.none[f] /\ e.out[f] = Conv(e,f)>>,
   <<"conv.counts", e.kind = "ok" =>
        IF Present(e) = {} THEN e.ni = 0 /\ e.nj = 0
        ELSE \A f \in Present(e) : e.ni = NX(e.grid[f].dims) /\ e.nj = NY(e.grid[f].dims)>>,
   <<"conv.files", e.filessame>> >>

Clauses(e) == CASE e.ev = "read" -> ReadClauses(e)
                [] e.ev = "write" -> WriteClauses(e)
                [] OTHER -> ConvClauses(e)
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET F == Failing(Trace[l]) IN
           bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
