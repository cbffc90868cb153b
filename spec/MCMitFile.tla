----------------------------- MODULE MCMitFile -----------------------------
(* A file system of two paths; grids with one token per entry.  Writing and
   reading in any order: what is read is what was last written, whatever the
   sizes; strict reading accepts every written file. *)
EXTENDS MitFile, TLC
CONSTANTS MaxN, Paths
VARIABLES files, ver, last
vars == <<files,ver,last>>
Sizes == (1..MaxN) \X (1..MaxN)
\* grid number v of size ni x nj: every entry a different token, some absent fields
Grid(v,ni,nj) == [ f \in Fields |->
    IF v = 2 /\ f \in {"RAC","DXG"} THEN Absent ELSE
    [ i \in 1..Rows(f,ni) |-> [ j \in 1..Cols(f,nj) |->
         10 + v + 2*(i + 8*(j + 8*FieldNo(f))) ] ] ]
Init == files = [p \in Paths |-> <<>>] /\ ver = [p \in Paths |-> <<0,1,1>>] /\ last = "none"
Write(p,v,s) == /\ files' = [files EXCEPT ![p] = Encode(s[1],s[2],Grid(v,s[1],s[2]))]
                /\ ver' = [ver EXCEPT ![p] = <<v,s[1],s[2]>>]
                /\ last' = "write"
\* an outside program damages one padding word
Damage(p,w) == /\ ver[p][1] = 1 /\ IsPad(ver[p][2],ver[p][3],w)
               /\ files' = [files EXCEPT ![p][w] = 9]
               /\ ver' = [ver EXCEPT ![p][1] = 3]
               /\ last' = "damage"
Next == \/ \E p \in Paths, v \in 1..2, s \in Sizes : Write(p,v,s)
        \/ \E p \in Paths : ver[p][1] = 1 /\ \E w \in 1..FileLen(ver[p][2],ver[p][3]) : Damage(p,w)
Spec == Init /\ [][Next]_vars

RoundTrip == \A p \in Paths : LET v == ver[p] IN v[1] # 0 =>
   LET ni == v[2] nj == v[3] IN
   /\ Len(files[p]) = FileLen(ni,nj)
   /\ ReadResult(ni,nj,FALSE,files[p]) = "ok"
   /\ ReadResult(ni,nj,TRUE,files[p]) = IF v[1] = 3 THEN "RuntimeError" ELSE "ok"
   /\ v[1] = 1 => Decode(ni,nj,files[p]) = Grid(1,ni,nj)
   /\ v[1] = 2 => \A f \in Fields : Grid(2,ni,nj)[f] # Absent =>
                     DecodeField(ni,nj,files[p],f) = Grid(2,ni,nj)[f]
   /\ v[1] = 3 => Decode(ni,nj,files[p]) = Grid(1,ni,nj)
\* a larger request is refused
ShortRefused == \A p \in Paths : LET v == ver[p] IN v[1] # 0 =>
   \A s \in Sizes : FileLen(s[1],s[2]) > FileLen(v[2],v[3]) =>
        ReadResult(s[1],s[2],FALSE,files[p]) = "refused"
\* and so is a file one word short, or short of a few bytes of one; what stands
\* behind the sixteen segments changes nothing
Lengths == \A p \in Paths : LET v == ver[p] ni == v[2] nj == v[3] w == files[p] IN v[1] # 0 =>
   /\ ReadResult(ni,nj,FALSE,SubSeq(w,1,Len(w)-1)) = "refused"
   /\ ReadResult(ni,nj,FALSE,SubSeq(w,1,Len(w)-1) \o <<-3>>) = "refused"
   /\ \A s \in BOOLEAN : /\ ReadResult(ni,nj,s,w \o <<5>>) = ReadResult(ni,nj,s,w)
                         /\ ReadResult(ni,nj,s,w \o <<-3>>) = ReadResult(ni,nj,s,w)
   /\ Decode(ni,nj,w \o <<5,6,-1>>) = Decode(ni,nj,w)
\* word numbering is a bijection
Bijection == \A s \in Sizes : \A w \in 1..FileLen(s[1],s[2]) :
    WordAt(s[1],s[2],SegOf(s[1],s[2],w),RowOf(s[1],s[2],w),ColOf(s[1],s[2],w)) = w
=============================================================================
