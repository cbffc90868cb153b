--------------------------- MODULE TraceMitFile ---------------------------
(* Validates recorded sequences of file operations against MitFile.  State:
   the contents of the files the specification expects.
   events
     [ev "reset"]                                   new directory
     [ev "put", path, words]                        the harness writes a file
     [ev "write", path, ni, nj, grid, argafter, ok, ret, files]
     [ev "read", path, ni, nj, strict, kind, runtime, keys, result, files]
     [ev "tool", tool, inputs (sequence of [path,ni,nj]), strict, kind, runtime, files]
            a tool that reads grid files (known to be acceptable otherwise)
   grid/result: record field -> matrix; files: [path -> words] observed after. *)
EXTENDS MitFile, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, bad
vars == <<l,fs,bad>>

Names == { FieldNames[k] : k \in 1..16 }
Put(fsys,p,w) == [ q \in DOMAIN fsys \cup {p} |-> IF q = p THEN w ELSE fsys[q] ]
OthersSame(obs,exp,p) == /\ DOMAIN obs \cup {p} = DOMAIN exp \cup {p}
                         /\ \A q \in DOMAIN exp : q # p => obs[q] = exp[q]
ShapeOK(g,ni,nj) == \A f \in Names : /\ Len(g[f]) = Rows(f,ni)
                                      /\ \A i \in DOMAIN g[f] : Len(g[f][i]) = Cols(f,nj)

WriteClauses(e) == <<
   <<"write.ok",      e.ok>>,
   <<"write.layout",  e.ok => Written(e.ni,e.nj,e.grid,e.files[e.path])>>,
   <<"write.others",  OthersSame(e.files,fs,e.path)>>,
   <<"write.args",    e.argafter = e.grid>> >>
ReadClauses(e) ==
   LET want == ReadResult(e.ni,e.nj,e.strict,fs[e.path])
       short == want = "refused"
       exact == Len(fs[e.path]) = FileLen(e.ni,e.nj)
   IN <<
   <<"read.short",    short => e.kind = "err">>,
   <<"read.strict",   want = "RuntimeError" => (e.kind = "err" /\ e.runtime)>>,
   <<"read.accept.strict", (exact /\ want = "ok" /\ e.strict) => e.kind = "ok">>,
   <<"read.accept",   (exact /\ want = "ok" /\ ~e.strict) => e.kind = "ok">>,
   <<"read.keys",     (want = "ok" /\ e.kind = "ok") => e.keys>>,
   <<"read.value",    (want = "ok" /\ e.kind = "ok" /\ e.keys) => e.result = Decode(e.ni,e.nj,fs[e.path])>>,
   <<"read.files",    e.files = fs>> >>
ToolClauses(e) ==
   LET dirty == \E k \in DOMAIN e.inputs : LET x == e.inputs[k] IN
                   ReadResult(x.ni,x.nj,TRUE,fs[x.path]) # "ok"
   IN <<
   <<"tool.strict",        (e.strict /\ dirty) => (e.kind = "err" /\ e.runtime)>>,
   <<"tool.accept.strict", (e.strict /\ ~dirty) => e.kind = "ok">>,
   <<"tool.accept",        ~e.strict => e.kind = "ok">>,
   <<"tool.files",         e.files = fs>> >>
Clauses(e) == CASE e.ev = "tool"  -> ToolClauses(e)
                [] e.ev = "write" -> WriteClauses(e)
                [] e.ev = "read"  -> ReadClauses(e)
                [] OTHER          -> <<>>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }

Init == l = 1 /\ fs = [q \in {} |-> <<>>] /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET e == Trace[l] F == Failing(e) IN
           /\ bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
           /\ fs' = CASE e.ev = "reset" -> [q \in {} |-> <<>>]
                      [] e.ev = "put"   -> Put(fs,e.path,e.words)
                      [] OTHER          -> e.files      \* continue from what is really there
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<fs,bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
