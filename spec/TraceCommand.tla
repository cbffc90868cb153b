--------------------------- MODULE TraceCommand ---------------------------
(* events [ev "cmd"]: tool; line (sequence of <<option, form>>); writable (the
   output path can be written); before/after: path -> digest of every file;
   api: what the function returns for the values of the line: kind ("ok","err",
   "none" if the line is not one), ni, nj, grid (one-file tools), talks;
   cli: kind "ok"|"err"|"hang", talks, says (everything the function says);  out: output path; words: its contents;
   apitree/clitree: name -> digest of the boundary files made (getobcs) *)
EXTENDS Command, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l,bad>>
Line(e) == { <<e.line[k][1],e.line[k][2]>> : k \in DOMAIN e.line }
Runs(e) == Parses(e.tool,Line(e)) /\ e.api.kind = "ok" /\ e.writable
Except(fs,p) == [ q \in DOMAIN fs \ {p} |-> fs[q] ]
Clauses(e) == IF ~Runs(e)
   THEN << <<"fails", e.cli.kind = "err">>, <<"untouched", e.after = e.before>> >>
   ELSE << <<"succeeds", e.cli.kind = "ok">>,
           <<"only.output", Except(e.after,e.out) = Except(e.before,e.out)>>,
           <<"talks", e.cli.kind = "ok" => e.cli.talks = e.api.talks>>,
           <<"says", e.cli.kind = "ok" => e.cli.says>>,
           <<"result", e.cli.kind = "ok" => IF e.tool = "getobcs" THEN e.clitree = e.apitree
                                            ELSE e.words = Encode(e.api.ni,e.api.nj,e.api.grid)>> >>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET F == Failing(Trace[l]) IN bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
