--------------------------- MODULE TraceSession ---------------------------
(* one line per session: disk (path -> digest) and steps;
   every step carries heap (object -> digest) and disk as found after it.
   [do "op"]: op (what was asked), objs (arguments, object names), reads (paths
      it may read), writes (paths it was told to write), kind "ok"|"err"|"hang",
      res (digest of the answer, files written included), ref (the answer of a
      process that has done nothing else, on a copy of the files), new
      (object -> digest of the answer's parts as given), old/now: process-wide
      settings before and after (name -> text)
   [do "mutate"]: obj;  [do "put"]: paths;
   [do "drop"]: objs are forgotten;  [do "bring"]: objs are new arguments *)
EXTENDS Session, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, heap, disk, memo, bad
vars == <<l,k,heap,disk,memo,bad>>
Set(s) == { s[i] : i \in DOMAIN s }
S == Trace[l].steps[k]
Cut(f,D) == [ x \in DOMAIN f \ D |-> f[x] ]
Both(f,g) == [ x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x] ]
TheKey == Key(S.op,S.objs,S.reads,heap,disk)
Clauses ==
  CASE S.do = "op" ->
        << <<"ends", S.kind \in {"ok","err"}>>,
           <<"objects", Kept(heap,S.heap,DOMAIN S.new)>>,
           <<"given", \A o \in DOMAIN S.new : At(S.heap,o) = S.new[o]>>,
           <<"files", Kept(disk,S.disk,Set(S.writes))>>,
           <<"same.answer", Agrees(memo,TheKey,S.res)>>,
           <<"first.answer", S.res = S.ref>>,
           <<"settings", S.now = S.old>> >>
    [] S.do = "mutate" -> << <<"apart", Kept(heap,S.heap,{S.obj})>>, <<"files", Kept(disk,S.disk,{})>> >>
    [] S.do = "put" -> << <<"detached", Kept(heap,S.heap,{})>>, <<"harness", Kept(disk,S.disk,Set(S.paths))>> >>
    [] S.do = "bring" -> << <<"objects", Kept(heap,S.heap,Set(S.objs))>>, <<"files", Kept(disk,S.disk,{})>> >>
    [] S.do = "drop" -> << <<"objects", Kept(Cut(heap,Set(S.objs)),S.heap,{})>> >>
Failing == LET c == Clauses IN { ToString(k) \o ":" \o c[i][1] : i \in { i \in DOMAIN c : ~c[i][2] } }
Note(F) == IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
Init == l = 1 /\ k = 0 /\ heap = << >> /\ disk = << >> /\ memo = << >> /\ bad = <<>>
Begin == /\ l <= Len(Trace) /\ k = 0 /\ k' = 1
         /\ disk' = Trace[l].disk /\ heap' = << >> /\ memo' = << >> /\ UNCHANGED <<l,bad>>
Step == /\ l <= Len(Trace) /\ k \in 1..Len(Trace[l].steps)
        /\ bad' = Note(Failing)
        /\ heap' = S.heap /\ disk' = S.disk
        /\ memo' = IF S.do = "op" THEN Learn(memo,TheKey,S.res) ELSE memo
        /\ k' = k + 1 /\ l' = l
End == /\ l <= Len(Trace) /\ k = Len(Trace[l].steps) + 1
       /\ l' = l + 1 /\ k' = 0 /\ UNCHANGED <<heap,disk,memo,bad>>
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED <<k,heap,disk,memo,bad>>
Next == Begin \/ Step \/ End \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
