----------------------------- MODULE TraceMeta -----------------------------
(* events [ev "meta", toks, res: sequence of [kind, mro, dict]]: the answers of
   the parser to the text toks (from a file name, from an open file);
   dict: sequence of <<key, values>>, values <<type, text>> like tokens. *)
EXTENDS Meta, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l,bad>>
AsFun(d) == [ k \in { d[i][1] : i \in DOMAIN d } |-> (CHOOSE i \in DOMAIN d : d[i][1] = k) ]
Same(d,want) == /\ { d[i][1] : i \in DOMAIN d } = DOMAIN want
                /\ \A i \in DOMAIN d : d[i][2] = want[d[i][1]]
Clauses(e) == IF Accepts(e.toks)
   THEN LET want == Dict(e.toks) IN
        << <<"meta.accepted", \A k \in DOMAIN e.res : e.res[k].kind = "ok">>,
           <<"meta.values", \A k \in DOMAIN e.res : e.res[k].kind = "ok" => Same(e.res[k].dict,want)>> >>
   ELSE << <<"meta.refused", \A k \in DOMAIN e.res : e.res[k].kind = "err" /\ \E q \in DOMAIN e.res[k].mro : e.res[k].mro[q] = "ValueError">> >>
Failing(e) == LET c == Clauses(e) IN { c[k][1] : k \in { k \in DOMAIN c : ~c[k][2] } }
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET F == Failing(Trace[l]) IN
           bad' = IF F = {} THEN bad ELSE Append(bad, [at |-> l, clauses |-> F])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
