----------------------------- MODULE MCSession -----------------------------
(* An implementation with cells (memory), references to them, files with
   time stamps, and a cache of files read; the ways an implementation can go
   wrong are the values of Cache and Alias.  Objects carry what they should
   hold (want), the answers what they should be (memo). *)
EXTENDS Session, TLC
CONSTANTS Paths, V, MaxObj, MaxDepth, Cache, Alias
VARIABLES cell, obj, want, disk, stamp, kept, memo, sound, depth
vars == <<cell,obj,want,disk,stamp,kept,memo,sound,depth>>
Vals == 0..(V-1)
None == [cell |-> 0, stamp |-> 0, val |-> 0]
Init == /\ cell = <<>> /\ obj = <<>> /\ want = <<>> /\ memo = << >>
        /\ disk = [ p \in Paths |-> 0 ] /\ stamp = [ p \in Paths |-> 1 ]
        /\ kept = [ p \in Paths |-> None ] /\ sound = TRUE /\ depth = 0
Heap == [ o \in DOMAIN obj |-> IF obj[o] > 0 THEN cell[obj[o]] ELSE 0 ]
Room == Len(obj) < MaxObj
\* pure: what a process that has done nothing before answers (a key seen twice
\* with equal answers is not enough: a stale answer is only ever given once)
Give(c,val,key,pure) == /\ obj' = Append(obj,c) /\ want' = Append(want,val)
                   /\ sound' = (sound /\ Agrees(memo,key,val) /\ val = pure) /\ memo' = Learn(memo,key,val)
Hit(p) == CASE Cache = "none" -> FALSE
            [] Cache = "path" -> kept[p].cell > 0
            [] Cache = "stamp" -> kept[p].cell > 0 /\ kept[p].stamp = stamp[p]
            [] Cache = "content" -> kept[p].cell > 0 /\ kept[p].val = disk[p]
Read(p) == /\ Room
           /\ LET key == Key("read",<<>>,<<p>>,<<>>,disk)
                  val == IF Hit(p) THEN cell[kept[p].cell] ELSE disk[p]
                  share == Hit(p) /\ Alias = "shared"
                  n == Len(cell)+1
                  c == IF share THEN kept[p].cell ELSE n
                  \* what stays in the cache: the cell given out, or a copy of it
                  own == IF Hit(p) THEN kept[p].cell ELSE IF Alias = "shared" THEN n ELSE n+1
              IN /\ cell' = (IF share THEN cell ELSE IF Hit(p) \/ Cache = "none" \/ Alias = "shared" THEN Append(cell,val) ELSE cell \o <<val,val>>)
                 /\ Give(c,val,key,disk[p])
                 /\ kept' = (IF Cache = "none" THEN kept ELSE [kept EXCEPT ![p] = [cell |-> own, stamp |-> stamp[p], val |-> disk[p]]])
           /\ UNCHANGED <<disk,stamp>>
Work(o) == /\ Room
           /\ LET key == Key("work",<<o>>,<<>>,Heap,disk)
                  val == (cell[obj[o]] + 1) % V
              IN /\ IF Alias = "inplace" THEN cell' = [cell EXCEPT ![obj[o]] = val] ELSE cell' = Append(cell,val)
                 /\ Give(IF Alias = "inplace" THEN obj[o] ELSE Len(cell)+1,val,key,(want[o]+1)%V)
           /\ UNCHANGED <<disk,stamp,kept>>
Same(o) == /\ Room                  \* the answer happens to equal the argument
           /\ LET key == Key("same",<<o>>,<<>>,Heap,disk)  val == cell[obj[o]]
              IN /\ cell' = (IF Alias = "view" THEN cell ELSE Append(cell,val))
                 /\ Give(IF Alias = "view" THEN obj[o] ELSE Len(cell)+1,val,key,want[o])
           /\ UNCHANGED <<disk,stamp,kept>>
Save(o,p) == /\ disk' = [disk EXCEPT ![p] = cell[obj[o]]] /\ stamp' = [stamp EXCEPT ![p] = 3 - @]
             /\ UNCHANGED <<cell,obj,want,kept,memo,sound>>
Mutate(o,v) == /\ cell' = [cell EXCEPT ![obj[o]] = v] /\ want' = [want EXCEPT ![o] = v]
               /\ UNCHANGED <<obj,disk,stamp,kept,memo,sound>>
Put(p,v,t) == /\ disk' = [disk EXCEPT ![p] = v] /\ stamp' = [stamp EXCEPT ![p] = t]
              /\ UNCHANGED <<cell,obj,want,kept,memo,sound>>
Next == /\ depth < MaxDepth /\ depth' = depth + 1
        /\ \/ \E p \in Paths : Read(p) \/ (\E v \in Vals, t \in 1..2 : Put(p,v,t))
           \/ \E o \in DOMAIN obj : Work(o) \/ Same(o) \/ (\E p \in Paths : Save(o,p)) \/ (\E v \in Vals : Mutate(o,v))
Spec == Init /\ [][Next]_vars
StandAlone == \A o \in DOMAIN obj : cell[obj[o]] = want[o]
Functional == sound
=============================================================================
