----------------------------- MODULE Transforms -----------------------------
(***************************************************************************)
(* Transforms in one process (C11).  Each worker transforms one request    *)
(* after the other; a transform takes the name of its counter function,    *)
(* counts, and writes its output.  OWN says where the name comes from: the *)
(* file's own name, or a cell of the process that the first transform      *)
(* sets (what the implementation once did; the invariants fail then).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NREQ,   \* requests 1..NREQ: NVAR variants (programs, options) of each file
          NVAR, NWORK, MaxLen, OWN, EMIT

VARIABLES cell, work, done, ph
vars == <<cell, work, done, ph>>

Workers == 1..NWORK
REQS == 1..NREQ
FileOf(q) == ((q - 1) \div NVAR) + 1
Idle == [st |-> "idle", q |-> 0, nm |-> 0, n |-> 0]
Init == cell = 0 /\ work = [w \in Workers |-> Idle] /\ done = <<>> /\ ph = "run"

Started == Len(done) + Cardinality({ w \in Workers : work[w].st # "idle" })
Name(q) == IF OWN THEN FileOf(q) ELSE IF cell = 0 THEN FileOf(q) ELSE cell

Start(w, q) ==
  /\ ph = "run" /\ work[w].st = "idle" /\ Started < MaxLen
  /\ work' = [work EXCEPT ![w] = [st |-> "count", q |-> q, nm |-> Name(q), n |-> 0]]
  /\ cell' = IF cell = 0 THEN FileOf(q) ELSE cell
  /\ UNCHANGED <<done, ph>>
Count(w) ==
  /\ ph = "run" /\ work[w].st = "count"
  /\ work' = [work EXCEPT ![w].st = "emit", ![w].n = work[w].q]
  /\ UNCHANGED <<cell, done, ph>>
Finish(w) ==
  /\ ph = "run" /\ work[w].st = "emit"
  /\ done' = Append(done, [w |-> w, q |-> work[w].q, nm |-> work[w].nm, n |-> work[w].n])
  /\ work' = [work EXCEPT ![w] = Idle]
  /\ UNCHANGED <<cell, ph>>
Show ==
  /\ ph = "run" /\ Len(done) = MaxLen
  /\ EMIT => PrintT("T" \o ToJson([s |-> [i \in DOMAIN done |-> <<done[i].w, done[i].q>>]]))
  /\ ph' = "end"
  /\ UNCHANGED <<cell, work, done>>
Next == (\E w \in Workers : (\E q \in REQS : Start(w, q)) \/ Count(w) \/ Finish(w)) \/ Show
Spec == Init /\ [][Next]_vars

(* the output of a transform is that of its request alone *)
Function == \A i \in DOMAIN done : done[i].nm = FileOf(done[i].q) /\ done[i].n = done[i].q
(* files with different names get different counter functions *)
Apart == \A i, j \in DOMAIN done : FileOf(done[i].q) # FileOf(done[j].q) => done[i].nm # done[j].nm
=============================================================================
