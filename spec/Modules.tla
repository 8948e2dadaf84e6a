------------------------------ MODULE Modules -------------------------------
(***************************************************************************)
(* C22, module structure.  A graph of modules is linked and evaluated as   *)
(* ECMAScript says: bindings are created first (functions with their       *)
(* value, var with undefined, the others dead), then each module runs      *)
(* after the modules it imports, in the order of its imports, cycles cut   *)
(* where a module is already being evaluated.  Imports read the binding    *)
(* itself, so that later assignments show.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NM,           \* modules 1..NM; module 1 is the entry
          FORMS,        \* export forms
          USES,         \* how an import is written
          CYCLES, MaxDeps, EMIT

VARIABLES graph, st, stack, val, log, ph
vars == <<graph, st, stack, val, log, ph>>

Ms == 1..NM
(* what a module exports: const let var list (const, exported by a list), func gen cls dexp (default expression), dfun dcls darr,
   reex (export { v } from its last import), star (export * from it), nstar (export * as v from it) *)
Through == {"reex", "star", "nstar"}
Early == {"func", "dfun", "gen"}
Default == {"dexp", "dfun", "dcls", "darr"}
Deps(m) == graph[m].deps
Last(m) == Deps(m)[Len(Deps(m))].to
RECURSIVE Home(_)      \* the module whose binding the export of m is; nstar is its own
Home(m) == IF graph[m].form \in {"reex", "star"} THEN Home(Last(m)) ELSE m
RECURSIVE Named(_)
Named(m) == IF graph[m].form \in {"reex", "star"} THEN Named(Last(m)) ELSE graph[m].form \notin Default

Uses == [to : Ms, use : USES]
DepSeqs(m) == UNION { { d \in [1..n -> Uses] : \A i \in 1..n : /\ d[i].to # m
                                                              /\ (CYCLES \/ d[i].to > m)
                                                              /\ \A j \in 1..(i - 1) : d[j].to # d[i].to } : n \in 0..MaxDeps }
Cfg(m) == { [deps |-> d, form |-> f] : d \in DepSeqs(m), f \in FORMS }
Valid(g) == /\ \A m \in Ms : g[m].form \in Through => Len(g[m].deps) > 0 /\ g[m].deps[Len(g[m].deps)].to > m
            /\ \A m \in 2..NM : \E k \in Ms : \E i \in DOMAIN g[k].deps : g[k].deps[i].to = m
(* a name or star is passed on only if there is one to be passed on *)
RECURSIVE Fits(_, _)
Fits(g, m) == g[m].form \in {"reex", "star"} =>
                LET t == g[m].deps[Len(g[m].deps)].to IN g[t].form \notin Default /\ Fits(g, t)

Init == /\ \E a \in Cfg(1), b \in Cfg(2), c \in (IF NM = 3 THEN Cfg(3) ELSE {0}) :
              /\ graph = [m \in Ms |-> IF m = 1 THEN a ELSE IF m = 2 THEN b ELSE c]
              /\ Valid(graph) /\ \A m \in Ms : Fits(graph, m)
        /\ st = [m \in Ms |-> "new"]
        /\ stack = <<[m |-> 1, i |-> 1, pc |-> "deps"]>>
        /\ val = [m \in Ms |-> CASE graph[m].form \in Early -> "ok" [] graph[m].form = "var" -> "undef" [] graph[m].form = "nstar" -> "ok" [] OTHER -> "dead"]
        /\ log = <<>> /\ ph = "run"

Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
Note(m, e, v) == log' = Append(log, <<m, e, v>>)
RECURSIVE PassesAll(_)
PassesAll(m) == CASE graph[m].form = "reex" -> FALSE [] graph[m].form = "star" -> PassesAll(Last(m)) [] OTHER -> TRUE
Read(m) == LET h == Home(m) IN IF graph[h].form = "nstar" THEN "ns" ELSE val[h]

(* its imports first *)
Dep == /\ ph = "run" /\ stack # <<>> /\ Top.pc = "deps"
       /\ LET m == Top.m IN
          IF Top.i > Len(Deps(m))
          THEN /\ stack' = SetTop([m |-> m, i |-> 1, pc |-> "start"]) /\ st' = [st EXCEPT ![m] = "running"]
          ELSE LET t == Deps(m)[Top.i].to IN
               /\ st' = [st EXCEPT ![m] = "running"]
               /\ stack' = IF st[t] = "new" THEN Append(SetTop([Top EXCEPT !.i = @ + 1]), [m |-> t, i |-> 1, pc |-> "deps"])
                           ELSE SetTop([Top EXCEPT !.i = @ + 1])
       /\ UNCHANGED <<graph, val, log, ph>>
Start == /\ ph = "run" /\ stack # <<>> /\ Top.pc = "start"
         /\ Note(Top.m, "start", "") /\ stack' = SetTop([Top EXCEPT !.pc = "use"])
         /\ UNCHANGED <<graph, st, val, ph>>
(* each import is read before the module's own export is made *)
Use == /\ ph = "run" /\ stack # <<>> /\ Top.pc = "use"
       /\ LET m == Top.m IN
          IF Top.i > Len(Deps(m)) THEN stack' = SetTop([Top EXCEPT !.pc = "export"]) /\ UNCHANGED log
          ELSE LET d == Deps(m)[Top.i] IN
               /\ stack' = SetTop([Top EXCEPT !.i = @ + 1])
               /\ IF d.use = "side" THEN UNCHANGED log ELSE Note(m, "use", Read(d.to))
       /\ UNCHANGED <<graph, st, val, ph>>
Export == /\ ph = "run" /\ stack # <<>> /\ Top.pc = "export"
          /\ LET m == Top.m IN
             /\ val' = IF graph[m].form \in Through THEN val ELSE [val EXCEPT ![m] = "ok"]
             /\ IF graph[m].form \in {"const", "let", "var", "list", "dexp"} THEN Note(m, "init", "") ELSE UNCHANGED log
             /\ stack' = SetTop([Top EXCEPT !.pc = "set", !.i = 1])
          /\ UNCHANGED <<graph, st, ph>>
(* a module with a let export is told to change it, and it is read again *)
Set == /\ ph = "run" /\ stack # <<>> /\ Top.pc = "set"
       /\ LET m == Top.m IN
          IF Top.i > Len(Deps(m))
          THEN /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ st' = [st EXCEPT ![m] = "done"] /\ Note(m, "end", "") /\ UNCHANGED val
          ELSE LET d == Deps(m)[Top.i] IN LET h == Home(d.to) IN
               /\ stack' = SetTop([Top EXCEPT !.i = @ + 1]) /\ UNCHANGED st
               /\ IF d.use = "side" \/ graph[h].form # "let" \/ ~PassesAll(d.to) THEN UNCHANGED <<val, log>>
                  ELSE IF val[h] = "dead" THEN Note(m, "set", "dead") /\ UNCHANGED val
                  ELSE val' = [val EXCEPT ![h] = "changed"] /\ Note(m, "set", "changed")
       /\ UNCHANGED <<graph, ph>>
Show == /\ ph = "run" /\ stack = <<>>
        /\ EMIT => PrintT("M" \o ToJson([g |-> graph, log |-> log, val |-> [m \in Ms |-> Read(m)], named |-> [m \in Ms |-> Named(m)]]))
        /\ ph' = "end" /\ UNCHANGED <<graph, st, stack, val, log>>
Next == Dep \/ Start \/ Use \/ Export \/ Set \/ Show
Spec == Init /\ [][Next]_vars

(* imported modules are evaluated first, unless a cycle is cut *)
First == ph = "end" /\ ~CYCLES =>
   \A m \in Ms : \A i \in DOMAIN Deps(m) :
      \E a, b \in DOMAIN log : log[a] = <<Deps(m)[i].to, "end", "">> /\ log[b] = <<m, "start", "">> /\ a < b
Once == \A m \in Ms : Cardinality({ i \in DOMAIN log : log[i][1] = m /\ log[i][2] = "start" }) <= 1
Alive == ~CYCLES => \A i \in DOMAIN log : log[i][3] # "dead"
=============================================================================
