------------------------------ MODULE Runtime ------------------------------
(***************************************************************************)
(* The run-time registry of coverage objects (C10).                        *)
(*                                                                         *)
(* Realms hold, per coverage variable, a table from path to coverage       *)
(* object.  Files exist in versions; a load of a file either finds its     *)
(* coverage object in the table or puts a new one there; the loaded        *)
(* instance then counts into that object for ever.                         *)
(*                                                                         *)
(* The registry is specified twice: keep is what is claimed, again is the  *)
(* behaviour of the present implementation, which starts over on every     *)
(* load (the known finding).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  FILES,   \* paths
  VERS,    \* versions: 1 and 3 have the same coverage data, 2 differs
  CVS,     \* coverage variables
  NREALM,
  MaxOps,
  MaxObj,  \* instances that may exist
  OPS,     \* subset of {"load","bundle","call","wipe","foreign"}
  EMIT

VARIABLES keep, again, ops, ph
vars == <<keep, again, ops, ph>>

Realms == 1..NREALM
Data(v) == IF v = 3 THEN 1 ELSE v
Foreign == "other"

(* tab: coverage variable, path -> object (0: none); obj: the coverage objects; ins: loaded instances *)
Empty == [tab |-> [r \in Realms |-> [c \in CVS |-> [f \in FILES |-> 0]]],
          out |-> [r \in Realms |-> [c \in CVS |-> FALSE]],   \* somebody else's entry is there
          obj |-> <<>>, ins |-> <<>>]

Init == keep = Empty /\ again = Empty /\ ops = <<>> /\ ph = "op"

Found(m, r, c, f, v) == LET o == m.tab[r][c][f] IN o # 0 /\ m.obj[o].d = Data(v)
(* the new object is added even if it is not used: numbering is the same in both machines *)
Load(m, r, c, f, v, reuse) ==
  LET n == Len(m.obj) + 1
      hit == reuse /\ Found(m, r, c, f, v)
      o == IF hit THEN m.tab[r][c][f] ELSE n
      obj == Append(m.obj, [f |-> f, d |-> Data(v), loads |-> 0, calls |-> 0])
  IN [m EXCEPT !.obj = [obj EXCEPT ![o].loads = @ + 1],
               !.tab[r][c][f] = o,
               !.ins = Append(@, [o |-> o, r |-> r])]
Call(m, i) == [m EXCEPT !.obj[m.ins[i].o].calls = @ + 1]
Wipe(m, r, c) == [m EXCEPT !.tab[r][c] = [f \in FILES |-> 0], !.out[r][c] = FALSE]
Other(m, r, c) == [m EXCEPT !.out[r][c] = TRUE]

Both(o, f(_, _)) == /\ keep' = f(keep, TRUE) /\ again' = f(again, FALSE)
                    /\ ops' = Append(ops, o)
                    /\ ph' = "show"

Op ==
  /\ ph = "op" /\ Len(ops) < MaxOps
  /\ \/ /\ "load" \in OPS /\ Len(keep.ins) < MaxObj
        /\ \E r \in Realms, c \in CVS, f \in FILES, v \in VERS :
             LET G(m, b) == Load(m, r, c, f, v, b) IN Both([o |-> "load", r |-> r, c |-> c, f |-> f, v |-> v], G)
     \/ /\ "bundle" \in OPS /\ Len(keep.ins) + 1 < MaxObj
        /\ \E r \in Realms, c \in CVS, f, g \in FILES, v \in VERS :
             /\ f # g
             /\ LET G(m, b) == Load(Load(m, r, c, f, v, b), r, c, g, v, b)
                IN Both([o |-> "bundle", r |-> r, c |-> c, f |-> f, g |-> g, v |-> v], G)
     \/ /\ "call" \in OPS
        /\ \E i \in DOMAIN keep.ins : LET G(m, b) == Call(m, i) IN Both([o |-> "call", i |-> i, r |-> keep.ins[i].r], G)
     \/ /\ "wipe" \in OPS
        /\ \E r \in Realms, c \in CVS : LET G(m, b) == Wipe(m, r, c) IN Both([o |-> "wipe", r |-> r, c |-> c], G)
     \/ /\ "foreign" \in OPS
        /\ \E r \in Realms, c \in CVS : LET G(m, b) == Other(m, r, c) IN Both([o |-> "foreign", r |-> r, c |-> c], G)

View(m) ==
  [r \in Realms |-> [c \in CVS |->
     [out |-> m.out[r][c],
      e |-> [f \in { f \in FILES : m.tab[r][c][f] # 0 } |->
               LET o == m.obj[m.tab[r][c][f]] IN <<o.d, o.loads, o.calls>>]]]]

Show == /\ ph = "show" /\ ph' = "op"
        /\ EMIT => PrintT("H" \o ToJson([ops |-> ops, keep |-> View(keep), again |-> View(again)]))
        /\ UNCHANGED <<keep, again, ops>>
Next == Op \/ Show
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Instances == DOMAIN keep.ins
LoadsOf == SelectSeq(ops, LAMBDA o : o.o \in {"load", "bundle"})
(* an entry is that of its own path *)
OwnEntry == \A r \in Realms, c \in CVS, f \in FILES :
  keep.tab[r][c][f] # 0 => keep.obj[keep.tab[r][c][f]].f = f
(* the newest load of a path, unless wiped, is what the table says: its data, and it counts there *)
Newest(r, c, f) ==
  { i \in DOMAIN ops :
      /\ (ops[i].o = "load" /\ ops[i].r = r /\ ops[i].c = c /\ ops[i].f = f)
         \/ (ops[i].o = "bundle" /\ ops[i].r = r /\ ops[i].c = c /\ f \in {ops[i].f, ops[i].g})
      /\ \A j \in (i + 1)..Len(ops) : ~(ops[j].o = "wipe" /\ ops[j].r = r /\ ops[j].c = c) }
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Registered == \A r \in Realms, c \in CVS, f \in FILES :
  LET S == Newest(r, c, f) o == keep.tab[r][c][f]
  IN IF S = {} THEN o = 0 ELSE o # 0 /\ keep.obj[o].d = Data(ops[SetMax(S)].v) /\ keep.obj[o].loads >= 1
(* the hits of an entry: every load and call of instances of the file since its data last changed or it was wiped *)
RECURSIVE Total(_, _)
Total(s, k) == IF s = <<>> THEN 0 ELSE s[1][k] + Total(Tail(s), k)
NothingLost ==
  /\ Total([o \in DOMAIN keep.obj |-> [l |-> keep.obj[o].loads]], "l") = Len(keep.ins)
  /\ Total([o \in DOMAIN keep.obj |-> [l |-> keep.obj[o].calls]], "l") = Len(SelectSeq(ops, LAMBDA o : o.o = "call"))
(* reloading what is there keeps its hits *)
Keeps == [][\A r \in Realms, c \in CVS, f \in FILES :
              LET o == keep.tab[r][c][f] p == keep'.tab[r][c][f]
              IN (o # 0 /\ p # 0 /\ keep'.obj[p].d = keep.obj[o].d)
                   => p = o /\ keep'.obj[p].calls >= keep.obj[o].calls /\ keep'.obj[p].loads >= keep.obj[o].loads]_vars
(* the two agree unless something was loaded again *)
SameIfFresh ==
  (\A i, j \in DOMAIN ops : (i # j /\ ops[i].o \in {"load", "bundle"} /\ ops[j].o \in {"load", "bundle"}) =>
       ~\E f \in FILES : f \in {ops[i].f, IF ops[i].o = "bundle" THEN ops[i].g ELSE ops[i].f}
                      /\ f \in {ops[j].f, IF ops[j].o = "bundle" THEN ops[j].g ELSE ops[j].f})
  => View(keep) = View(again)
=============================================================================
