------------------------------- MODULE Place --------------------------------
(***************************************************************************)
(* Instrumentation.  Keys says which counters a program owns (the          *)
(* properties' text, declaratively); Visit says where the transform puts   *)
(* increments (structured like the visitors of the implementation: what a  *)
(* child wants in front of its statement is handed up in bf).  Instr.tla   *)
(* checks one against the other.                                           *)
(***************************************************************************)
EXTENDS Sem

CONSTANTS REPORT,  \* option reportLogic
          IGN      \* option ignoreClassMethods: set of names

(***************************************************************************)
(* Which counters a tree owns.  <<"s", id, 0>> statement or initialiser,   *)
(* <<"f", id, 0>> function, <<"b", id, alt>> alternative alt of a branch,  *)
(* <<"t", id, alt>> its true counter, <<"B", id, 0>> the branch entry.     *)
(***************************************************************************)
Named(n) == \/ n.k \in MemKinds /\ n.a = "id"
            \/ n.k = "fe" /\ n.a = "named"
ByOption(n) == Named(n) /\ n.nm \in IGN
Out(n) == n.h = "next" \/ ByOption(n)

FKinds == {"fn", "fe", "ar"} \cup MemKinds

RECURSIVE Leaves(_)
Leaves(n) ==   \* the operands of a chain of logical operators, in order
  IF n.h = "next" THEN <<>>
  ELSE IF n.k = "lg" THEN Leaves(n.kids[1]) \o Leaves(n.kids[2])
  ELSE IF n.k = "par" /\ n.kids[1].lr # 0 /\ n.lr # 0 THEN Leaves(n.kids[1])
  ELSE <<n>>

OwnKeys(n) ==
  LET init == InitOf(n)
      alt(i) == IF n.kids[i].h = "next" THEN {} ELSE { B(n, n.kids[i].id) }
  IN (IF n.k \in StmtKinds THEN { S(n) } ELSE {})
     \cup (IF n.k = "tag" THEN { S(n) } ELSE {})
     \cup (IF n.k \in FKinds THEN { F(n) } ELSE {})
     \cup (IF n.k = "ar" /\ n.a = "e" /\ Body(n).h # "next" THEN { S(Body(n)) } ELSE {})
     \cup (IF n.k \in {"dtor", "fld", "pfld", "sfld"} /\ n.kids # <<>>
           THEN { S(n.kids[IF n.k = "dtor" THEN Len(n.kids) ELSE 1]) } ELSE {})
     \cup (CASE n.k = "if" -> { <<"B", n.id, 0>> }
                \cup (IF n.h = "if" THEN {} ELSE { B(n, n.kids[2].id) })
                \cup (IF n.h = "else" THEN {} ELSE { B(n, IF Len(n.kids) = 3 THEN n.kids[3].id ELSE 0) })
             [] n.k = "cond" -> { <<"B", n.id, 0>> } \cup alt(2) \cup alt(3)
             [] n.k = "sw" -> { <<"B", n.id, 0>> } \cup UNION { alt(i) : i \in 2..Len(n.kids) }
             [] n.k \in {"dflt", "pd"} -> { <<"B", n.id, 0>>, B(n, n.kids[1].id) }
             [] n.k = "lg" /\ n.lr = 0 ->
                  LET ls == Leaves(n) IN
                  { <<"B", n.id, 0>> } \cup { B(n, ls[i].id) : i \in DOMAIN ls }
                  \cup (IF REPORT THEN { <<"t", n.id, ls[i].id>> : i \in DOMAIN ls } ELSE {})
             [] OTHER -> {})

RECURSIVE Keys(_)
Keys(n) ==
  IF Out(n) THEN {}
  ELSE OwnKeys(n)
       \cup UNION { IF n.k = "if" /\ ((i = 2 /\ n.h = "if") \/ (i = 3 /\ n.h = "else")) THEN {}
                    ELSE Keys(n.kids[i]) : i \in DOMAIN n.kids }
Counters(n) == { k \in Keys(n) : k[1] # "B" }

(***************************************************************************)
(* Where increments go                                                     *)
(***************************************************************************)
Blank(n) == [n EXCEPT !.kids = <<>>, !.eg = <<>>, !.h = "", !.nm = "", !.a = "", !.lr = 0, !.lb = "", !.r = 0, !.lz = FALSE]
Inc(n, key) == [Blank(n) EXCEPT !.k = "inc", !.ky = key, !.id = 0]
Wrap(n, k, key) == [Blank(n) EXCEPT !.k = k, !.ky = key, !.id = 0, !.kids = <<n>>]
Incs(n, keys) == [i \in DOMAIN keys |-> Inc(n, keys[i])]
Blk(n, kids) == [Blank(n) EXCEPT !.k = "blk", !.kids = kids]

Vd(t, bf) == [t |-> t, bf |-> bf]

RECURSIVE Visit(_), VisitList(_), VisitChain(_, _)

VisitKids(n, from, to) ==   \* children from..to in order
  LET rs == [i \in DOMAIN n.kids |-> IF i \in from..to THEN Visit(n.kids[i]) ELSE Vd(n.kids[i], <<>>)]
  IN [ts |-> [i \in DOMAIN rs |-> rs[i].t], bf |-> Cat([i \in DOMAIN rs |-> rs[i].bf])]

VisitList(ns) ==   \* a statement list takes up what its statements hand up
  Cat([i \in DOMAIN ns |-> LET r == Visit(ns[i]) IN Incs(ns[i], r.bf) \o <<r.t>>])

Arm(n, first) ==   \* an embedded statement as a block, first goes in front
  IF n.k = "blk" THEN [n EXCEPT !.kids = first \o (IF n.h = "next" THEN n.kids ELSE VisitList(n.kids))]
  ELSE Blk(n, first \o VisitList(<<n>>))

FnBody(f, b) ==
  [b EXCEPT !.kids = Incs(b, IF f.k \in FKinds THEN << F(f) >> ELSE <<>>) \o VisitList(b.kids)]

VisitChain(n, root) ==   \* an operand of the logical expression root
  IF n.h = "next" THEN Vd(n, <<>>)
  ELSE IF n.k = "lg" \/ (n.k = "par" /\ n.kids[1].lr # 0 /\ n.lr # 0)
  THEN LET rs == [i \in DOMAIN n.kids |-> VisitChain(n.kids[i], root)]
       IN Vd([n EXCEPT !.kids = [i \in DOMAIN rs |-> rs[i].t]], Cat([i \in DOMAIN rs |-> rs[i].bf]))
  ELSE LET r == Visit(n)
       IN Vd(Wrap(r.t, IF REPORT THEN "wrapt" ELSE "wrap", <<"b", root, n.id>>), r.bf)

Visit(n) ==
  IF Out(n) THEN Vd(n, <<>>)
  ELSE CASE n.k \in {"blk", "prog", "sblk"} -> Vd([n EXCEPT !.kids = VisitList(n.kids)], <<>>)
    [] n.k = "grp" -> Vd([n EXCEPT !.kids = VisitList(n.kids)], <<>>)
    [] n.k \in {"es", "ret", "thr", "brk", "cont", "lab", "try"} ->
         LET r == VisitKids(n, 1, Len(n.kids))
         IN Vd([n EXCEPT !.kids = r.ts], << S(n) >> \o r.bf)
    [] n.k = "if" ->
         LET test == Visit(n.kids[1])
             cons == IF n.h = "if" THEN n.kids[2] ELSE Arm(n.kids[2], <<Inc(n, B(n, n.kids[2].id))>>)
             alt == IF n.h = "else" THEN SubSeq(n.kids, 3, Len(n.kids))
                    ELSE IF Len(n.kids) = 3 THEN <<Arm(n.kids[3], <<Inc(n, B(n, n.kids[3].id))>>)>>
                    ELSE <<[Blk(n, <<Inc(n, B(n, 0))>>) EXCEPT !.id = 0]>>
         IN Vd([n EXCEPT !.kids = <<test.t, cons>> \o alt], << S(n) >> \o test.bf)
    [] n.k \in {"for", "while", "fof", "fin"} ->
         LET l == Len(n.kids)
             r == VisitKids(n, 1, l - 1)
         IN Vd([n EXCEPT !.kids = [r.ts EXCEPT ![l] = Arm(n.kids[l], <<>>)]], << S(n) >> \o r.bf)
    [] n.k = "do" ->
         LET r == VisitKids(n, 2, 2)
         IN Vd([n EXCEPT !.kids = [r.ts EXCEPT ![1] = Arm(n.kids[1], <<>>)]], << S(n) >> \o r.bf)
    [] n.k = "with" ->
         LET r == VisitKids(n, 1, 1)
         IN Vd([n EXCEPT !.kids = [r.ts EXCEPT ![2] = Arm(n.kids[2], <<>>)]], << S(n) >> \o r.bf)
    [] n.k = "sw" ->
         LET d == Visit(n.kids[1])
             cs(i) ==
               LET c == n.kids[i]
                   first == <<Inc(c, B(n, c.id))>>
               IN IF c.h = "next" THEN Vd(c, <<>>)
                  ELSE IF c.a = "default" THEN Vd([c EXCEPT !.kids = first \o VisitList(c.kids)], <<>>)
                  ELSE LET t == Visit(c.kids[1])
                       IN Vd([c EXCEPT !.kids = <<t.t>> \o first \o VisitList(Tail(c.kids))], t.bf)
             rs == [i \in DOMAIN n.kids |-> IF i = 1 THEN d ELSE cs(i)]
         IN Vd([n EXCEPT !.kids = [i \in DOMAIN rs |-> rs[i].t]], << S(n) >> \o Cat([i \in DOMAIN rs |-> rs[i].bf]))
    [] n.k \in {"dtor", "fld", "pfld", "sfld"} ->
         IF n.kids = <<>> THEN Vd(n, <<>>)
         ELSE LET j == IF n.k = "dtor" THEN Len(n.kids) ELSE 1
                  r == VisitKids(n, 1, Len(n.kids))
                  key == S(n.kids[j])
              IN IF n.kids[j].k = "tag" THEN Vd([n EXCEPT !.kids = r.ts], r.bf)
                 ELSE IF n.lz THEN Vd([n EXCEPT !.kids = [r.ts EXCEPT ![j] = Wrap(@, "wrap", key)]], r.bf)
                 ELSE Vd([n EXCEPT !.kids = r.ts], <<key>> \o r.bf)
    [] n.k \in FnKinds ->
         LET l == Len(n.kids)
             r == VisitKids(n, 1, l - 1)
             b == n.kids[l]
             e == Visit(b)
         IN IF n.k = "ar" /\ n.a = "e"
            THEN LET ret == [Blank(b) EXCEPT !.k = "ret", !.kids = <<e.t>>]
                     pre == << F(n) >> \o (IF b.h = "next" \/ b.k = "tag" THEN <<>> ELSE << S(b) >>) \o e.bf
                 IN Vd([n EXCEPT !.a = "b", !.kids = [r.ts EXCEPT ![l] = Blk(b, Incs(b, pre) \o <<ret>>)]], r.bf)
            ELSE Vd([n EXCEPT !.kids = [r.ts EXCEPT ![l] = FnBody(n, b)]], r.bf)
    [] n.k = "cond" ->
         LET arm(i) == IF n.kids[i].h = "next" THEN Vd(n.kids[i], <<>>)
                       ELSE LET r == Visit(n.kids[i]) IN Vd(Wrap(r.t, "wrap", B(n, n.kids[i].id)), r.bf)
             rs == <<Visit(n.kids[1]), arm(2), arm(3)>>
         IN Vd([n EXCEPT !.kids = [i \in 1..3 |-> rs[i].t]], Cat([i \in 1..3 |-> rs[i].bf]))
    [] n.k = "lg" -> VisitChain(n, n.id)
    [] n.k \in {"dflt", "pd"} ->
         LET r == Visit(n.kids[1])
         IN Vd([n EXCEPT !.kids = <<Wrap(r.t, "wrap", B(n, n.kids[1].id))>>], r.bf)
    [] n.k = "tag" ->
         LET r == VisitKids(n, 1, Len(n.kids)) IN Vd([n EXCEPT !.kids = r.ts], << S(n) >> \o r.bf)
    [] OTHER -> LET r == VisitKids(n, 1, Len(n.kids)) IN Vd([n EXCEPT !.kids = r.ts], r.bf)

Instrument(n) == Visit(n).t

(* the increments in a tree, with multiplicity *)
RECURSIVE Sites(_)
Sites(n) ==
  (IF n.k \in {"inc", "wrap", "wrapt"} THEN <<n.ky>> ELSE <<>>)
  \o (IF n.k = "wrapt" THEN << <<"t", n.ky[2], n.ky[3]>> >> ELSE <<>>)
  \o Cat([i \in DOMAIN n.kids |-> Sites(n.kids[i])])
=============================================================================
