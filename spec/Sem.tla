-------------------------------- MODULE Sem ---------------------------------
(***************************************************************************)
(* The meaning of programs: a machine with a work stack and a completion   *)
(* register, in small steps.  It runs original programs, where it counts   *)
(* the events a coverage counter stands for (g), and instrumented programs *)
(* (made by Place), where increments are part of the code (cn).            *)
(*                                                                         *)
(* A machine m:                                                            *)
(*   w     work stack of tasks [o, n, i, x, y], head first                 *)
(*   c     completion [t, v]; t is "n" normal, "brk", "cont", "ret", "thr" *)
(*   log   observable effects so far                                       *)
(*   g     event counts, a function from counters to numbers               *)
(*   cn    counter values, likewise                                        *)
(*   need  the decision the machine waits for [k, id]; k = "" for none     *)
(*   as    how often each decision has been asked (id -> number)           *)
(*   fl    steps left (guards against endless programs)                    *)
(***************************************************************************)
EXTENDS Lang

T5(o, n, i, x, y) == [o |-> o, n |-> n, i |-> i, x |-> x, y |-> y]
Tk(o, n) == T5(o, n, 0, "", "")
Ti(o, n, i) == T5(o, n, i, "", "")
Ex(n) == Tk("ex", n)
ExAll(ns) == [j \in DOMAIN ns |-> Ex(ns[j])]

Ok(v) == [t |-> "n", v |-> v]
NoNeed == [k |-> "", id |-> 0]
Bot == [o |-> "none"]

Machine(tree, keys, fuel) ==
  [w |-> <<Ex(tree)>>, c |-> Ok("U"), log |-> <<>>, g |-> [x \in keys |-> 0],
   cn |-> [x \in keys |-> 0], need |-> NoNeed, as |-> << >>, fl |-> fuel]

Ev(m, key) == IF key \in DOMAIN m.g THEN [m EXCEPT !.g[key] = @ + 1] ELSE m
RECURSIVE EvAll(_, _)
EvAll(m, keys) == IF keys = <<>> THEN m ELSE EvAll(Ev(m, Head(keys)), Tail(keys))
Hit(m, key) == [m EXCEPT !.cn = IF key \in DOMAIN @ THEN [@ EXCEPT ![key] = @ + 1] ELSE @ @@ (key :> 1)]

S(n) == <<"s", n.id, 0>>
F(n) == <<"f", n.id, 0>>
B(n, alt) == <<"b", n.id, alt>>

(* values *)
Falsy == {"F", "N", "U", "zero", "es", "nan", "nz", "bz"}
Truthy(v) == v \notin Falsy
Nullish(v) == v \in {"N", "U"}
(* truthy, and neither an empty array nor an empty plain object *)
NonTrivial(v) == Truthy(v) /\ v \notin {"ea", "eo"}
Bool(b) == IF b THEN "T" ELSE "F"

Push(m, ts) == [m EXCEPT !.w = ts \o @]
Val(m, v) == [m EXCEPT !.c = Ok(v)]
Abr(m, t, v) == [m EXCEPT !.c = [t |-> t, v |-> v]]
Log(m, id, v) == [m EXCEPT !.log = Append(@, <<id, v>>)]
Ask(m, k, id) == [m EXCEPT !.need = [k |-> k, id |-> id]]

(***************************************************************************)
(* Calls.  Parameters first, then the body.                                *)
(***************************************************************************)
Params(f) == SelectSeq(f.kids, LAMBDA n : n.k = "pd")
KeyExpr(f) == IF f.a = "cmp" THEN <<f.kids[1]>> ELSE <<>>
Body(f) == f.kids[Len(f.kids)]

Enter(m, f, given) ==   \* given: "T" the argument is passed, "U" it is undefined
  Push([m EXCEPT !.c = Ok(given)],
       [j \in DOMAIN Params(f) |-> Tk("param", Params(f)[j])]
       \o << Tk("body", f), Tk(IF f.k = "ar" /\ f.a = "e" /\ Body(f).k # "blk" THEN "calle" ELSE "callb", f) >>)

IsInit(n) == n.k \in {"fld", "pfld"}
Construct(cls) ==   \* instance fields in order, then the constructor
  LET fl == SelectSeq(cls.kids, IsInit)
      ct == SelectSeq(cls.kids, LAMBDA n : n.k = "ctor")
  IN [j \in DOMAIN fl |-> Tk("init", fl[j])]
     \o (IF ct = <<>> THEN <<>> ELSE <<Tk("ctor", ct[1])>>)

IsKeyed(n) == n.k \in {"meth", "get", "set"} /\ n.a = "cmp"
IsStatic(n) == n.k \in {"sfld", "sblk"}
ClassTasks(c) ==   \* heritage, computed keys, then static fields and blocks
  LET ke == SelectSeq(c.kids, IsKeyed)
      ss == SelectSeq(c.kids, IsStatic)
  IN (IF c.a = "ext" THEN <<Ex(c.kids[1])>> ELSE <<>>)
     \o [j \in DOMAIN ke |-> Ex(ke[j].kids[1])]
     \o [j \in DOMAIN ss |-> IF ss[j].k = "sblk" THEN Ex(ss[j]) ELSE Tk("init", ss[j])]

(***************************************************************************)
(* One step with a normal completion                                       *)
(***************************************************************************)
Reached(m, n) == EvAll(Ev(m, S(n)), n.eg)

RECURSIVE NextTest(_, _)
NextTest(sw, i) ==   \* the next case with a test from child i on (0: none)
  IF i > Len(sw.kids) THEN 0
  ELSE IF sw.kids[i].a # "default" THEN i ELSE NextTest(sw, i + 1)
DefaultOf(sw) == LET d == { i \in 2..Len(sw.kids) : sw.kids[i].a = "default" }
                 IN IF d = {} THEN 0 ELSE Some(d)
CaseBody(c) == LET all == IF c.a = "default" THEN c.kids ELSE Tail(c.kids) IN all
CaseFrom(sw, i) == [j \in 1..(Len(sw.kids) - i + 1) |-> Ti("swb", sw.kids[i + j - 1], sw.id)]

ExNode(m, n) ==
  CASE n.k \in {"prog", "blk", "sblk", "grp"} -> Push(m, ExAll(n.kids))
    [] n.k \in {"empty", "dbg", "dir"} -> m
    [] n.k = "none" -> Val(m, "T")
    [] n.k = "inc" -> Hit(m, n.ky)
    [] n.k = "wrap" -> Push(Hit(m, n.ky), <<Ex(n.kids[1])>>)
    [] n.k = "wrapt" -> Push(Hit(m, n.ky), <<Ex(n.kids[1]), Tk("wrapt", n)>>)
    [] n.k = "es" -> Push(Reached(m, n), <<Ex(n.kids[1])>>)
    [] n.k = "fn" -> EvAll(m, n.eg)
    [] n.k = "cls" -> Push(EvAll(m, n.eg), ClassTasks(n))
    [] n.k = "var" -> Push(EvAll(m, n.eg), ExAll(n.kids))
    [] n.k = "dtor" -> IF n.kids = <<>> THEN m
                       ELSE Push(m, <<Tk("init", n)>> \o (IF n.a = "" THEN <<>> ELSE <<Tk("dflt", n.kids[1])>>))
    [] n.k = "if" -> Push(Reached(m, n), <<Ex(n.kids[1]), Tk("if", n)>>)
    [] n.k = "while" -> Push(Reached(m, n), <<Tk("ltest", n)>>)
    [] n.k = "do" -> Push(Reached(m, n), <<Ex(n.kids[1]), Tk("lbody", n)>>)
    [] n.k = "for" -> Push(Reached(m, n), <<Ex(n.kids[1]), Tk("ltest", n)>>)
    [] n.k \in {"fof", "fin"} -> Push(Reached(m, n), <<Ex(n.kids[1]), Tk("iter", n)>>)
    [] n.k = "sw" -> Push(Reached(m, n), <<Ex(n.kids[1]), Tk("swd", n)>>)
    [] n.k = "brk" -> Abr(Reached(m, n), "brk", n.a)
    [] n.k = "cont" -> Abr(Reached(m, n), "cont", n.a)
    [] n.k = "ret" -> IF n.kids = <<>> THEN Abr(Reached(m, n), "ret", "U")
                      ELSE Push(Reached(m, n), <<Ex(n.kids[1]), Tk("ret", n)>>)
    [] n.k = "thr" -> Push(Reached(m, n), <<Ex(n.kids[1]), Tk("thr", n)>>)
    [] n.k = "try" -> Push(Reached(m, n),
                           <<Ex(n.kids[1])>>
                           \o (IF n.a \in {"c", "cf"} THEN <<Tk("catch", n.kids[2])>> ELSE <<>>)
                           \o (IF n.a = "f" THEN <<Tk("fin", n.kids[2])>> ELSE <<>>)
                           \o (IF n.a = "cf" THEN <<Tk("fin", n.kids[3])>> ELSE <<>>))
    [] n.k = "with" -> Push(Reached(m, n), <<Ex(n.kids[1]), Ex(n.kids[2])>>)
    [] n.k = "lab" -> Push(Reached(m, n), <<Ex(n.kids[1]), Tk("lab", n)>>)
    \* expressions
    [] n.k = "d" -> Ask(m, IF n.a = "n" THEN "n" ELSE "d", n.id)
    [] n.k \in {"arg", "itr"} -> Ask(m, n.k, n.id)
    [] n.k = "opt" -> Push(Ask(m, "n", n.id), <<Tk("opt", n)>>)
    [] n.k = "log" -> Push(m, <<Ex(n.kids[1]), Tk("log", n)>>)
    [] n.k = "cond" -> Push(m, <<Ex(n.kids[1]), Tk("cond", n)>>)
    [] n.k = "lg" -> Push(m, <<Ex(n.kids[1]), Tk("lg", n)>>)
    [] n.k \in {"par", "asg", "seq", "pd", "prop"} -> Push(m, ExAll(n.kids))
    [] n.k = "lit" -> Val(m, Lit[n.a])
    [] n.k \in {"op1", "op2"} ->
         LET v == OpVal(n)
         IN Push(m, ExAll(n.kids) \o (IF v = "=" THEN <<>> ELSE <<T5("val", n, 0, v, "")>>))
    [] n.k = "un" -> Push(m, <<Ex(n.kids[1]), Tk("un", n)>>)
    [] n.k \in {"arr", "bin", "obj", "tpl", "tag"} ->
         Push(m, (IF n.k = "obj"
                  THEN LET ke == SelectSeq(n.kids, LAMBDA x : x.k = "prop" \/ IsKeyed(x))
                       IN [j \in DOMAIN ke |-> Ex(ke[j].kids[1])]
                  ELSE ExAll(n.kids)) \o <<T5("val", n, 0, "O", "")>>)
    [] n.k \in {"fe", "ar"} -> Val(m, "O")
    [] n.k = "ce" -> Push(m, ClassTasks(n) \o <<T5("val", n, 0, "O", "")>>)
    [] n.k = "reg" -> Push(m, <<Ex(n.kids[1])>>)
    [] n.k = "call" -> Push([m EXCEPT !.c = Ok("T")], ExAll(Tail(n.kids)) \o <<Tk("call", n)>>)
    [] n.k = "gcall" -> Push([m EXCEPT !.c = Ok("T")], <<Tk("call", n), T5("val", n, 0, "O", "")>>)
    [] n.k = "dasg" -> Push(m, <<Ex(n.kids[2]), Tk("dflt", n.kids[1]), T5("val", n, 0, "O", "")>>)
    [] n.k = "sp" -> Push(m, <<Ex(n.kids[1]), Tk("sp", n)>>)
    [] n.k = "yld" -> Push(m, <<Ex(n.kids[1]), Tk("yld", n)>>)
    [] n.k = "use" -> Push(m, <<Tk("use", n)>>)
    [] OTHER -> Assert(FALSE, <<"no meaning for", n.k>>)

Round(n, left) ==   \* one iteration of a for-in or for-of: bind, then the body
  (IF Len(n.kids) = 2 THEN <<>> ELSE <<Ex(n.kids[2]), Tk("dflt", n.kids[3])>>)
  \o << Ex(n.kids[Len(n.kids)]), Ti("ibody", n, left) >>

(* tree: the program that runs, where uses find their function *)
Cont(m, t, tree) ==
  LET n == t.n
      v == m.c.v
  IN CASE t.o = "ex" -> ExNode(m, n)
    [] t.o = "val" -> Val(m, t.x)
    [] t.o = "init" -> LET e == n.kids[IF n.k = "dtor" THEN Len(n.kids) ELSE 1]
                       IN Push(IF n.lz THEN Ev(m, <<"s", e.id, 0>>) ELSE m, <<Ex(e)>>)
    [] t.o = "dflt" -> IF v = "U" THEN Push(Ev(m, B(n, n.kids[1].id)), <<Ex(n.kids[1])>>) ELSE m
    [] t.o = "param" -> IF v = "U" THEN Push(Ev(m, B(n, n.kids[1].id)), <<Ex(n.kids[1])>>) ELSE m
    [] t.o = "body" -> LET m1 == Ev(m, F(n)) IN
                       IF n.k = "ar" /\ n.a = "e" /\ Body(n).k # "blk"
                       THEN Push(EvAll(IF Body(n).k = "tag" THEN m1 ELSE Ev(m1, S(Body(n))), Body(n).eg), <<Ex(Body(n))>>)
                       ELSE Push(m1, <<Ex(Body(n))>>)
    [] t.o = "ctor" -> Enter(m, n, "T")
    [] t.o = "callb" -> Val(m, "U")
    [] t.o = "calle" -> m
    [] t.o = "call" -> Enter(m, n.kids[1], v)
    [] t.o = "if" -> IF Truthy(v) THEN Push(Ev(m, B(n, n.kids[2].id)), <<Ex(n.kids[2])>>)
                     ELSE IF Len(n.kids) = 3 THEN Push(Ev(m, B(n, n.kids[3].id)), <<Ex(n.kids[3])>>)
                     ELSE Ev(m, B(n, 0))
    [] t.o = "cond" -> LET arm == n.kids[IF Truthy(v) THEN 2 ELSE 3]
                       IN Push(Ev(m, B(n, arm.id)), <<Ex(arm)>>)
    [] t.o = "lg" -> LET go == CASE n.a = "||" -> ~Truthy(v)
                                 [] n.a = "&&" -> Truthy(v)
                                 [] n.a = "??" -> Nullish(v)
                     IN IF go THEN Push(m, <<Ex(n.kids[2])>>) ELSE m
    [] t.o = "un" -> Val(m, Bool(~Truthy(v)))
    [] t.o = "opt" -> IF v = "N" THEN Val(m, "U") ELSE Push(m, <<Ex(n.kids[1]), T5("val", n, 0, "O", "")>>)
    [] t.o = "log" -> Log(m, n.id, v)
    [] t.o = "yld" -> Val(Log(m, n.id, v), "U")
    [] t.o = "sp" -> IF n.st THEN Abr(m, "thr", "TE") ELSE m
    [] t.o = "wrapt" -> IF NonTrivial(v) THEN Hit(m, <<"t", n.ky[2], n.ky[3]>>) ELSE m
    [] t.o = "leaf" -> IF NonTrivial(v) THEN Ev(m, <<"t", t.i, n.id>>) ELSE m
    [] t.o = "ret" -> Abr(m, "ret", v)
    [] t.o = "thr" -> Abr(m, "thr", v)
    \* loops; lbody is the boundary around the body
    [] t.o = "ltest" -> LET test == IF n.k = "for" THEN n.kids[2] ELSE n.kids[1]
                        IN Push(m, <<Ex(test), Tk("ldec", n)>>)
    [] t.o = "ldec" -> LET body == IF n.k = "for" THEN n.kids[4] ELSE n.kids[2]
                       IN IF Truthy(v) THEN Push(m, <<Ex(body), Tk("lbody", n)>>) ELSE m
    [] t.o = "lbody" -> IF n.k = "while" THEN Push(m, <<Tk("ltest", n)>>)
                        ELSE IF n.k = "for" THEN Push(m, <<Ex(n.kids[3]), Tk("ltest", n)>>)
                        ELSE Push(m, <<Ex(n.kids[2]), Tk("ddec", n)>>)
    [] t.o = "ddec" -> IF Truthy(v) THEN Push(m, <<Ex(n.kids[1]), Tk("lbody", n)>>) ELSE m
    [] t.o = "iter" -> LET k == IF v = "2" THEN 2 ELSE IF v = "1" THEN 1 ELSE 0
                       IN IF k = 0 THEN m ELSE Push(m, Round(n, k - 1))
    [] t.o = "ibody" -> IF t.i = 0 THEN m ELSE Push(m, Round(n, t.i - 1))
    \* switch
    [] t.o = "swd" -> LET j == NextTest(n, 2) IN
                      IF j # 0 THEN Push(m, <<Ex(n.kids[j].kids[1]), T5("swm", n, j, v, "")>>)
                      ELSE IF DefaultOf(n) # 0 THEN Push(m, CaseFrom(n, DefaultOf(n)) \o <<Tk("swe", n)>>)
                      ELSE m
    [] t.o = "swm" -> IF v = t.x /\ v \notin {"O", "nan", "ea", "eo"} THEN Push(m, CaseFrom(n, t.i) \o <<Tk("swe", n)>>)
                      ELSE LET j == NextTest(n, t.i + 1) IN
                           IF j # 0 THEN Push(m, <<Ex(n.kids[j].kids[1]), T5("swm", n, j, t.x, "")>>)
                           ELSE IF DefaultOf(n) # 0 THEN Push(m, CaseFrom(n, DefaultOf(n)) \o <<Tk("swe", n)>>)
                           ELSE m
    [] t.o = "swb" -> Push(Ev(m, <<"b", t.i, n.id>>), ExAll(CaseBody(n)))
    [] t.o \in {"swe", "lab", "catch"} -> m
    [] t.o = "fin" -> Push(m, <<Ex(n), T5("fine", n, 0, "n", "U")>>)
    [] t.o = "fine" -> IF t.x = "n" THEN m ELSE Abr(m, t.x, t.y)
    \* uses: the host calls a function as often as it decides
    [] t.o = "use" ->
         LET f == Some(Find(tree, n.r))
             cls == Some(Parent(tree, n.r))
             inst == f.k \in {"meth", "get", "set", "gmeth"} /\ cls.k \in {"cls", "ce"}
         IN Push(m, (IF inst THEN Construct(cls) ELSE <<>>) \o <<Tk("use1", n)>>)
    [] t.o = "use1" -> Push(Ask(m, "cnt", n.id), <<Tk("use2", n)>>)
    [] t.o = "use2" -> LET k == IF v = "2" THEN 2 ELSE IF v = "1" THEN 1 ELSE 0
                       IN IF k = 0 THEN Val(m, "U") ELSE Push(m, <<Ti("use3", n, k)>>)
    [] t.o = "use3" -> LET f == Some(Find(tree, n.r)) IN
                       IF f.k \in {"cls", "ce"}
                       THEN Push(m, Construct(f) \o <<T5("use5", n, t.i, "O", "")>>)
                       ELSE IF Params(f) # <<>> THEN Push(Ask(m, "arg", n.id), <<Ti("use4", n, t.i)>>)
                       ELSE Push(Val(m, "T"), <<Ti("use4", n, t.i)>>)
    [] t.o = "use4" -> LET f == Some(Find(tree, n.r)) IN
                       Enter(Push(m, <<T5("use5", n, t.i, IF f.k \in {"set", "sset"} THEN "U"
                                          ELSE IF f.a = "gen" \/ f.k = "gmeth" THEN "O" ELSE "", "")>>), f, v)
    [] t.o = "use5" -> Push(Log(m, n.id, IF t.x = "" THEN v ELSE t.x),
                            IF t.i = 1 THEN <<T5("val", n, 0, "U", "")>> ELSE <<Ti("use3", n, t.i - 1)>>)
    [] OTHER -> Assert(FALSE, <<"task", t.o>>)

(***************************************************************************)
(* One step with an abrupt completion: tasks are dropped up to a handler   *)
(***************************************************************************)
Unwind(m, t) ==
  LET n == t.n
      c == m.c
  IN CASE t.o \in {"lbody", "ibody"} /\ c.t = "brk" /\ c.v = "" -> Val(m, "U")
    [] t.o \in {"lbody", "ibody"} /\ c.t = "cont" /\ (c.v = "" \/ c.v = n.lb) ->
         [m EXCEPT !.c = Ok("U"), !.w = <<t>> \o @]
    [] t.o = "swe" /\ c.t = "brk" /\ c.v = "" -> Val(m, "U")
    [] t.o = "lab" /\ c.t = "brk" /\ c.v = ToString(n.id) -> Val(m, "U")
    [] t.o = "catch" /\ c.t = "thr" -> Push(Val(m, "U"), <<Ex(n)>>)
    [] t.o = "fin" -> Push(Val(m, "U"), <<Ex(n), T5("fine", n, 0, c.t, c.v)>>)
    [] t.o \in {"callb", "calle"} /\ c.t = "ret" -> Val(m, c.v)
    [] OTHER -> m

(* leaving a for-of body early closes the iterator, which the host logs *)
Close(m, t) ==
  IF t.o = "ibody" /\ t.n.k = "fof" /\ m.c.t # "n" /\ ~(m.c.t = "cont" /\ (m.c.v = "" \/ m.c.v = t.n.lb))
  THEN Log(m, t.n.kids[1].id, "close") ELSE m

(* an operand of a logical expression is entered: its alternative is taken *)
Leaf(m, t) ==
  IF t.o = "ex" /\ t.n.lr # 0 /\ t.n.k # "lg" /\ ~(t.n.k = "par" /\ t.n.kids[1].lr # 0) /\ t.n.k \notin {"wrap", "wrapt"}
  THEN Push(Ev(m, <<"b", t.n.lr, t.n.id>>), <<Ti("leaf", t.n, t.n.lr)>>) ELSE m

Step(m, tree) ==
  LET t == Head(m.w)
      m1 == [m EXCEPT !.w = Tail(@), !.fl = @ - 1]
  IN IF m.c.t = "n" THEN Cont(Leaf(m1, t), t, tree) ELSE Unwind(Close(m1, t), t)

Halted(m) == m.w = <<>> \/ m.fl = 0
RECURSIVE RunOn(_, _)
RunOn(m, tree) ==   \* up to the next decision or the end
  IF m.need.k # "" \/ Halted(m) THEN m ELSE RunOn(Step(m, tree), tree)

(***************************************************************************)
(* A decision is answered                                                  *)
(***************************************************************************)
Asked(m, id) == IF id \in DOMAIN m.as THEN m.as[id] ELSE 0
Decide(m, v) ==
  LET id == m.need.id
      m1 == [Log(m, id, v) EXCEPT !.need = NoNeed, !.as = (id :> Asked(m, id) + 1) @@ @]
  IN IF v = "X" THEN Abr(m1, "thr", "X") ELSE Val(m1, v)
=============================================================================
