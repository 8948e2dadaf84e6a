------------------------------- MODULE Instr --------------------------------
(***************************************************************************)
(* The instrumenter as a system: a program is derived from the grammar     *)
(* (Lang), instrumented (Place), and then the original and the             *)
(* instrumented program run side by side (Sem) against an environment that *)
(* answers their questions: how a condition turns out, whether evaluating  *)
(* it throws, whether an argument is passed, how often an iterator yields, *)
(* how often the host calls a function.                                    *)
(*                                                                         *)
(* A state is a point of the derivation or a decision point of the run.    *)
(***************************************************************************)
EXTENDS Place, Json

CONSTANTS
  K,         \* total cost of a program
  HB,        \* number of hint comments in a program
  HREQ,      \* TRUE: only programs with at least one hint comment
  NEED,      \* only programs with a node of one of these kinds (if there are any)
  SIM,       \* TRUE: made for -simulate (spend the budget more evenly)
  VALS,      \* outcomes of a plain decision
  NVALS,     \* outcomes of a decision made for its nullishness
  CNTS,      \* numbers of calls and of iterations
  MaxFault,  \* number of evaluations that throw in one run
  FreeDec,   \* so many decisions are tried with every outcome
  MaxAsk,    \* a decision asked more often than this is answered so that loops end
  Seeds,     \* the remaining decisions follow a pseudo random choice, one run for each seed
  Again,     \* simulation: number of runs of a program
  Fuel,      \* steps of a run
  EMIT,      \* FALSE: do not print programs and runs
  PARTS, PART \* PART < PARTS: the programs are split among PARTS model checkers by their first productions

VARIABLES
  ph,     \* phase: "gen", "emit", "run", "done"
  nodes,  \* the table of the program
  todo,   \* open nonterminals
  bud,    \* cost left
  hb,     \* hint comments left
  T, I,   \* the tree and the instrumented tree
  m, mi,  \* their machines
  ds,     \* the decisions of this run
  sd,     \* seed of this run
  rn,     \* runs left
  pid     \* number of the program

vars == <<ph, nodes, todo, bud, hb, T, I, m, mi, ds, sd, rn, pid>>
View == <<ph, nodes, todo, bud, hb, ds, sd, rn>>

TopStrict == TOP # "script"
TopCx == [Cx0 EXCEPT !.st = TopStrict]

Init ==
  /\ ph = "gen"
  /\ nodes = << NewNode(N("L", Cx0), Prod("prog", IF TopStrict THEN "strict" ELSE "", 0, <<>>), "") >>
  /\ todo = << [N("L", TopCx) EXCEPT !.par = 1] >>
  /\ bud = K /\ hb = HB
  /\ T = Bot /\ I = Bot /\ m = Bot /\ mi = Bot
  /\ ds = <<>> /\ sd = 0 /\ rn = 0 /\ pid = 0

(***************************************************************************)
(* Derivation                                                              *)
(***************************************************************************)
MinCost(nt) == IF nt \in {"LX", "X", "PX", "SL", "SN"} THEN 1 ELSE 0
RECURSIVE Owed(_)
Owed(es) == IF es = <<>> THEN 0 ELSE MinCost(Head(es).nt) + Owed(Tail(es))

Limit == IF SIM /\ RandomElement(1..3) # 1 THEN 0 ELSE bud

RECURSIVE SetSeq(_)
SetSeq(X) == IF X = {} THEN <<>> ELSE LET x == Some(X) IN <<x>> \o SetSeq(X \ {x})

(* with PARTS > 1, the first productions of a program decide which model checker takes it; sd mixes their numbers *)
Mix(j) == (sd * 31 + j * 7 + 3) % 1009
Mine == PARTS = 1 \/ sd % PARTS = PART
Early == PARTS > 1 /\ Len(nodes) < 5

Derive(e, rest, p, j) ==
  \E h \in {""} \cup (IF hb > 0 THEN HintsAt(e, p) ELSE {}) :
    /\ nodes' = IF p.k = "" THEN nodes ELSE AddNode(nodes, e, p, h)
    /\ e.nt \in {"member", "omember"} => Distinct(nodes', e.par)
    /\ sd' = IF j > 0 THEN Mix(j) ELSE sd
    /\ todo' = Opened(e, p, Len(nodes) + 1) \o rest
    /\ bud' = bud - p.c
    /\ hb' = IF h = "" THEN hb ELSE hb - 1

Expand ==
  LET e == Head(todo)
      rest == Tail(todo)
  IN IF e.nt = "uses"
     THEN LET cs == Callable(nodes, nodes[e.par].kids[1])
          IN /\ todo' = [j \in DOMAIN cs |-> [R("use1", e.cx, cs[j]) EXCEPT !.par = e.par]] \o rest
             /\ UNCHANGED <<nodes, bud, hb, sd>>
     ELSE LET fits == { p \in Prods(e) : p.c + Owed(p.kd) + Owed(rest) <= bud }
              lim == Limit
              cheap == { p \in fits : p.c + Owed(p.kd) <= lim }
              some == IF cheap # {} THEN cheap ELSE fits
          IN IF Early
             THEN LET sq == SetSeq(some) IN \E j \in DOMAIN sq : Derive(e, rest, sq[j], j)
             ELSE Mine /\ \E p \in some : Derive(e, rest, p, 0)

Gen ==
  /\ ph = "gen"
  /\ IF todo = <<>>
     THEN /\ HREQ => hb < HB
          /\ NEED # {} => \E j \in DOMAIN nodes : nodes[j].k \in NEED \/ nodes[j].a \in NEED
          /\ Mine
          /\ ph' = "emit" /\ sd' = 0 /\ UNCHANGED <<nodes, todo, bud, hb>>
     ELSE Expand /\ ph' = "gen"
  /\ UNCHANGED <<T, I, m, mi, ds, rn, pid>>

(***************************************************************************)
(* The program is complete                                                 *)
(***************************************************************************)
Emit ==
  /\ ph = "emit"
  /\ LET t == Tree(nodes, 1, 0, "", FALSE)
         p == IF EMIT THEN TLCGet(1) + 1 ELSE 0
     IN /\ TLCSet(1, p)
        /\ T' = t
        /\ I' = Instrument(t)
        /\ pid' = p
        /\ EMIT => PrintT("P" \o ToJson([p |-> p, n |-> nodes, k |-> SetSeq(Keys(t)),
                                         top |-> TOP, rep |-> REPORT, ign |-> SetSeq(IGN)]))
  /\ ph' = "start"
  /\ rn' = Again
  /\ UNCHANGED <<nodes, todo, bud, hb, m, mi, ds, sd>>

Start ==
  /\ ph = "start"
  /\ LET ks == Counters(T)
     IN /\ m' = RunOn(Machine(T, ks, Fuel), T)
        /\ mi' = RunOn(Machine(I, ks, Fuel * 3), I)
  /\ sd' \in Seeds
  /\ ds' = <<>>
  /\ ph' = "run"
  /\ UNCHANGED <<nodes, todo, bud, hb, T, I, rn, pid>>

(***************************************************************************)
(* The run                                                                 *)
(***************************************************************************)
Domain(k) ==
  CASE k = "d" -> VALS
    [] k = "n" -> NVALS
    [] k = "arg" -> {"T", "U"}
    [] k \in {"itr", "cnt"} -> CNTS

Faults == Cardinality({ i \in DOMAIN ds : ds[i][2] = "X" })
Choices ==
  LET k == m.need.k
      a == Asked(m, m.need.id)
      all == Domain(k) \ (IF Faults >= MaxFault THEN {"X"} ELSE {})
      s == SetSeq(all)
      ix == ((sd * 31 + m.need.id * 17 + a * 7 + Len(ds) * 13 + (sd * Len(ds)) \div 3) % 101) % Len(s)
  IN IF k \in {"d", "n"} /\ a > MaxAsk THEN {"X"}
     ELSE IF k \in {"d", "n"} /\ a = MaxAsk THEN {IF k = "d" THEN "F" ELSE "N"}
     ELSE IF k \in {"itr", "cnt"} /\ a > MaxAsk THEN {"0"}
     ELSE IF SIM \/ Len(ds) < FreeDec THEN all
     ELSE { s[ix + 1] }

Run ==
  /\ ph = "run"
  /\ m.need.k # ""
  /\ mi.need = m.need
  /\ \E v \in Choices :
       /\ m' = RunOn(Decide(m, v), T)
       /\ mi' = RunOn(Decide(mi, v), I)
       /\ ds' = Append(ds, <<m.need.id, v>>)
  /\ ph' = "run"
  /\ UNCHANGED <<nodes, todo, bud, hb, T, I, sd, rn, pid>>

Ended(x) == x.need.k = "" /\ x.w = <<>>
Finish ==
  /\ ph = "run"
  /\ Ended(m)
  /\ EMIT => PrintT("R" \o ToJson([p |-> pid, d |-> ds, l |-> m.log, c |-> <<m.c.t, m.c.v>>,
                                   g |-> LET s == SetSeq({ k \in DOMAIN m.g : m.g[k] # 0 })
                                         IN [i \in DOMAIN s |-> <<s[i], m.g[s[i]]>>]]))
  /\ IF rn > 1 THEN ph' = "start" ELSE ph' = "done"
  /\ rn' = rn - 1
  /\ UNCHANGED <<nodes, todo, bud, hb, T, I, m, mi, ds, sd, pid>>

Next == Gen \/ Emit \/ Start \/ Run \/ Finish
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(1, 0)

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Running == ph = "run"
OutOfFuel == m.fl = 0 \/ mi.fl = 0

(* C01: nothing a program does, in whatever order, tells the two apart *)
SameBehaviour ==
  Running /\ ~OutOfFuel =>
    /\ m.log = mi.log
    /\ m.need = mi.need
    /\ Ended(m) = Ended(mi)
    /\ Ended(m) => m.c.t = mi.c.t /\ (m.c.t = "thr" => m.c.v = mi.c.v)

(* C02 - C05: whenever the environment can look, counters are event counts *)
CountsAreEvents ==
  Running /\ ~OutOfFuel => mi.cn = m.g

(* C06: every counter has exactly one place in the code, and nothing else does *)
RECURSIVE NoDup(_)
NoDup(s) == s = <<>> \/ (~(\E i \in 2..Len(s) : s[i] = s[1]) /\ NoDup(Tail(s)))
CountersAgree ==
  ph = "start" =>
    LET s == Sites(I) IN { s[i] : i \in DOMAIN s } = Counters(T) /\ NoDup(s)

(* a run that counts nothing wrong ends *)
NotStuck == Running => (OutOfFuel \/ Ended(m) \/ m.need.k # "")
=============================================================================
