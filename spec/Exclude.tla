------------------------------ MODULE Exclude ------------------------------
(***************************************************************************)
(* C19.  A file name is a root and components; an exclude pattern is a     *)
(* root and components whose letters may be wild, or `**`, or is no glob   *)
(* at all.  The machine writes a name and a list of patterns, then reads   *)
(* the name component by component with the set of places each pattern can *)
(* be at; the file is left untouched when a pattern can be at its end, and *)
(* every pattern of the list is a glob.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NS,          \* which components names are made of
          CS,          \* which components patterns are made of
          BADS,        \* texts that are no globs
          ROOTS,       \* whether names and patterns may be rooted
          MaxName, MaxPat, MinList, MaxList, EMIT

VARIABLES name, pats, pos, at, ph
vars == <<name, pats, pos, at, ph>>

Span == <<"**">>
A == <<"a">>  B == <<"b">>  AB == <<"a", "b">>  S == <<"*">>  Q == <<"?">>
NAMES == CASE NS = "two" -> {A, B}
           [] NS = "pre" -> {A, AB}
           [] NS = "three" -> {A, B, AB}
           [] NS = "many" -> {A, B, <<"A">>, <<"a", "a">>, <<"b", "b">>, <<"a", "b", "b">>, <<"a", "-", "b">>, <<"a", ".", "j", "s">>,
                              <<"b", ".", "j", "s">>, <<".", "a">>, <<"a", ".", "b", ".", "j", "s">>}
COMPS == CASE CS = "a*" -> {A, S}
           [] CS = "a**" -> {A, Span}
           [] CS = "a***" -> {A, S, Span}
           [] CS = "a?***" -> {A, Q, S, Span}
           [] CS = "nine" -> {A, B, S, Q, <<"a", "*">>, <<"*", "b">>, <<"?", "?">>, Span}
           [] CS = "many" -> {S, Q, <<"a", "*">>, <<"*", "a">>, <<"*", "b">>, <<"a", "?">>, <<"*", ".", "j", "s">>, <<"*", ".", "*">>, <<"a", ".", "*">>,
                              <<"*", "a", "*">>, <<"[ab]">>, <<"[!a]">>, <<"[ab]", "*">>, <<"{a,bb}">>, <<"{a,bb}", ".", "j", "s">>, <<"{a,aa}", "a">>,
                              <<"<a:1,2>">>, <<"<a:1,2>", "*">>, Span, <<"A">>, <<".", "*">>, <<"a", "-", "?">>, <<"*", ".", "?", "s">>, <<"?", "?", "?">>}
Tree(c) == c = Span

(* ---- one component: the tokens of a pattern against the letters of a name *)
One(t) == CASE t = "?" -> {"a", "b", "A", ".", "j", "s", "-"}
            [] t = "[ab]" -> {"a", "b"}
            [] t = "[!a]" -> {"b", "A", ".", "j", "s", "-"}
            [] OTHER -> {t}
Alt(t) == CASE t = "{a,bb}" -> {<<"a">>, <<"b", "b">>}
            [] t = "{a,aa}" -> {<<"a">>, <<"a", "a">>}
            [] t = "<a:1,2>" -> {<<"a">>, <<"a", "a">>}
            [] OTHER -> {}
Begins(n, x) == Len(x) <= Len(n) /\ SubSeq(n, 1, Len(x)) = x
Rest(n, k) == SubSeq(n, k + 1, Len(n))
RECURSIVE Fits(_, _)
Fits(c, n) ==
  IF c = <<>> THEN n = <<>>
  ELSE LET t == Head(c) IN
       IF t = "*" THEN \E k \in 0..Len(n) : Fits(Tail(c), Rest(n, k))
       ELSE IF Alt(t) # {} THEN \E x \in Alt(t) : Begins(n, x) /\ Fits(Tail(c), Rest(n, Len(x)))
       ELSE n # <<>> /\ Head(n) \in One(t) /\ Fits(Tail(c), Tail(n))

(* ---- the machine: places[i] is the set of the components of pattern i that come next *)
RECURSIVE Skip(_, _)
Skip(p, k) == IF k <= Len(p) /\ Tree(p[k]) THEN {k} \cup Skip(p, k + 1) ELSE {k}
Start(p, root) == IF p.root = root \/ (~p.root /\ Len(p.c) > 0 /\ Tree(p.c[1])) THEN Skip(p.c, 1) ELSE {}
Step(p, ks, n) == UNION { IF k > Len(p.c) THEN {} ELSE IF Tree(p.c[k]) THEN Skip(p.c, k)
                          ELSE IF Fits(p.c[k], n) THEN Skip(p.c, k + 1) ELSE {} : k \in ks }
Bad(p) == p.bad # ""
Globs(ps) == \A i \in DOMAIN ps : ~Bad(ps[i])
Excluded == Globs(pats) /\ \E i \in DOMAIN pats : (Len(pats[i].c) + 1) \in at[i]

(* ---- the declarative reading: a way to lay the components of the name under those of the pattern *)
RECURSIVE Lays(_, _)
Lays(p, n) ==
  IF p = <<>> THEN n = <<>>
  ELSE IF Tree(Head(p)) THEN \E k \in 0..Len(n) : Lays(Tail(p), Rest(n, k))
  ELSE n # <<>> /\ Fits(Head(p), Head(n)) /\ Lays(Tail(p), Tail(n))
Matches(p, n) == /\ ~Bad(p) /\ (p.root = n.root \/ (~p.root /\ Tree(p.c[1]))) /\ Lays(p.c, n.c)

(* left open: what a pattern that is only a root and `**` says of relative names, and
   whether the nothing in front of the root of a name is a component that `*` can stand for *)
Open(p, n) == IF Bad(p) THEN FALSE
              ELSE IF p.root THEN p.c = <<Span>> /\ ~n.root ELSE n.root /\ Lays(p.c, <<<<>>>> \o n.c)
(* a known finding: after a root and `**` the rest of a pattern fits the end of a name from any letter on *)
Loose(p, n) == /\ ~Bad(p) /\ p.root /\ n.root /\ Len(p.c) > 1 /\ Tree(p.c[1])
               /\ \E i \in DOMAIN n.c : \E k \in 0..Len(n.c[i]) : Lays(Tail(p.c), <<Rest(n.c[i], k)>> \o Rest(n.c, i))

Init == name = [root |-> FALSE, c |-> <<>>] /\ pats = <<>> /\ pos = 0 /\ at = <<>> /\ ph = "root"
Root == ph = "root" /\ \E r \in ROOTS : name' = [name EXCEPT !.root = r] /\ ph' = "name" /\ UNCHANGED <<pats, pos, at>>
Comp == /\ ph = "name" /\ Len(name.c) < MaxName
        /\ \E c \in NAMES : name' = [name EXCEPT !.c = Append(@, c)]
        /\ UNCHANGED <<pats, pos, at, ph>>
Named == ph = "name" /\ Len(name.c) > 0 /\ ph' = "list" /\ UNCHANGED <<name, pats, pos, at>>
Pattern ==
  /\ ph = "list" /\ Len(pats) < MaxList
  /\ \E r \in ROOTS, c \in COMPS : pats' = Append(pats, [root |-> r, c |-> <<c>>, bad |-> ""]) /\ ph' = "pat"
  /\ UNCHANGED <<name, pos, at>>
More ==
  /\ ph = "pat" /\ Len(pats[Len(pats)].c) < MaxPat
  /\ \E c \in COMPS : /\ ~(Tree(c) /\ Tree(pats[Len(pats)].c[Len(pats[Len(pats)].c)]))
                      /\ pats' = [pats EXCEPT ![Len(pats)].c = Append(@, c)]
  /\ UNCHANGED <<name, pos, at, ph>>
Wrong == /\ ph = "list" /\ Len(pats) < MaxList
         /\ \E b \in BADS : pats' = Append(pats, [root |-> FALSE, c |-> <<>>, bad |-> b])
         /\ UNCHANGED <<name, pos, at, ph>>
Ended == ph = "pat" /\ ph' = "list" /\ UNCHANGED <<name, pats, pos, at>>
Begin == /\ ph = "list" /\ Len(pats) >= MinList
         /\ at' = [i \in DOMAIN pats |-> Start(pats[i], name.root)] /\ pos' = 0 /\ ph' = "match"
         /\ UNCHANGED <<name, pats>>
Read == /\ ph = "match" /\ pos < Len(name.c)
        /\ at' = [i \in DOMAIN pats |-> Step(pats[i], at[i], name.c[pos + 1])] /\ pos' = pos + 1
        /\ UNCHANGED <<name, pats, ph>>
Show == /\ ph = "match" /\ pos = Len(name.c) /\ ph' = "end"
        /\ IF ~EMIT \/ (\E i \in DOMAIN pats : Open(pats[i], name)) THEN TRUE
           ELSE PrintT("F" \o ToJson([n |-> name, p |-> pats, x |-> Excluded,
                                   l |-> Globs(pats) /\ \E i \in DOMAIN pats : Loose(pats[i], name)]))
        /\ UNCHANGED <<name, pats, pos, at>>
Next == Root \/ Comp \/ Named \/ Pattern \/ More \/ Wrong \/ Ended \/ Begin \/ Read \/ Show
Spec == Init /\ [][Next]_vars

Agrees == ph = "end" => Excluded = (Globs(pats) /\ \E i \in DOMAIN pats : Matches(pats[i], name))
(* a list excludes what its members exclude; more patterns never exclude less, unless one is no glob *)
ListIsUnion == ph = "end" /\ Globs(pats) => (Excluded <=> \E i \in DOMAIN pats : Matches(pats[i], name))
Ignored == ph = "end" /\ (pats = <<>> \/ ~Globs(pats)) => ~Excluded
=============================================================================
