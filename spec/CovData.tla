------------------------------ MODULE CovData ------------------------------
(***************************************************************************)
(* Coverage data: file coverages, coverage maps and summaries (C14 - C18). *)
(*                                                                         *)
(* Registers hold file coverages, maps hold one coverage per path.  A      *)
(* behaviour first builds the registers entry by entry and then performs   *)
(* operations on them.  Ordered maps are sequences of entries with a key   *)
(* k (the number the file gave the entry); what the entry is about is its  *)
(* range.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  NREG,    \* number of file coverages that are built
  NMAP,    \* number of coverage maps
  KINDS,   \* which kinds of entries files have: subset of {"s","f","b","t"}
  LOCS,    \* the ranges (indices of Rng) that entries are about
  FIRST,   \* the ranges that the first file's entries are about
  PATHS,   \* the paths files have
  HITS,    \* hit counts
  MODES,   \* numberings: subset of {"zero","one","rev","gap"}
  ALLS,    \* values of the placeholder flag
  ISMS,    \* input source maps: subset of 0..2, 0 for none
  MaxEnt,  \* entries per kind and file
  MaxArm,  \* alternatives per branch
  LINES,   \* how branches tell their line: subset of {"loc","line","both"}
  OPS,     \* the operations: subset of {"merge","reset","copy","madd","mmerge","mfilter","mof"}
  MaxOps,
  DEEP,    \* check the laws after every operation (else on what was built)
  EMIT

VARIABLES ph, cur, reg, map, given, ops
vars == <<ph, cur, reg, map, given, ops>>

(***************************************************************************)
(* Ranges: start line, start column, end line, end column.  They agree in  *)
(* all but one coordinate, or would if written without separators.         *)
(***************************************************************************)
Rng == << <<1, 0, 1, 5>>, <<1, 0, 1, 9>>, <<1, 2, 1, 9>>, <<1, 11, 12, 3>>, <<11, 1, 12, 3>>, <<1, 1, 12, 3>>,
          <<1, 1, 2, 3>>, <<2, 0, 2, 4>>, <<2, 4, 2, 8>>, <<3, 0, 13, 9>>, <<3, 0, 3, 139>>, <<2, 0, 3, 4>>,
          <<1, 0, 2, 5>>, <<4, 12, 5, 3>>, <<4, 1, 25, 3>>, <<41, 2, 53, 0>> >>
Line(l) == Rng[l][1]

NoBt == [on |-> FALSE, e |-> <<>>]
File(p, all, ism, mode, bt, lm) ==
  [path |-> p, all |-> all, ism |-> ism, mode |-> mode, lm |-> lm,
   s |-> <<>>, f |-> <<>>, b |-> <<>>, t |-> [on |-> bt, e |-> <<>>]]

Key(mode, i) == CASE mode = "zero" -> i - 1
                  [] mode = "one" -> i
                  [] mode = "rev" -> 12 - i
                  [] mode = "gap" -> 3 * i + 1

SeqRange(s) == { s[i] : i \in DOMAIN s }
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* What an entry is about                                                  *)
(***************************************************************************)
LocS(e) == e.loc
LocB(e) == e.locs[1]

(***************************************************************************)
(* Merging: the entries of a in order, then what is new in b, renumbered   *)
(***************************************************************************)
Pad(ns, n) == [i \in 1..Max(Len(ns), n) |-> IF i <= Len(ns) THEN ns[i] ELSE 0]
Plus(x, y) == LET n == Max(Len(x), Len(y)) p == Pad(x, n) q == Pad(y, n) IN [i \in 1..n |-> p[i] + q[i]]

Number(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.k = i - 1]]

MergeEntries(a, b, Loc(_)) ==
  LET both == [i \in DOMAIN a |->
                 LET js == { j \in DOMAIN b : Loc(b[j]) = Loc(a[i]) }
                 IN IF js = {} THEN a[i] ELSE [a[i] EXCEPT !.ns = Plus(@, b[CHOOSE j \in js : TRUE].ns)]]
      new == SelectSeq(b, LAMBDA e : ~\E i \in DOMAIN a : Loc(a[i]) = Loc(e))
  IN Number(both \o new)

(* true counters belong to branches: they follow their branch's number *)
LocOfKey(b, k) == LocB(b[CHOOSE i \in DOMAIN b : b[i].k = k])
KeyOfLoc(b, l) == b[CHOOSE i \in DOMAIN b : LocB(b[i]) = l].k
MergeTrue(a, b, merged) ==
  IF ~a.t.on THEN NoBt
  ELSE LET x == [i \in DOMAIN a.t.e |-> [k |-> 0, loc |-> LocOfKey(a.b, a.t.e[i].k), ns |-> a.t.e[i].ns]]
           y == [i \in DOMAIN b.t.e |-> [k |-> 0, loc |-> LocOfKey(b.b, b.t.e[i].k), ns |-> b.t.e[i].ns]]
           z == MergeEntries(x, y, LocS)
       IN [on |-> TRUE, e |-> [i \in DOMAIN z |-> [k |-> KeyOfLoc(merged, z[i].loc), ns |-> z[i].ns]]]

Merge(a, b) ==
  IF b.all THEN a
  ELSE IF a.all THEN b
  ELSE LET mb == MergeEntries(a.b, b.b, LocB)
       IN [a EXCEPT !.s = MergeEntries(a.s, b.s, LocS),
                    !.f = MergeEntries(a.f, b.f, LocS),
                    !.b = mb,
                    !.t = MergeTrue(a, b, mb)]

Zero(e) == [e EXCEPT !.ns = [i \in DOMAIN @ |-> 0]]
ZeroAll(s) == [i \in DOMAIN s |-> Zero(s[i])]
Reset(a) == [a EXCEPT !.s = ZeroAll(@), !.f = ZeroAll(@), !.b = ZeroAll(@), !.t.e = ZeroAll(@)]

(***************************************************************************)
(* Views                                                                   *)
(***************************************************************************)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET h == Distinct(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)]
                    IN IF \E i \in DOMAIN h : h[i] = x THEN h ELSE Append(h, x)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

LineCov(a) ==
  LET ls == Distinct([i \in DOMAIN a.s |-> Line(a.s[i].loc)])
  IN [i \in DOMAIN ls |-> <<ls[i], SetMax({ a.s[j].ns[1] : j \in { j \in DOMAIN a.s : Line(a.s[j].loc) = ls[i] } })>>]
Uncovered(a) == LET s == SelectSeq(LineCov(a), LAMBDA x : x[2] = 0) IN [i \in DOMAIN s |-> s[i][1]]

BLine(e) == IF e.lm = "loc" THEN Line(e.bl) ELSE e.ln
Taken(ns) == Cardinality({ i \in DOMAIN ns : ns[i] > 0 })
BranchLines(a) ==
  LET ls == Distinct([i \in DOMAIN a.b |-> BLine(a.b[i])])
      At(l) == SelectSeq(a.b, LAMBDA e : BLine(e) = l)
  IN [i \in DOMAIN ls |->
        LET es == At(ls[i]) IN <<ls[i], SumSeq([j \in DOMAIN es |-> Taken(es[j].ns)]), SumSeq([j \in DOMAIN es |-> Len(es[j].ns)])>>]

(* covered and total *)
Cnt(s) == <<SumSeq([i \in DOMAIN s |-> Taken(s[i].ns)]), SumSeq([i \in DOMAIN s |-> Len(s[i].ns)])>>
NoTrue == <<0, 0>>
Summary(a) ==
  LET lc == LineCov(a)
  IN [lines |-> <<Cardinality({ i \in DOMAIN lc : lc[i][2] > 0 }), Len(lc)>>,
      statements |-> Cnt(a.s), functions |-> Cnt(a.f), branches |-> Cnt(a.b),
      true |-> IF a.t.on THEN <<Cnt(a.t.e)>> ELSE <<>>]
AddTot(x, y) == <<x[1] + y[1], x[2] + y[2]>>
AddSum(x, y) ==
  [lines |-> AddTot(x.lines, y.lines), statements |-> AddTot(x.statements, y.statements),
   functions |-> AddTot(x.functions, y.functions), branches |-> AddTot(x.branches, y.branches),
   true |-> IF y.true = <<>> THEN x.true ELSE IF x.true = <<>> THEN y.true ELSE <<AddTot(x.true[1], y.true[1])>>]
ZeroSum == [lines |-> <<0, 0>>, statements |-> <<0, 0>>, functions |-> <<0, 0>>, branches |-> <<0, 0>>, true |-> <<>>]
RECURSIVE FoldSum(_, _)
FoldSum(z, s) == IF s = <<>> THEN z ELSE FoldSum(AddSum(z, s[1]), Tail(s))
MapSummary(m) == FoldSum(ZeroSum, [i \in DOMAIN m |-> Summary(m[i])])

(* the percentage in hundredths, cut off *)
Pct(t) == IF t[2] = 0 THEN 10000 ELSE (10000 * t[1]) \div t[2]

(***************************************************************************)
(* Coverage maps: a sequence of file coverages with distinct paths         *)
(***************************************************************************)
Has(m, p) == \E i \in DOMAIN m : m[i].path = p
Add(m, a) == IF Has(m, a.path)
             THEN [i \in DOMAIN m |-> IF m[i].path = a.path THEN Merge(m[i], a) ELSE m[i]]
             ELSE Append(m, a)
RECURSIVE AddAll(_, _)
AddAll(m, s) == IF s = <<>> THEN m ELSE AddAll(Add(m, s[1]), Tail(s))

(***************************************************************************)
(* Building the registers                                                  *)
(***************************************************************************)
Init ==
  /\ ph = "head" /\ cur = <<1, "s">> /\ reg = <<>> /\ ops = <<>>
  /\ map = [i \in 1..NMAP |-> <<>>]
  /\ given = [i \in 1..NMAP |-> <<>>]

Begin ==
  /\ ph = "head"
  /\ \E p \in PATHS, all \in ALLS, ism \in ISMS, mode \in MODES, bt \in (IF "t" \in KINDS THEN {TRUE, FALSE} ELSE {FALSE}), lm \in LINES :
       reg' = Append(reg, File(p, all, ism, mode, bt, lm))
  /\ cur' = <<Len(reg) + 1, "s">>
  /\ ph' = "fill"
  /\ UNCHANGED <<map, given, ops>>

Fresh(es, Loc(_)) == (IF cur[1] = 1 THEN FIRST ELSE LOCS) \ { Loc(es[i]) : i \in DOMAIN es }
Arms == UNION { [1..n -> HITS] : n \in 1..MaxArm }
Second(l) == ((l + 5) % Len(Rng)) + 1
Third(l) == ((l + 10) % Len(Rng)) + 1
NewB(a, l, ns) ==
  [k |-> Key(a.mode, Len(a.b) + 1), locs |-> SubSeq(<<l, Second(l), Third(l)>>, 1, Len(ns)), ns |-> ns,
   bl |-> IF l % 3 = 0 THEN l ELSE Third(l), lm |-> a.lm, ln |-> IF a.lm = "loc" THEN 0 ELSE (l % 3) + 1,
   ty |-> (l + cur[1]) % 5]
NewT(a, i, ns) == [k |-> a.b[i].k, ns |-> ns]

Fill ==
  /\ ph = "fill"
  /\ LET r == cur[1] a == reg[r] IN
     \/ /\ cur[2] = "s" /\ "s" \in KINDS /\ Len(a.s) < MaxEnt
        /\ \E l \in Fresh(a.s, LocS), n \in HITS :
             reg' = [reg EXCEPT ![r].s = Append(@, [k |-> Key(a.mode, Len(a.s) + 1), loc |-> l, ns |-> <<n>>])]
        /\ UNCHANGED <<cur, ph>>
     \/ /\ cur[2] = "f" /\ "f" \in KINDS /\ Len(a.f) < MaxEnt
        /\ \E l \in Fresh(a.f, LocS), n \in HITS :
             reg' = [reg EXCEPT ![r].f = Append(@, [k |-> Key(a.mode, Len(a.f) + 1), loc |-> l, ns |-> <<n>>, nm |-> r])]
        /\ UNCHANGED <<cur, ph>>
     \/ /\ cur[2] = "b" /\ "b" \in KINDS /\ Len(a.b) < MaxEnt
        /\ \E l \in Fresh(a.b, LocB), ns \in Arms : reg' = [reg EXCEPT ![r].b = Append(@, NewB(a, l, ns))]
        /\ UNCHANGED <<cur, ph>>
     \/ /\ cur[2] = "t" /\ "t" \in KINDS /\ a.t.on
        /\ \E i \in DOMAIN a.b, ns \in Arms :
             /\ Len(ns) = Len(a.b[i].ns)
             /\ \A j \in DOMAIN a.t.e : a.t.e[j].k # a.b[i].k
             /\ reg' = [reg EXCEPT ![r].t.e = Append(@, NewT(a, i, ns))]
        /\ UNCHANGED <<cur, ph>>
     \/ /\ cur[2] # "t"
        /\ cur' = <<r, CASE cur[2] = "s" -> "f" [] cur[2] = "f" -> "b" [] cur[2] = "b" -> "t">>
        /\ UNCHANGED <<reg, ph>>
     \/ /\ cur[2] = "t"
        /\ ph' = IF r < NREG THEN "head" ELSE "ready"
        /\ UNCHANGED <<reg, cur>>
  /\ UNCHANGED <<map, given, ops>>

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Result ==
  /\ ph = "show"
  /\ EMIT => PrintT("H" \o ToJson([ops |-> ops, reg |-> reg, map |-> map,
                                   v |-> [i \in DOMAIN reg |-> [lc |-> LineCov(reg[i]), un |-> Uncovered(reg[i]),
                                                                bl |-> BranchLines(reg[i]), sum |-> Summary(reg[i])]],
                                   ms |-> [i \in DOMAIN map |-> MapSummary(map[i])],
                                   two |-> AddSum(Summary(reg[1]), Summary(reg[Len(reg)]))]))
  /\ ph' = "ops"
  /\ UNCHANGED <<cur, reg, map, given, ops>>

Ready ==
  /\ ph = "ready"
  /\ ph' = "show"
  /\ ops' = <<[o |-> "init", reg |-> reg]>>
  /\ UNCHANGED <<cur, reg, map, given>>

Do(o) == /\ ops' = Append(ops, o)
         /\ ph' = "show"
         /\ UNCHANGED cur

Regs == 1..NREG
Maps == 1..NMAP
Op ==
  /\ ph = "ops" /\ Len(ops) <= MaxOps
  /\ \/ /\ "merge" \in OPS
        /\ \E i, j \in Regs : /\ reg' = [reg EXCEPT ![i] = Merge(@, reg[j])]
                              /\ UNCHANGED <<map, given>>
                              /\ Do([o |-> "merge", i |-> i, j |-> j])
     \/ /\ "reset" \in OPS
        /\ \E i \in Regs : /\ reg' = [reg EXCEPT ![i] = Reset(@)]
                           /\ UNCHANGED <<map, given>>
                           /\ Do([o |-> "reset", i |-> i])
     \/ /\ "copy" \in OPS
        /\ \E i, j \in Regs : /\ i # j
                              /\ reg' = [reg EXCEPT ![i] = reg[j]]
                              /\ UNCHANGED <<map, given>>
                              /\ Do([o |-> "copy", i |-> i, j |-> j])
     \/ /\ "madd" \in OPS
        /\ \E m \in Maps, i \in Regs : /\ map' = [map EXCEPT ![m] = Add(@, reg[i])]
                                       /\ given' = [given EXCEPT ![m] = Append(@, reg[i])]
                                       /\ UNCHANGED reg
                                       /\ Do([o |-> "madd", m |-> m, i |-> i])
     \/ /\ "mof" \in OPS
        /\ \E m \in Maps, s \in [1..2 -> Regs] :
             /\ map' = [map EXCEPT ![m] = AddAll(<<>>, <<reg[s[1]], reg[s[2]]>>)]
             /\ given' = [given EXCEPT ![m] = <<reg[s[1]], reg[s[2]]>>]
             /\ UNCHANGED reg
             /\ Do([o |-> "mof", m |-> m, s |-> s])
     \/ /\ "mmerge" \in OPS
        /\ \E m, n \in Maps : /\ map' = [map EXCEPT ![m] = AddAll(@, map[n])]
                              /\ given' = [given EXCEPT ![m] = @ \o map[n]]
                              /\ UNCHANGED reg
                              /\ Do([o |-> "mmerge", m |-> m, n |-> n])
     \/ /\ "mfilter" \in OPS
        /\ \E m \in Maps, P \in SUBSET PATHS :
             /\ map' = [map EXCEPT ![m] = SelectSeq(@, LAMBDA a : a.path \in P)]
             /\ given' = [given EXCEPT ![m] = SelectSeq(@, LAMBDA a : a.path \in P)]
             /\ UNCHANGED reg
             /\ Do([o |-> "mfilter", m |-> m, p |-> P])

Next == Begin \/ Fill \/ Ready \/ Op \/ Result
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
AllLocs == 1..Len(Rng)
(* what the entries say, whatever their numbers: counts by range *)
CountAt(es, Loc(_), l) ==
  LET js == { j \in DOMAIN es : Loc(es[j]) = l } IN IF js = {} THEN <<>> ELSE es[CHOOSE j \in js : TRUE].ns
TrueAt(a, l) ==
  LET js == { j \in DOMAIN a.t.e : LocOfKey(a.b, a.t.e[j].k) = l } IN IF js = {} THEN <<>> ELSE a.t.e[CHOOSE j \in js : TRUE].ns
Where(es, Loc(_)) == { Loc(es[i]) : i \in DOMAIN es }
Sane(es, Loc(_)) == /\ Cardinality(Where(es, Loc)) = Len(es)
                    /\ Cardinality({ es[i].k : i \in DOMAIN es }) = Len(es)
WellFormed(a) == /\ Sane(a.s, LocS) /\ Sane(a.f, LocS) /\ Sane(a.b, LocB)
                 /\ \A i \in DOMAIN a.t.e : \E j \in DOMAIN a.b : a.b[j].k = a.t.e[i].k
                 /\ Cardinality({ a.t.e[i].k : i \in DOMAIN a.t.e }) = Len(a.t.e)
                 /\ ~a.t.on => a.t.e = <<>>

(* equal up to order, numbering and the tracking of true counters *)
Same(a, b) ==
  /\ \A l \in AllLocs : /\ CountAt(a.s, LocS, l) = CountAt(b.s, LocS, l)
                        /\ CountAt(a.f, LocS, l) = CountAt(b.f, LocS, l)
                        /\ CountAt(a.b, LocB, l) = CountAt(b.b, LocB, l)
                        /\ a.t.on /\ b.t.on => TrueAt(a, l) = TrueAt(b, l)
(* the same file, its entries in another order under other numbers *)
Flip(es) == [i \in DOMAIN es |-> [es[Len(es) + 1 - i] EXCEPT !.k = 40 + i]]
Other(a) == LET b == Flip(a.b)
            IN [a EXCEPT !.s = Flip(@), !.f = Flip(@), !.b = b,
                         !.t.e = [i \in DOMAIN @ |-> [@[i] EXCEPT !.k = KeyOfLoc(b, LocOfKey(a.b, @))]]]

(* C14 *)
MergeLaws(a, b) ==
  LET c == Merge(a, b) IN
  /\ WellFormed(c)
  /\ b.all => c = a
  /\ a.all /\ ~b.all => c = b
  /\ ~a.all /\ ~b.all =>
       /\ Where(c.s, LocS) = Where(a.s, LocS) \cup Where(b.s, LocS)
       /\ Where(c.f, LocS) = Where(a.f, LocS) \cup Where(b.f, LocS)
       /\ Where(c.b, LocB) = Where(a.b, LocB) \cup Where(b.b, LocB)
       /\ \A l \in AllLocs :
            /\ CountAt(c.s, LocS, l) = Plus(CountAt(a.s, LocS, l), CountAt(b.s, LocS, l))
            /\ CountAt(c.f, LocS, l) = Plus(CountAt(a.f, LocS, l), CountAt(b.f, LocS, l))
            /\ CountAt(c.b, LocB, l) = Plus(CountAt(a.b, LocB, l), CountAt(b.b, LocB, l))
            /\ a.t.on => TrueAt(c, l) = Plus(TrueAt(a, l), TrueAt(b, l))
       /\ \A i \in DOMAIN a.s : c.s[i].loc = a.s[i].loc
       /\ \A i \in DOMAIN c.s : c.s[i].k = i - 1
       /\ \A i \in DOMAIN c.b : c.b[i].k = i - 1
  /\ ~(a.all /\ b.all) => Same(c, Merge(b, a))
  /\ Same(c, Merge(Other(a), b))
  /\ Same(c, Merge(a, Other(b)))
(* a file that does not track true counters drops those of the file merged into it *)
Drop(a) == [a EXCEPT !.t = NoBt]
SameSome(S, a, b) == IF \A x, y \in S : x.t.on = y.t.on THEN Same(a, b) ELSE Same(Drop(a), Drop(b))
AssocLaw(a, b, c) == SameSome({a, b, c}, Merge(Merge(a, b), c), Merge(a, Merge(b, c)))
(* C18 *)
ResetLaws(a) ==
  LET z == Reset(a) IN
  /\ \A i \in DOMAIN a.s : z.s[i] = Zero(a.s[i])
  /\ \A i \in DOMAIN a.b : z.b[i] = Zero(a.b[i])
  /\ Summary(z).lines[1] = 0 /\ Summary(z).statements[1] = 0 /\ Summary(z).branches[1] = 0
  /\ ~a.all => Same(Merge(a, z), a) /\ Same(Merge(z, a), a)
  /\ Reset(z) = z
(* C16 *)
Within(t) == t[1] <= t[2] /\ Pct(t) \in 0..10000 /\ (Pct(t) = 10000 <=> t[1] = t[2])
SumLaws(a, b) ==
  LET x == Summary(a) y == Summary(b) IN
  /\ Within(x.lines) /\ Within(x.statements) /\ Within(x.functions) /\ Within(x.branches)
  /\ x.statements[2] = Len(a.s) /\ x.functions[2] = Len(a.f)
  /\ AddSum(x, y) = AddSum(y, x)
(* C17 *)
LineLaws(a) ==
  LET lc == LineCov(a) un == SeqRange(Uncovered(a)) bl == BranchLines(a) IN
  /\ { lc[i][1] : i \in DOMAIN lc } = { Line(a.s[i].loc) : i \in DOMAIN a.s }
  /\ \A i \in DOMAIN lc : lc[i][1] \in un <=> \A j \in DOMAIN a.s : Line(a.s[j].loc) = lc[i][1] => a.s[j].ns = <<0>>
  /\ SumSeq([i \in DOMAIN bl |-> bl[i][2]]) = Summary(a).branches[1]
  /\ SumSeq([i \in DOMAIN bl |-> bl[i][3]]) = Summary(a).branches[2]

Ops == ph = "show" /\ (DEEP \/ Len(ops) = 1)
Always == ph = "show"
InvWellFormed == Always => \A i \in Regs : WellFormed(reg[i])
InvMerge == Ops => \A i, j \in Regs : MergeLaws(reg[i], reg[j])
InvAssoc == Ops => \A i, j, k \in Regs : AssocLaw(reg[i], reg[j], reg[k])
InvReset == Ops => \A i \in Regs : ResetLaws(reg[i])
InvSummary == Ops => \A i, j \in Regs : SumLaws(reg[i], reg[j])
InvLines == Ops => \A i \in Regs : LineLaws(reg[i])

(* C15: a map is what one gets by merging, path by path, what was given to it *)
RECURSIVE MergeSeq(_)
MergeSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Merge(MergeSeq(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
InvMaps ==
  Always => \A m \in Maps :
    LET M == map[m] G == given[m] IN
    /\ [i \in DOMAIN M |-> M[i].path] = Distinct([i \in DOMAIN G |-> G[i].path])
    /\ \A i \in DOMAIN M : LET gs == SelectSeq(G, LAMBDA a : a.path = M[i].path) IN SameSome(SeqRange(gs), M[i], MergeSeq(gs))
    /\ MapSummary(M) = FoldSum(ZeroSum, [i \in DOMAIN M |-> Summary(M[Len(M) + 1 - i])])
=============================================================================
