------------------------------ MODULE Percent ------------------------------
(***************************************************************************)
(* The percentage of c out of t in hundredths of a percent, cut off, by    *)
(* long division, so that it stays within TLC's integers (C16).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS SMALL,  \* all pairs up to this total
          LARGE   \* totals tried with selected parts

RECURSIVE Digits(_, _, _)
Digits(r, t, n) == IF n = 0 THEN 0
                   ELSE LET q == (10 * r) \div t IN q * (10 ^ (n - 1)) + Digits((10 * r) % t, t, n - 1)
Pct(c, t) == IF t = 0 THEN 10000 ELSE IF c = t THEN 10000 ELSE Digits(c, t, 4)

Parts(t) == IF t <= SMALL THEN [i \in 1..(t + 1) |-> i - 1]
            ELSE << 0, 1, 2, t \div 10000, t \div 10000 + 1, t \div 1000, t \div 3, t \div 3 + 1, t \div 2,
                    t \div 2 + 1, (t \div 3) * 2, t - t \div 3, t - t \div 1000, t - t \div 10000 - 1, t - t \div 10000,
                    t - t \div 20001, t - 3, t - 2, t - 1, t >>

VARIABLE t, ph
Init == t \in (0..SMALL) \cup LARGE /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED t
        /\ LET p == Parts(t) IN PrintT("C" \o ToJson([t |-> t, c |-> p, p |-> [i \in DOMAIN p |-> Pct(p[i], t)]]))
Spec == Init /\ [][Next]_<<t, ph>>

Bounds == \A i \in DOMAIN Parts(t) : LET c == Parts(t)[i] IN Pct(c, t) \in 0..10000
(* everything covered and nothing less is 100 % *)
Full == t > 0 => \A i \in DOMAIN Parts(t) : LET c == Parts(t)[i] IN (Pct(c, t) = 10000 <=> c = t)
(* cut off: p <= 10000 c / t < p + 1 *)
Truncated == t \in 1..SMALL =>
  \A i \in DOMAIN Parts(t) : LET c == Parts(t)[i] p == Pct(c, t) IN p * t <= 10000 * c /\ 10000 * c < (p + 1) * t
Monotone == t <= SMALL => \A i \in 2..Len(Parts(t)) : Pct(Parts(t)[i - 1], t) <= Pct(Parts(t)[i], t)
=============================================================================
