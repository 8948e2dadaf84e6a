------------------------------- MODULE Strict -------------------------------
(***************************************************************************)
(* C22, directives.  A program is a chain of contexts, one inside of the   *)
(* other.  Each begins with strings, which are directives as long as       *)
(* nothing else comes before them and the context can have directives.     *)
(* Each context asks once whether it runs in strict mode.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TOPS, KINDS, STRS, MaxDepth, TopStrs, MaxStrs, EMIT

VARIABLES ctx, ph     \* ctx: sequence of [k, s, probe]: kind, strings so far, closed
vars == <<ctx, ph>>

(* contexts that have directives; those whose code is strict in any case *)
Bodies == {"script", "module", "fn", "fe", "arrow", "objm", "getter", "setter", "gen", "async", "afn", "meth", "ctor", "pm", "fld", "def", "nfe", "dctor", "tag", "iff", "ivr"}
Classy == {"meth", "ctor", "pm", "fld", "sblk", "dctor", "heri"}
Always == Classy \cup {"module"}
Whole == {"us", "usd", "asi", "hus", "cus"}          \* 'use strict' in some spelling
Strings == Whole \cup {"ot", "esc", "cap", "pre"}    \* other strings: they do not end the prologue
(* "par", "cat", "num", "bt": expressions that do *)

Own(c) == /\ c.k \in Bodies
          /\ \E i \in DOMAIN c.s : c.s[i] \in Whole /\ \A j \in 1..(i - 1) : c.s[j] \in Strings
RECURSIVE Mode(_, _)
Mode(cs, n) == IF n = 0 THEN FALSE ELSE Mode(cs, n - 1) \/ cs[n].k \in Always \/ Own(cs[n])

Init == ph = "run" /\ ctx \in { <<[k |-> t, s |-> <<>>]>> : t \in TOPS }
Str(x) == /\ ph = "run" /\ Len(ctx[Len(ctx)].s) < (IF Len(ctx) = 1 THEN TopStrs ELSE MaxStrs)
          /\ LET s == ctx[Len(ctx)].s IN s # <<>> /\ s[Len(s)] = "asi" => x \notin {"par", "bt"}     \* they would go on with the expression
          /\ ctx' = [ctx EXCEPT ![Len(ctx)].s = Append(@, x)] /\ UNCHANGED ph
Open(k) == /\ ph = "run" /\ Len(ctx) < MaxDepth
           /\ ctx' = Append(ctx, [k |-> k, s |-> <<>>]) /\ UNCHANGED ph
Show == /\ ph = "run"
        /\ EMIT => PrintT("S" \o ToJson([c |-> ctx, m |-> [i \in DOMAIN ctx |-> Mode(ctx, i)]]))
        /\ ph' = "end" /\ UNCHANGED ctx
Next == (\E x \in STRS : Str(x)) \/ (\E k \in KINDS : Open(k)) \/ Show
Spec == Init /\ [][Next]_vars

(* strictness is inherited, and code of modules and classes has it *)
Inherit == \A i \in 2..Len(ctx) : Mode(ctx, i - 1) => Mode(ctx, i)
Module == ctx[1].k = "module" => \A i \in DOMAIN ctx : Mode(ctx, i)
=============================================================================
