------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* C13.  A configuration text is read entry by entry.  Each known key sets *)
(* the one field it names, unknown keys set nothing, and one wrong value   *)
(* or text that is no object makes the whole configuration count as absent *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS KEYS,        \* the known keys entries are made of
          UNKNOWN,     \* keys that mean nothing
          TEXTS,       \* texts that are no object
          WRONG,       \* whether wrong values are tried
          MaxEntries, EMIT

VARIABLES conf, eff, bad, ph
vars == <<conf, eff, bad, ph>>

Default == [coverageVariable |-> "__coverage__", compact |-> "false", reportLogic |-> "false", ignoreClassMethods |-> "[]",
            inputSourceMap |-> "null", instrumentLog |-> "{}", debugInitialCoverageComment |-> "false", unstableExclude |-> "null"]
(* the JSON texts tried for a key, and the value each stands for; "!" is a wrong value *)
Bool == [yes |-> "true", no |-> "false", null |-> "!", one |-> "!", str |-> "!"]
Vals == [coverageVariable |-> [str |-> "cv", empty |-> "", uni |-> "\\u00e9\\n", null |-> "!", one |-> "!", list |-> "!"],
         compact |-> Bool, reportLogic |-> Bool, debugInitialCoverageComment |-> Bool,
         ignoreClassMethods |-> [none |-> "[]", m |-> "[m]", mn |-> "[m,n]", null |-> "!", str |-> "!", ones |-> "!"],
         inputSourceMap |-> [null |-> "null", full |-> "full", min |-> "min", few |-> "min", more |-> "min", part |-> "part", str |-> "!", one |-> "!", vstr |-> "!", nulls |-> "!"],
         instrumentLog |-> [none |-> "{}", off |-> "{}", bogus |-> "bogus", trace |-> "trace", nul |-> "{}", other |-> "{}", info |-> "info", infot |-> "infot",
                            null |-> "!", str |-> "!", lone |-> "!", tstr |-> "!", tnull |-> "!"],
         unstableExclude |-> [null |-> "null", none |-> "[]", this |-> "[this]", that |-> "[that]", wrong |-> "[wrong]", str |-> "!", ones |-> "!"]]
ASSUME KEYS \subseteq DOMAIN Vals /\ DOMAIN Vals = DOMAIN Default

Known(k) == k \in DOMAIN Vals
Given(k) == \E i \in DOMAIN conf : conf[i].k = k
Init == conf = <<>> /\ eff = Default /\ bad = FALSE /\ ph = "run"
Entry(k, v) ==
  /\ ph = "run" /\ Len(conf) < MaxEntries /\ ~Given(k)
  /\ IF WRONG \/ ~Known(k) THEN TRUE ELSE Vals[k][v] # "!"
  /\ conf' = Append(conf, [k |-> k, v |-> v])
  /\ bad' = (IF bad \/ ~Known(k) THEN bad ELSE Vals[k][v] = "!")
  /\ eff' = IF Known(k) THEN [eff EXCEPT ![k] = Vals[k][v]] ELSE eff
  /\ UNCHANGED ph
Text(t) == ph = "run" /\ conf = <<>> /\ conf' = <<[k |-> "#", v |-> t]>> /\ bad' = TRUE /\ ph' = "text" /\ UNCHANGED eff
Show == /\ ph \in {"run", "text"}
        /\ EMIT => PrintT("F" \o ToJson([c |-> conf, bad |-> bad, e |-> IF bad THEN Default ELSE eff]))
        /\ ph' = "end" /\ UNCHANGED <<conf, eff, bad>>
Next == \/ \E k \in KEYS : \E v \in DOMAIN Vals[k] : Entry(k, v)
        \/ \E k \in UNKNOWN, v \in {"null", "true", "obj"} : Entry(k, v)
        \/ \E t \in TEXTS : Text(t)
        \/ Show
Spec == Init /\ [][Next]_vars

(* ---- the property: what the configuration means, read off the entries without an order *)
Entries(k) == { i \in DOMAIN conf : conf[i].k = k }
IsText == conf # <<>> /\ conf[1].k = "#"
Wellformed == /\ ~IsText
              /\ \A k \in DOMAIN Vals : \A i \in Entries(k) : Vals[k][conf[i].v] # "!"
Result == IF bad THEN Default ELSE eff
Falls == bad = ~Wellformed
Fallback == ph = "end" /\ bad => Result = Default
OwnKey == \A k \in DOMAIN Vals : Result[k] # Default[k] => Entries(k) # {}
Independent == Wellformed => \A k \in DOMAIN Vals : Result[k] = IF Entries(k) = {} THEN Default[k] ELSE LET i == CHOOSE j \in Entries(k) : TRUE IN Vals[k][conf[i].v]
=============================================================================
