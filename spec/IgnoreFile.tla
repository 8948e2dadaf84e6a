----------------------------- MODULE IgnoreFile -----------------------------
(***************************************************************************)
(* C08.  A file is read item by item: comments, statements, a hashbang.    *)
(* The monitor decides whether the file must be left untouched: a hint     *)
(* counts when no program text comes before it or none comes after it.     *)
(* A comment's text is a tuple of pieces; it is the hint when it is spelt  *)
(*      blank* istanbul blank+ ignore blank+ file (a non-word character)?  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS ITEMS,      \* kinds of items a file is made of
          TEXTS,      \* "all": every spelling; "few": a good and a bad one
          MaxLen, MaxHint, EMIT

VARIABLES file, seen, head, pend, ph
vars == <<file, seen, head, pend, ph>>

(* ---- spelling *)
Pre   == {"", " ", "\n ", "\t", " * ", "x ", "@"}
W1    == {"istanbul", "Istanbul", "istanbuls", "c8"}
Gap   == {" ", "  ", "\t", "\n", "", "-"}
W2    == {"ignore", "ignored", "Ignore"}
W3    == {"file", "files", "File", "fil", "next", "if", "else"}
Post  == {"", " ", ":", "s", "1", "_", "-x", " -- why", "\n", ".js", "next"}
Blank == {" ", "  ", "\t", "\n", "\n "}
Word  == {"s", "1", "_", "next"}
IsHint(t) == /\ t[1] \in Blank \cup {""} /\ t[2] = "istanbul" /\ t[3] \in Blank /\ t[4] = "ignore"
             /\ t[5] \in Blank /\ t[6] = "file" /\ t[7] \notin Word
Good == <<" ", "istanbul", " ", "ignore", " ", "file", " ">>
GoodL == <<" ", "istanbul", " ", "ignore", " ", "file", "">>
(* the pieces vary one or two at a time around the good spelling *)
Near == { [Good EXCEPT ![1] = a, ![7] = g] : a \in Pre, g \in Post }
        \cup { [Good EXCEPT ![3] = c, ![5] = e] : c \in Gap, e \in Gap }
        \cup { [Good EXCEPT ![2] = b, ![4] = d, ![6] = f] : b \in W1, d \in W2, f \in W3 }
Few == {GoodL, [Good EXCEPT ![1] = "x "], [Good EXCEPT ![6] = "next"]}
Texts == IF TEXTS = "all" THEN Near ELSE Few

(* ---- items: k is the kind; a comment has a text and says whether it shares its line with what is before it *)
Code == {"stmt", "dir", "block", "fn", "cls", "exp", "empty"}
Inner == {"inblock", "infn", "inexpr", "inarg", "incls"}       \* code with the comment inside of it
Comments == {"blk", "lin"}
IsCode(k) == k \in Code \cup Inner
Hints(f) == Cardinality({ i \in DOMAIN f : f[i].k \in Comments \cup Inner /\ f[i].t # <<>> })

Init == file = <<>> /\ seen = FALSE /\ head = FALSE /\ pend = FALSE /\ ph = "run"
Add(k, t, nl) ==
  /\ ph = "run" /\ Len(file) < MaxLen
  /\ k = "hash" => file = <<>>
  /\ k = "dir" => \A i \in DOMAIN file : file[i].k \in {"hash", "dir"} \cup Comments
  /\ t # <<>> => Hints(file) < MaxHint
  /\ file' = Append(file, [k |-> k, t |-> t, nl |-> nl])
  /\ seen' = (seen \/ IsCode(k))
  /\ head' = (head \/ (k \in Comments /\ ~seen /\ t # <<>> /\ IsHint(t)))
  /\ pend' = IF IsCode(k) THEN FALSE ELSE (pend \/ (k \in Comments /\ t # <<>> /\ IsHint(t)))
  /\ UNCHANGED ph
Show ==
  /\ ph = "run" /\ Len(file) > 0
  /\ EMIT => PrintT("F" \o ToJson([f |-> file, u |-> (head \/ pend)]))
  /\ ph' = "end"
  /\ UNCHANGED <<file, seen, head, pend>>
Next == \/ \E k \in ITEMS \cap (Code \cup {"hash"}) : Add(k, <<>>, TRUE)
        \/ \E k \in ITEMS \cap Comments, t \in Texts \cup {<<>>}, nl \in BOOLEAN :
              /\ k = "lin" => \A i \in DOMAIN t : t[i] \notin {"\n", "\n "}
              /\ Add(k, t, nl)
        \/ \E k \in ITEMS \cap Inner, t \in Texts : Add(k, t, TRUE)
        \/ Show
Spec == Init /\ [][Next]_vars

(* the declarative reading of the property *)
Untouched(f) ==
  \E i \in DOMAIN f : /\ f[i].k \in Comments /\ f[i].t # <<>> /\ IsHint(f[i].t)
                      /\ \/ \A j \in 1..(i - 1) : ~IsCode(f[j].k)
                         \/ \A j \in (i + 1)..Len(f) : ~IsCode(f[j].k)
Agrees == Untouched(file) = (head \/ pend)
=============================================================================
