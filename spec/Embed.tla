------------------------------- MODULE Embed --------------------------------
(***************************************************************************)
(* C12.  The coverage data of a file becomes program text (an object       *)
(* literal) and, when asked for, JSON inside of a comment.  Strings are    *)
(* sequences of characters; Enc/Dec model string literals, JEnc/JDec JSON  *)
(* that must not close the comment.  A history edits the data one field    *)
(* at a time; each version is instrumented, and two versions have the same *)
(* hash exactly when their data is the same.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS CH, MaxStr,       \* the characters of strings, and how many
          MODE,             \* "str": one field takes every string; "edit": histories of edits
          MaxEdit, EMIT

VARIABLES data, hist, ph
vars == <<data, hist, ph>>

Strings == UNION { [1..n -> CH] : n \in 0..MaxStr }

(* ---- text of a string literal, and what it means *)
Enc(c) == CASE c = "dq" -> <<"bs", "dq">> [] c = "bs" -> <<"bs", "bs">> [] c = "lf" -> <<"bs", "n">> [] c = "cr" -> <<"bs", "r">>
            [] c = "nul" -> <<"bs", "0x">> [] c = "ls" -> <<"bs", "u2028">> [] OTHER -> <<c>>
RECURSIVE EncS(_), DecS(_)
EncS(s) == IF s = <<>> THEN <<>> ELSE Enc(Head(s)) \o EncS(Tail(s))
Un(e) == CASE e = "n" -> "lf" [] e = "r" -> "cr" [] e = "0x" -> "nul" [] e = "u2028" -> "ls" [] OTHER -> e
DecS(t) == IF t = <<>> THEN <<>> ELSE IF Head(t) = "bs" THEN <<Un(t[2])>> \o DecS(SubSeq(t, 3, Len(t))) ELSE <<Head(t)>> \o DecS(Tail(t))
Whole(t) == \A i \in DOMAIN t : t[i] \in {"lf", "cr"} => FALSE     \* nothing ends the literal early
(* a slash behind a star is escaped, which JSON allows *)
RECURSIVE JEncS(_, _)
JEncS(s, prev) == IF s = <<>> THEN <<>>
                  ELSE (IF Head(s) = "sl" /\ prev = "st" THEN <<"bs", "sl">> ELSE Enc(Head(s))) \o JEncS(Tail(s), Head(s))
Opens(t) == \E i \in 1..(Len(t) - 1) : t[i] = "st" /\ t[i + 1] = "sl"
CodecOK(s) == /\ DecS(EncS(s)) = s /\ Whole(EncS(s))
              /\ DecS(JEncS(s, "")) = s /\ ~Opens(JEncS(s, ""))

(* ---- the data of a file: fields and what they may hold *)
A == <<"a">>
B == <<"b">>
Absent == <<"absent">>      \* a field that is not there
NoList == <<Absent>>
NULL == <<"null">>
Fields == [ path |-> {A, B}, fname |-> {"f", "g"}, n |-> {1, 2}, col |-> {0, 1}, logic |-> {FALSE, TRUE}, kind |-> {"if", "or", "sw"},
            sm |-> {FALSE, TRUE}, ver |-> {3, 2}, file |-> {Absent, A, <<>>}, root |-> {Absent, A, <<>>}, sources |-> {<<>>, <<A>>, <<A, B>>, <<B, A>>},
            content |-> {NoList, <<>>, <<A>>, <<NULL>>, <<NULL, A>>, <<A, NULL>>}, names |-> {<<>>, <<A>>, <<B>>, <<A, B>>}, maps |-> {<<>>, A, B} ]
FN == DOMAIN Fields
Base == [ path |-> A, fname |-> "f", n |-> 1, col |-> 0, logic |-> FALSE, kind |-> "if", sm |-> TRUE, ver |-> 3, file |-> Absent, root |-> Absent,
          sources |-> <<A>>, content |-> NoList, names |-> <<>>, maps |-> A ]
SM == {"ver", "file", "root", "sources", "content", "names", "maps"}
Slots == {"path", "file", "root", "sources", "content", "names", "maps"}
Put(d, f, s) == [d EXCEPT ![f] = IF f \in {"sources", "content", "names"} THEN <<s>> ELSE s]
(* what the coverage object shows of it: nothing of a source map that is not given *)
View(d) == [f \in FN |-> IF f \in SM /\ ~d.sm THEN Base[f] ELSE d[f]]

Init == /\ hist = <<>> /\ ph = "run"
        /\ data \in IF MODE = "str" THEN { Put(Base, f, s) : f \in Slots, s \in Strings } ELSE {Base, [Base EXCEPT !.sm = FALSE]}
Edit == /\ ph = "run" /\ MODE = "edit" /\ Len(hist) < MaxEdit
        /\ \E f \in FN : \E v \in Fields[f] :
             /\ data[f] # v
             /\ data' = [data EXCEPT ![f] = v]
        /\ hist' = Append(hist, data) /\ UNCHANGED ph
All == Append(hist, data)
Show == /\ ph = "run" /\ (MODE = "edit" => Len(hist) = MaxEdit)
        /\ EMIT => PrintT("E" \o ToJson([h |-> All, eq |-> [i \in DOMAIN All |-> CHOOSE j \in DOMAIN All :
                                              View(All[j]) = View(All[i]) /\ \A k \in 1..(j - 1) : View(All[k]) # View(All[i])]]))
        /\ ph' = "end" /\ UNCHANGED <<data, hist>>
Next == Edit \/ Show
Spec == Init /\ [][Next]_vars

Verbatim == \A f \in {"path", "maps"} : CodecOK(data[f])
VerbatimMore == (MODE = "str") => \A f \in {"sources", "content", "names"} : \A i \in DOMAIN data[f] : CodecOK(data[f][i])
=============================================================================
