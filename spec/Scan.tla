-------------------------------- MODULE Scan --------------------------------
(* What a source text consists of besides comments, and where.  The text is  *)
(* read atom by atom; comments, strings and lines are recognised as C does:  *)
(* // up to the end of the line, /* up to the next */, neither inside a      *)
(* string, and a string does not go on over the end of its line.  What is    *)
(* left over is a sequence of statements `s += w;` and `log("...");` or is   *)
(* rejected.  Every atom has its place: reports name line and column of it.  *)
(* MODE enum: all texts of up to MAX atoms.  MODE trace: CASES gives texts.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Enum == IOEnv.MODE = "enum"
Cases == IF Enum THEN <<>> ELSE JsonDeserialize(IOEnv.CASES)
Max == IF Enum THEN atoi(IOEnv.MAX) ELSE 0
Atoms == {"/", "*", "Q", "N", "E", "P", "V", "L", "R"}
\* number of characters of an atom: P is `s+=`, V a number of four digits and `;`, L `log(`, R `);`, E three letters of two bytes each
Width(a) == CASE a \in {"P", "E"} -> 3 [] a = "V" -> 5 [] a = "L" -> 4 [] a = "R" -> 2 [] OTHER -> 1

VARIABLES c, src, st, toks, cur, line, col, open, done
vars == <<c, src, st, toks, cur, line, col, open, done>>
Init == /\ c \in (IF Enum THEN {0} ELSE 1..Len(Cases)) /\ src = <<>> /\ st = "code" /\ toks = <<>> /\ cur = <<>>
        /\ line = 1 /\ col = 1 /\ open = [l |-> 0, c |-> 0] /\ done = FALSE
Tok(a) == [a |-> a, k |-> Len(src) + 1, s |-> <<>>]
\* an atom outside comments and strings, after the tokens ts
Code(a, ts) ==
  CASE a = "/" -> st' = "slash" /\ toks' = ts /\ UNCHANGED cur
    [] a = "Q" -> st' = "str" /\ toks' = ts /\ cur' = <<>>
    [] a \in {"N", "B"} -> st' = "code" /\ toks' = ts /\ UNCHANGED cur
    [] OTHER   -> st' = "code" /\ toks' = Append(ts, Tok(a)) /\ UNCHANGED cur
Scan(a) ==
  CASE st = "code"  -> Code(a, toks)
    [] st = "slash" -> IF a = "/" THEN st' = "line" /\ UNCHANGED <<toks, cur>>
                       ELSE IF a = "*" THEN st' = "block" /\ UNCHANGED <<toks, cur>>
                       ELSE Code(a, Append(toks, Tok("/")))
    [] st = "line"  -> st' = (IF a = "N" THEN "code" ELSE "line") /\ UNCHANGED <<toks, cur>>
    [] st = "block" -> st' = (IF a = "*" THEN "star" ELSE "block") /\ UNCHANGED <<toks, cur>>
    [] st = "star"  -> st' = (IF a = "/" THEN "code" ELSE IF a = "*" THEN "star" ELSE "block") /\ UNCHANGED <<toks, cur>>
    [] st = "str"   -> IF a = "Q" THEN st' = "code" /\ toks' = Append(toks, [Tok("str") EXCEPT !.s = cur]) /\ UNCHANGED cur
                       ELSE IF a = "N" THEN st' = "code" /\ toks' = Append(toks, Tok("broken")) /\ UNCHANGED cur
                       ELSE st' = "str" /\ cur' = Append(cur, IF a = "V" THEN [a |-> a, k |-> Len(src) + 1] ELSE [a |-> a, k |-> 0]) /\ UNCHANGED toks
Take(a) == /\ Scan(a) /\ src' = Append(src, a)
           /\ line' = (IF a = "N" THEN line + 1 ELSE line) /\ col' = (IF a = "N" THEN 1 ELSE col + Width(a))
           /\ open' = (IF st = "slash" /\ st' = "block" THEN [l |-> line, c |-> col - 1] ELSE open)
           /\ UNCHANGED <<c, done>>
-----------------------------------------------------------------------------
RECURSIVE Stmts(_)
Stmts(ts) == ts = <<>> \/ (Len(ts) >= 2 /\ \/ ts[1].a = "P" /\ ts[2].a = "V" /\ Stmts(SubSeq(ts, 3, Len(ts)))
                                           \/ ts[1].a = "L" /\ ts[2].a = "R" /\ Stmts(SubSeq(ts, 3, Len(ts)))
                                           \/ Len(ts) >= 3 /\ ts[1].a = "L" /\ ts[2].a = "str" /\ ts[3].a = "R" /\ Stmts(SubSeq(ts, 4, Len(ts))))
\* the end of the line follows
Verdict == IF st \in {"block", "star"} THEN "unclosed"
           ELSE IF st \in {"slash", "str"} \/ ~Stmts(toks) THEN "reject" ELSE "accept"
Logs == LET is == SelectSeq([i \in 1..Len(toks) |-> [i |-> i, t |-> toks[i]]], LAMBDA x : x.t.a = "L")
        IN [j \in 1..Len(is) |-> LET n == toks[is[j].i + 1] IN IF n.a = "str" THEN n.s ELSE <<>>]
Adds == LET vs == SelectSeq(toks, LAMBDA t : t.a = "V") IN [j \in 1..Len(vs) |-> vs[j].k]
Tell == /\ ~done /\ done' = TRUE
        /\ PrintT(<<"@SC", ToJson([id |-> c, src |-> src, v |-> Verdict, logs |-> IF Verdict = "accept" THEN Logs ELSE <<>>,
                                   adds |-> IF Verdict = "accept" THEN Adds ELSE <<>>, open |-> open, line |-> line, col |-> col, code |-> st = "code"])>>)
        /\ UNCHANGED <<c, src, st, toks, cur, line, col, open>>
Next == IF Enum THEN (Len(src) < Max /\ ~done /\ \E a \in Atoms : Take(a)) \/ Tell
        ELSE IF Len(src) < Len(Cases[c]) THEN Take(Cases[c][Len(src) + 1]) ELSE Tell
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* what a text means does not depend on its comments: putting a blank for each of them gives the same tokens
Sane == /\ st \in {"code", "slash", "line", "block", "star", "str"}
        /\ (st \in {"block", "star"} => open.l > 0 /\ open.l <= line)
        /\ \A i \in 1..Len(toks) : toks[i].k <= Len(src) /\ (i > 1 => toks[i - 1].k <= toks[i].k)
Strip == st = "code" /\ Len(src) > 1 /\ src[Len(src)] = "/" /\ src[Len(src) - 1] = "*" => \* the end of a comment adds nothing
           \A i \in 1..Len(toks) : toks[i].k < Len(src) - 1
=============================================================================
