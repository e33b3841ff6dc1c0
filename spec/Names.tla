-------------------------------- MODULE Names --------------------------------
(* Strings as sequences of character codes, and the choice of a fresh name in a set of names.       *)
EXTENDS Integers, Sequences, FiniteSets

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == IF c >= 65 /\ c <= 90 THEN TRUE ELSE c >= 97 /\ c <= 122
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Val(_)
Val(w) == IF w = <<>> THEN 0 ELSE Val(SubSeq(w, 1, Len(w) - 1)) * 10 + (w[Len(w)] - 48)

(* A name is a prefix and a number: the longest trailing number of at most nine digits that does not *)
(* start with a zero (a lone zero is a number).                                                      *)
RECURSIVE Digits(_, _)
Digits(w, n) == IF n = 9 \/ n = Len(w) THEN n ELSE IF IsDigit(w[Len(w) - n]) THEN Digits(w, n + 1) ELSE n
RECURSIVE SkipZeros(_)
SkipZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN SkipZeros(Tail(s)) ELSE s
SufStr(w) == LET d == Digits(w, 0) IN SkipZeros(SubSeq(w, Len(w) - d + 1, Len(w)))
Suf(w) == LET s == SufStr(w) IN IF s = <<>> THEN -1 ELSE Val(s)
Pre(w) == SubSeq(w, 1, Len(w) - Len(SufStr(w)))

(* The name given to a request for w when the names in S are taken: w itself when it is free,        *)
(* otherwise its prefix with the number that follows the largest one in use (1 if there is none).    *)
RECURSIVE Fresh(_, _)
Fresh(w, S) == IF w \notin S THEN w
               ELSE LET p == Pre(w)
                        N == {Suf(x) : x \in {y \in S : Pre(y) = p}} \cup {0}
                        m == CHOOSE n \in N : \A k \in N : k <= n
                    IN Fresh(p \o Dec(m + 1), S)

(* a total order on strings: by length, then lexicographically *)
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF x = <<>> \/ y = <<>> THEN x = <<>> /\ y # <<>>
                 ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE LexLess(Tail(x), Tail(y))
StrLess(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLess(x, y)
LOCAL INSTANCE SequencesExt
SortStr(S) == SetToSortSeq(S, StrLess)
=============================================================================
