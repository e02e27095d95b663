------------------------------ MODULE ByteText ------------------------------
(* Text as sequences of byte codes: trimming, words, decimal numbers.      *)
EXTENDS Integers, Sequences, SequencesExt

Space == 32
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Digit(c) == c \in 48..57
Digits(s) == \A i \in 1..Len(s) : Digit(s[i])

(* first index from i on with p, or Len(s) + 1 *)
First(s, i, P(_)) ==
  LET idx == {k \in i..Len(s) : P(s[k])} IN
  IF idx = {} THEN Len(s) + 1 ELSE CHOOSE k \in idx : \A j \in idx : k <= j
Trim(s) ==
  LET keep == {k \in 1..Len(s) : ~Blank(s[k])} IN
  IF keep = {} THEN <<>>
  ELSE SubSeq(s, CHOOSE k \in keep : \A j \in keep : k <= j,
                 CHOOSE k \in keep : \A j \in keep : k >= j)
(* s cut at every c *)
Split(s, c) ==
  LET r == FoldLeft(LAMBDA a, x : IF x = c THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
                                           ELSE [out |-> a.out, cur |-> Append(a.cur, x)],
                    [out |-> <<>>, cur |-> <<>>], s)
  IN Append(r.out, r.cur)
Words(s) == Split(s, Space)
Includes(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
From(s, i) == SubSeq(s, i, Len(s))

(* decimal numbers: [sign] digits [. digits] [e [sign] digits] *)
SignLen(s) == IF Len(s) > 0 THEN (IF s[1] \in {43, 45} THEN 1 ELSE 0) ELSE 0
Neg(s) == IF Len(s) > 0 THEN s[1] = 45 ELSE FALSE
IsInt(s) == LET d == From(s, 1 + SignLen(s)) IN Len(d) > 0 /\ Digits(d)
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE 10 * Val(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
IntVal(s) == LET v == Val(From(s, 1 + SignLen(s))) IN IF Neg(s) THEN 0 - v ELSE v
Parts(s) ==
  LET u == From(s, 1 + SignLen(s))
      e == First(u, 1, LAMBDA c : c \in {69, 101})
      m == SubSeq(u, 1, e - 1)
      p == First(m, 1, LAMBDA c : c = 46)
  IN [int |-> SubSeq(m, 1, p - 1), frac |-> From(m, p + 1), hasexp |-> e <= Len(u), exp |-> From(u, e + 1)]
IsPlainDecimal(s) ==
  LET n == Parts(s) IN
  /\ ~n.hasexp
  /\ Len(n.int) > 0 /\ Digits(n.int) /\ Digits(n.frac)
IsNumber(s) ==
  LET n == Parts(s) IN
  /\ Len(n.int) + Len(n.frac) > 0
  /\ Digits(n.int) /\ Digits(n.frac)
  /\ (n.hasexp => IsInt(n.exp))
(* canonical form <<negative, digits without outer zeros, power of ten>> *)
Canon(s) ==
  LET n == Parts(s)
      d == n.int \o n.frac
      e == (IF n.hasexp THEN IntVal(n.exp) ELSE 0) - Len(n.frac)
      nz == {k \in 1..Len(d) : d[k] # 48}
  IN IF nz = {} THEN <<FALSE, <<>>, 0>>
     ELSE LET a == CHOOSE k \in nz : \A j \in nz : k <= j
              b == CHOOSE k \in nz : \A j \in nz : k >= j
          IN <<Neg(s), SubSeq(d, a, b), e + Len(d) - b>>
Zero == <<FALSE, <<>>, 0>>
=============================================================================
