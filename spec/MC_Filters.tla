----------------------------- MODULE MC_Filters -----------------------------
(* However a stream is cut into blocks, the filters that keep a little      *)
(* state give what the whole history says.                                  *)
EXTENDS Filters, TLC
CONSTANTS Values, MaxLen, MaxBlock, Down, Fast, Slow, Coef
VARIABLES h, dec, decOut, rat, ratOut, pre, fm, w, dc, df, iir
vars == <<h, dec, decOut, rat, ratOut, pre, fm, w, dc, df, iir>>
(* two filters of order 2 with poles at roots of unity, one of order 0 *)
B == CASE Coef = 1 -> <<1, 2, -1>>  [] Coef = 2 -> <<2, 0, 1>> [] Coef = 3 -> <<3>>
A == CASE Coef = 1 -> <<1, 1, 1>>   [] Coef = 2 -> <<1, 0, -1>> [] Coef = 3 -> <<1>>
Rt(x) == <<x, 1 - x>>          \* a complex stream made of the real one
Init == /\ h = <<>> /\ dec = DecimInit /\ decOut = <<>> /\ rat = RatioInit /\ ratOut = <<>>
        /\ pre = <<0, 0>> /\ fm = <<>> /\ w = 0 /\ dc = <<>>
        /\ df = [px |-> Zeros(Len(B) - 1), py |-> Zeros(Len(B) - 1)] /\ iir = <<>>
Blocks == UNION {[1..n -> Values] : n \in 0..MaxBlock}
C(in) == [i \in 1..Len(in) |-> Rt(in[i])]
Block(in) ==
  /\ Len(h) + Len(in) <= MaxLen
  /\ h' = h \o in
  /\ \E d \in {DecimBlock(Down, dec, C(in))} : dec' = [sum |-> d.sum, cnt |-> d.cnt] /\ decOut' = decOut \o d.out
  /\ \E r \in {RatioBlock(Fast, Slow, rat, in)} : rat' = [sum |-> r.sum, ph |-> r.ph] /\ ratOut' = ratOut \o r.out
  /\ fm' = fm \o FMBlock(pre, C(in)) /\ pre' = IF in = <<>> THEN pre ELSE Rt(in[Len(in)])
  /\ \E d \in {DCForm(-1, w, in)} : w' = d.w /\ dc' = dc \o d.out
  /\ \E d \in {DFBlock(B, A, df.px, df.py, in)} : df' = [px |-> d.px, py |-> d.py] /\ iir' = iir \o d.out
Next == \E in \in Blocks : Block(in)
Spec == Init /\ [][Next]_vars
Groups == decOut = DecimOut(Down, C(h)) /\ dec.cnt = Len(h) % Down
Rates == ratOut = RatioOut(Fast, Slow, h)
Phases == /\ Len(fm) = Len(h)
          /\ \A i \in 1..Len(h) : fm[i] = CMul(Rt(h[i]), Conj(IF i = 1 THEN <<0, 0>> ELSE Rt(h[i - 1])))
DC == dc = Solve(<<1, -1>>, <<1, 1>>, h)
IIR == iir = Solve(B, A, h) /\ \A n \in 1..Len(h) : Equation(B, A, 1, h, iir, n, 0)
(* rotation: a whole number of turns keeps the phase *)
ASSUME \A k \in 0..7 : \A x \in {<<1, 2>>, <<-3, 0>>} : Turn(x, k + 4) = Turn(x, k) /\ Turn(Turn(x, k), 4 - (k % 4)) = x
ASSUME \A x \in {<<1, 2>>, <<-3, 5>>} : \A k \in 0..3 : Turn(x, k + 1) = CMul(<<0, 1>>, Turn(x, k))
=============================================================================
