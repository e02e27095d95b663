----------------------------- MODULE MC_Biquad ------------------------------
(* The designs of Filters!Design have the responses their names promise:    *)
(* gain at frequency zero, at half the sample rate and at the design        *)
(* frequency.                                                               *)
EXTENDS Filters, TLC
VARIABLES fn, t, q, g
Triples == {<<3, 4, 5>>, <<4, 3, 5>>, <<-3, 4, 5>>, <<0, 1, 1>>, <<5, 12, 13>>, <<-12, 5, 13>>}
Qs == {<<1, 2>>, <<1, 1>>, <<3, 1>>, <<2, 3>>}
Gains == {<<1, 1, 1, 1>>, <<2, 1, 3, 1>>, <<1, 2, 1, 1>>, <<3, 2, 1, 2>>, <<4, 1, 2, 1>>}
Fns == {"LowPass", "HighPass", "BandPassSkirt", "BandPassPeak", "Notch", "AllPass", "Peaking", "LowShelf", "HighShelf"}
Init == fn \in Fns /\ t \in Triples /\ q \in Qs /\ g \in Gains
Next == FALSE /\ UNCHANGED <<fn, t, q, g>>
Spec == Init /\ [][Next]_<<fn, t, q, g>>
X == Reduced(Design(fn, t[1], t[2], t[3], q, g))
N0 == X[1] + X[2] + X[3]   D0 == X[4] + X[5] + X[6]
N1 == X[1] - X[2] + X[3]   D1 == X[4] - X[5] + X[6]
(* at the design frequency, times the hypotenuse: <<re, im>> *)
NW == <<(X[1] + X[3]) * t[1] + X[2] * t[3], (X[1] - X[3]) * t[2]>>
DW == <<(X[4] + X[6]) * t[1] + X[5] * t[3], (X[4] - X[6]) * t[2]>>
Sq(z) == z[1] * z[1] + z[2] * z[2]
Times(z, n) == <<z[1] * n, z[2] * n>>
Right ==
  /\ D0 # 0 /\ D1 # 0 /\ DW # <<0, 0>>
  /\ CASE fn = "LowPass" -> N0 = D0 /\ N1 = 0 /\ Sq(NW) * q[2] * q[2] = Sq(DW) * q[1] * q[1]
       [] fn = "HighPass" -> N0 = 0 /\ N1 = D1 /\ Sq(NW) * q[2] * q[2] = Sq(DW) * q[1] * q[1]
       [] fn = "BandPassSkirt" -> N0 = 0 /\ N1 = 0 /\ Times(NW, q[2]) = Times(DW, q[1])
       [] fn = "BandPassPeak" -> N0 = 0 /\ N1 = 0 /\ NW = DW
       [] fn = "Notch" -> N0 = D0 /\ N1 = D1 /\ NW = <<0, 0>>
       [] fn = "AllPass" -> <<X[1], X[2], X[3]>> = <<X[6], X[5], X[4]>> /\ NW = Times(DW, -1)
       [] fn = "Peaking" -> N0 = D0 /\ N1 = D1 /\ Times(NW, g[2] * g[2]) = Times(DW, g[1] * g[1])
       [] fn = "LowShelf" -> N0 * g[2] * g[2] = D0 * g[1] * g[1] /\ N1 = D1 /\ Sq(NW) * g[2] * g[2] = Sq(DW) * g[1] * g[1]
       [] fn = "HighShelf" -> N0 = D0 /\ N1 * g[2] * g[2] = D1 * g[1] * g[1] /\ Sq(NW) * g[2] * g[2] = Sq(DW) * g[1] * g[1]
=============================================================================
