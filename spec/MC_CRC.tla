------------------------------- MODULE MC_CRC -------------------------------
(* H06 at design level: the check sequence of AX25Frame detects every      *)
(* error of one, two or three bits in up to MaxBits bits and every burst   *)
(* of at most 16 bits.  Syn(d) is the change of the register caused by     *)
(* flipping the bit with d bits behind it.                                 *)
EXTENDS AX25Frame, TLC, FiniteSets
CONSTANT MaxBits
VARIABLES d, syn, seen
vars == <<d, syn, seen>>
Init == d = 0 /\ syn = CrcStep(1) /\ seen = {}
Next == d < MaxBits - 1 /\ d' = d + 1 /\ syn' = CrcStep(syn) /\ seen' = seen \cup {syn}
Spec == Init /\ [][Next]_vars

Ones(x) == LET c[i \in 0..16] == IF i = 0 THEN 0 ELSE c[i - 1] + Bit(x, i - 1) IN c[16]
(* weight 1: not zero; weight 2: all different; weight 3: a single flip    *)
(* changes the parity of the register, so three flips never cancel.        *)
Single  == syn # 0
Double  == syn \notin seen
Triple  == Ones(syn) % 2 = 1
(* bursts: 16 consecutive syndromes are independent; CrcStep is injective  *)
Syn16[i \in 0..15] == IF i = 0 THEN CrcStep(1) ELSE CrcStep(Syn16[i - 1])
XorOf(m) == LET x[i \in 0..16] == IF i = 0 THEN 0
                                  ELSE IF Bit(m, i - 1) = 1 THEN x[i - 1] ^^ Syn16[i - 1] ELSE x[i - 1]
            IN x[16]
ASSUME \A m \in 1..65535 : XorOf(m) # 0
ASSUME Cardinality({CrcStep(c) : c \in 0..65535}) = 65536
(* the register is the linear model used above *)
ASSUME \A b \in 0..7 : \A o \in {0, 65, 255} :
         (CrcByte(4660, o) ^^ CrcByte(4660, IF Bit(o, b) = 1 THEN o - 2 ^ b ELSE o + 2 ^ b))
           = Syn16[7 - b]
=============================================================================
