-------------------------------- MODULE CrcMC --------------------------------
(* What the CRC of the specification guarantees, for frames of up to 255      *)
(* bytes (X04).  A frame is processed bit by bit; the CRC over a frame that   *)
(* an error pattern e was added to differs from that over the frame itself by *)
(* the CRC (from 0) of e, because a step of the register is linear (Linear).  *)
(* So an error is detected if its syndrome is not 0, and the syndrome of e is *)
(* the sum of those of its bits.  The model steps the register through the    *)
(* syndromes of single-bit errors, from the last bit of the frame backwards,  *)
(* remembering all of them; its invariants say that                           *)
(*   - they are all different and not 0        (one- and two-bit errors),     *)
(*   - each has an odd number of bits          (odd numbers of errors),       *)
(*   - no pattern of up to 16 adjacent bits has syndrome 0 (bursts).          *)
EXTENDS ModbusPDU
CONSTANT NBits               \* bits in the longest frame

Step(r) == CrcShift(r, 1)
RECURSIVE Weight(_)
Weight(r) == IF r = 0 THEN 0 ELSE (r % 2) + Weight(r \div 2)

VARIABLES i, r, seen
vars == <<i, r, seen>>
(* bits are transmitted least significant first and enter at bit 0: an error  *)
(* in the i-th bit from the end of the frame has the syndrome Step^i(1)       *)
Init == i = 1 /\ r = Step(1) /\ seen = {}
Next == i < NBits /\ i' = i + 1 /\ r' = Step(r) /\ seen' = seen \cup {r}

NonZero == r # 0
Different == r \notin seen
Odd == Weight(r) % 2 = 1
Order == Cardinality(seen) = i - 1

(* the step is linear and loses nothing                                        *)
Bits == {2 ^ k : k \in 0..15}
Linear == \A a \in {(37 * n) % 65536 : n \in 0..600} \cup Bits : \A b \in Bits : Step(a ^^ b) = Step(a) ^^ Step(b)
Injective == Step(0) = 0 /\ \A a \in 1..65535 : Step(a) # 0
(* a burst of up to 16 bits: a pattern p # 0 of 16 bits enters an empty       *)
(* register as p (its bits are consecutive), and stays there: never 0         *)
Burst == \A p \in 1..65535 : CrcShift(p, 16) # 0
(* sums of odd weight have odd weight, so are not 0                            *)
Parity == \A a \in {(61 * n) % 65536 : n \in 0..600} : \A b \in Bits : (Weight(a ^^ b) % 2) = ((Weight(a) + 1) % 2)
(* the table-driven form used everywhere else is the bitwise one              *)
Table8 == \A a \in Bits \cup {0, 65535, 4660} : \A b \in {0, 1, 127, 128, 255} : CrcByte(a, b) = CrcShift(a ^^ b, 8)
Known == /\ Crc(<<>>) = 65535
         /\ Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = 19255      \* 16#4B37, the catalogued check value
         /\ WithCrc(<<1, 3, 0, 0, 0, 10>>) = <<1, 3, 0, 0, 0, 10, 197, 205>>
ASSUME Linear /\ Injective /\ Burst /\ Parity /\ Table8 /\ Known
===============================================================================
