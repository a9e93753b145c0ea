------------------------------ MODULE ModbusPDU ------------------------------
(* The Modbus application protocol over RTU, as data: CRC, encoding of        *)
(* requests, what a proper answer to a request is and what it means for the   *)
(* application, and what a request does to a slave's data.                    *)
(* Nothing in here refers to the implementation; all other modules use it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, SequencesExt, Functions

Byte == 0..255
Word == 0..65535

(* ------------------------------- CRC-16 ---------------------------------- *)
(* bit by bit from the polynomial x^16+x^15+x^2+1, reflected: 16#A001         *)
RECURSIVE CrcShift(_, _)
CrcShift(c, n) == IF n = 0 THEN c
                  ELSE CrcShift(IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2, n - 1)
CrcTab == [b \in Byte |-> CrcShift(b, 8)]
CrcByte(c, b) == (c \div 256) ^^ CrcTab[(c % 256) ^^ b]
Crc(s) == FoldLeft(CrcByte, 65535, s)
WithCrc(s) == LET c == Crc(s) IN s \o <<c % 256, c \div 256>>
CrcOk(f) == Len(f) >= 2 /\ Crc(f) = 0

(* ------------------------------- numbers --------------------------------- *)
Hi(w) == w \div 256
Lo(w) == w % 256
U16(f, i) == f[i] * 256 + f[i + 1]
Be(w) == <<Hi(w), Lo(w)>>
CeilDiv(a, b) == (a + b - 1) \div b
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitOf(b, k) == (b \div Pow2[k + 1]) % 2
Seq0(n, F(_)) == [i \in 1..n |-> F(i - 1)]

RECURSIVE SumBits(_, _, _)
SumBits(vals, i, k) == IF k = 8 \/ i > Len(vals) THEN 0
                       ELSE vals[i] * Pow2[k + 1] + SumBits(vals, i + 1, k + 1)
PackBits(vals) == [j \in 1..CeilDiv(Len(vals), 8) |-> SumBits(vals, 8 * (j - 1) + 1, 0)]
PackRegs(vals) == [j \in 1..(2 * Len(vals)) |->
                      IF j % 2 = 1 THEN Hi(vals[(j + 1) \div 2]) ELSE Lo(vals[j \div 2])]
UnpackBits(f, off, n) == [i \in 1..n |-> BitOf(f[off + (i - 1) \div 8], (i - 1) % 8)]
UnpackRegs(f, off, n) == [i \in 1..n |-> U16(f, off + 2 * (i - 1))]

(* ------------------------------ functions -------------------------------- *)
ReadFc == 1..4
SingleFc == {5, 6}
MultiFc == {15, 16}
Supported == ReadFc \cup SingleFc \cup MultiFc
MaxQty(fc) == CASE fc \in {1, 2} -> 2000
                [] fc \in {3, 4} -> 125
                [] fc = 15 -> 1968
                [] fc = 16 -> 123
                [] OTHER -> 1
Table(fc) == CASE fc \in {1, 5, 15} -> "coil"
               [] fc = 2 -> "din"
               [] fc = 4 -> "inreg"
               [] OTHER -> "hreg"
Kinds == {"coil", "din", "inreg", "hreg"}
BitKind(t) == t \in {"coil", "din"}

(* ------------------------- the master's requests ------------------------- *)
(* a request: [fc, a, q, id, v], v the values of a write (one for singles)    *)
ReqLegal(r) == r.fc \in SingleFc \/ (r.q >= 1 /\ r.q <= MaxQty(r.fc))
ReqQty(r) == IF r.fc \in SingleFc THEN 1 ELSE r.q
ReqBody(r) ==
    <<r.id, r.fc>> \o Be(r.a) \o
    (CASE r.fc \in ReadFc -> Be(r.q)
       [] r.fc = 5 -> (IF r.v[1] # 0 THEN <<255, 0>> ELSE <<0, 0>>)
       [] r.fc = 6 -> Be(r.v[1])
       [] r.fc = 15 -> LET p == PackBits(SubSeq(r.v, 1, r.q)) IN Be(r.q) \o <<Len(p)>> \o p
       [] r.fc = 16 -> LET p == PackRegs(SubSeq(r.v, 1, r.q)) IN Be(r.q) \o <<Len(p)>> \o p)
Encode(r) == WithCrc(ReqBody(r))

(* is f, an intact frame of the addressed slave, an answer to request r?      *)
ReadBytes(r) == IF r.fc \in {1, 2} THEN CeilDiv(r.q, 8) ELSE 2 * r.q
IsException(r, f) == Len(f) = 5 /\ f[2] = r.fc + 128
Fits(r, f) ==
    \/ IsException(r, f)
    \/ /\ r.fc \in ReadFc
       /\ Len(f) = 5 + ReadBytes(r)
       /\ f[2] = r.fc
       /\ f[3] = ReadBytes(r)
    \/ /\ r.fc \notin ReadFc
       /\ Len(f) = 8
       /\ SubSeq(f, 1, 6) = SubSeq(ReqBody(r), 1, 6)

(* what the application is told for that answer                               *)
Outcome(r, f) ==
    IF IsException(r, f)
    THEN [k |-> "exc", t |-> Table(r.fc), id |-> r.id, fc |-> r.fc, code |-> f[3], a |-> r.a]
    ELSE IF r.fc \in ReadFc
    THEN [k |-> "rd", t |-> Table(r.fc), id |-> r.id, a |-> r.a,
          v |-> IF r.fc \in {1, 2} THEN UnpackBits(f, 4, r.q) ELSE UnpackRegs(f, 4, r.q)]
    ELSE [k |-> "wr", t |-> Table(r.fc), id |-> r.id, a |-> r.a, q |-> ReqQty(r)]

(* ----------------------- a slave serving a request ----------------------- *)
(* tabs: [coil, din, inreg, hreg] of sequences, item i of address i-1,        *)
(* -1 where the application registered nothing                                *)
(* least length, CRC included, of an intact request with this function code   *)
MinLen(f) == IF Len(f) < 4 THEN 4
             ELSE IF f[2] \in ReadFc \cup SingleFc THEN 8
             ELSE IF f[2] \in MultiFc THEN (IF Len(f) < 9 THEN 9 ELSE 9 + f[7])
             ELSE 4
Short(f) == Len(f) < MinLen(f)
(* its quantity calls for more bytes than were received                        *)
Starved(f) == /\ Len(f) >= 9 /\ f[2] \in MultiFc
              /\ Len(f) < 9 + (IF f[2] = 15 THEN (U16(f, 5) + 7) \div 8 ELSE 2 * U16(f, 5))
Overlong(f) == Len(f) > MinLen(f) /\ f[2] \in Supported
ExcResp(f, code) == WithCrc(<<f[1], IF f[2] >= 128 THEN f[2] ELSE f[2] + 128, code>>)

Items(tab, a, q) == SubSeq(tab, a + 1, a + q)
Missing(tab, a, q) == \E i \in (a + 1)..(a + q) : tab[i] < 0

(* exception codes that are right for this request, {} if it is to be served  *)
ExcCodes(tabs, f) ==
    LET fc == f[2] IN
    IF fc \notin Supported THEN {1}
    ELSE LET tab == tabs[Table(fc)]
             a == U16(f, 3)
             q == IF fc \in SingleFc THEN 1 ELSE U16(f, 5)
         IN  IF fc = 5 /\ U16(f, 5) \notin {0, 65280} THEN {3}
             ELSE IF fc \notin SingleFc /\ (q = 0 \/ q > MaxQty(fc)) THEN {3}
             ELSE IF a + q > Len(tab) THEN {2}
             ELSE LET bc == fc \in MultiFc /\ f[7] # (IF fc = 15 THEN CeilDiv(q, 8) ELSE 2 * q)
                      ms == Missing(tab, a, q)
                  IN  (IF bc THEN {3} ELSE {}) \cup (IF ms THEN {4} ELSE {})

(* the items a request asks to write, as a function address -> value          *)
Writes(f) ==
    LET fc == f[2]
        a == U16(f, 3)
        q == U16(f, 5)
    IN CASE fc = 5 -> (a :> IF q = 65280 THEN 1 ELSE 0)
         [] fc = 6 -> (a :> q)
         [] fc = 15 -> LET b == UnpackBits(f, 8, q) IN [x \in a..(a + q - 1) |-> b[x - a + 1]]
         [] fc = 16 -> LET w == UnpackRegs(f, 8, q) IN [x \in a..(a + q - 1) |-> w[x - a + 1]]
         [] OTHER -> <<>>
    \* only evaluated for requests that are to be served

PositiveResp(tabs, f) ==
    LET fc == f[2]
        a == U16(f, 3)
        q == U16(f, 5)
    IN WithCrc(
         IF fc \in {1, 2} THEN LET p == PackBits(Items(tabs[Table(fc)], a, q)) IN <<f[1], fc, Len(p)>> \o p
         ELSE IF fc \in {3, 4} THEN LET p == PackRegs(Items(tabs[Table(fc)], a, q)) IN <<f[1], fc, Len(p)>> \o p
         ELSE SubSeq(f, 1, 6))

(* items (address -> value) whose value a served request changes              *)
Changes(tabs, f) ==
    LET w == Writes(f)
        t == tabs[Table(f[2])]
    IN  [x \in {y \in DOMAIN w : t[y + 1] # w[y]} |-> w[x]]

(* is this a well-formed answer frame of slave id to request f?               *)
WellFormedAnswer(id, f, resp) ==
    /\ Len(resp) >= 5
    /\ CrcOk(resp)
    /\ resp[1] = id
    /\ \/ resp[2] = (IF f[2] >= 128 THEN f[2] ELSE f[2] + 128) /\ Len(resp) = 5
       \/ /\ resp[2] = f[2]
          /\ f[2] \in Supported
          /\ CASE f[2] \in {1, 2} -> resp[3] = CeilDiv(U16(f, 5), 8) /\ Len(resp) = 5 + resp[3]
               [] f[2] \in {3, 4} -> resp[3] = 2 * U16(f, 5) /\ Len(resp) = 5 + resp[3]
               [] OTHER -> Len(resp) = 8
=============================================================================
