-------------------------------- MODULE Bits --------------------------------
(* Arithmetic on byte sequences.  TLC integers are 32 bits wide, so every    *)
(* wider quantity is a little-endian sequence of bytes.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pow2 == [i \in 0..30 |-> IF i = 0 THEN 1 ELSE 2^i]
Zeros == [k \in 0..16 |-> [j \in 1..k |-> 0]]

IsZero(b) == \A i \in DOMAIN b : b[i] = 0
IsNeg(b) == b[Len(b)] >= 128            \* two's complement sign

ByteAt(b, i) == IF i \in DOMAIN b THEN b[i] ELSE 0

(* zero / sign extension and truncation to n bytes *)
ZeroExt(b, n) == [i \in 1..n |-> ByteAt(b, i)]
SignExt(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE IF IsNeg(b) THEN 255 ELSE 0]
Trunc(b, n) == SubSeq(b, 1, n)

Not(b) == [i \in DOMAIN b |-> 255 - b[i]]
RECURSIVE AddCarry(_, _, _)
AddCarry(b, i, c) == IF i > Len(b) \/ c = 0 THEN b
                     ELSE LET s == b[i] + c IN AddCarry([b EXCEPT ![i] = s % 256], i + 1, s \div 256)
Negate(b) == AddCarry(Not(b), 1, 1)

(* zig-zag *)
Shl1(b) == [i \in DOMAIN b |-> (2 * b[i] + (IF i = 1 THEN 0 ELSE b[i - 1] \div 128)) % 256]
Shr1(b) == [i \in DOMAIN b |-> b[i] \div 2 + (IF i = Len(b) THEN 0 ELSE 128 * (b[i + 1] % 2))]
ZigZag(b) == IF IsNeg(b) THEN Not(Shl1(b)) ELSE Shl1(b)
UnZigZag(b) == IF b[1] % 2 = 1 THEN Not(Shr1(b)) ELSE Shr1(b)

(* ---- varints ---- *)
(* the i-th (0..9) group of seven bits of an 8-byte value *)
Group7(b, i) == LET k == (7 * i) \div 8  s == (7 * i) % 8
                IN ((ByteAt(b, k + 1) + 256 * ByteAt(b, k + 2)) \div Pow2[s]) % 128
TopGroup(b) == LET nz == {i \in 0..9 : Group7(b, i) # 0}
               IN IF nz = {} THEN 0 ELSE CHOOSE i \in nz : \A j \in nz : j <= i
VarintBytes(b) == IF \A i \in 2..Len(b) : b[i] = 0
                  THEN IF b[1] < 128 THEN <<b[1]>> ELSE <<b[1], 1>>
                  ELSE LET n == TopGroup(b) IN [i \in 1..(n + 1) |-> Group7(b, i - 1) + (IF i <= n THEN 128 ELSE 0)]
(* a small natural (below 2^31) as varint *)
RECURSIVE VarintNat(_)
VarintNat(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o VarintNat(n \div 128)
(* byte j (1..8) of the value whose groups of seven bits are g *)
GAt(g, i) == IF i \in DOMAIN g THEN g[i] % 128 ELSE 0
Byte8(g, j) == LET k == (8 * (j - 1)) \div 7  s == (8 * (j - 1)) % 7
               IN ((GAt(g, k + 1) + 128 * GAt(g, k + 2) + 16384 * GAt(g, k + 3)) \div Pow2[s]) % 256
GroupsToBytes(g) == IF Len(g) = 1 THEN <<g[1] % 128, 0, 0, 0, 0, 0, 0, 0>> ELSE [j \in 1..8 |-> Byte8(g, j)]

(* little-endian bytes of a TLC natural, and back (when it fits in 31 bits) *)
NatBytes(n, k) == [i \in 1..k |-> IF i > 4 THEN 0 ELSE (n \div Pow2[8 * (i - 1)]) % 256]
FitsNat(b) == (\A i \in 5..Len(b) : b[i] = 0) /\ (Len(b) < 4 \/ b[4] < 128)
ToNat(b) == ByteAt(b, 1) + 256 * ByteAt(b, 2) + 65536 * ByteAt(b, 3) + 16777216 * ByteAt(b, 4)
(* two's complement of a TLC integer *)
IntBytes(n, k) == IF n >= 0 THEN NatBytes(n, k) ELSE Not(NatBytes(-(n + 1), k))
FitsInt(b) == FitsNat(b) \/ (IsNeg(b) /\ FitsNat(Not(b)))
ToInt(b) == IF IsNeg(b) THEN -ToNat(Not(b)) - 1 ELSE ToNat(b)

(* ---- comparison of unsigned little-endian values of equal length ---- *)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == LeqFrom(a, b, Len(a))
Lt(a, b) == a # b /\ Leq(a, b)
SLeq(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE Leq(a, b)

(* ---- decimal / radix conversion ---- *)
(* b * r + d, dropping overflow beyond Len(b); carry reported *)
RECURSIVE MulAddFrom(_, _, _, _)
MulAddFrom(b, r, c, i) == IF i > Len(b) THEN [b |-> b, c |-> c]
                          ELSE LET s == b[i] * r + c IN MulAddFrom([b EXCEPT ![i] = s % 256], r, s \div 256, i + 1)
(* digits (most significant first) in radix r to k bytes; ok = no overflow *)
RECURSIVE DigitsFrom(_, _, _, _)
DigitsFrom(ds, r, acc, i) ==
    IF i > Len(ds) THEN [ok |-> TRUE, b |-> acc]
    ELSE LET m == MulAddFrom(acc, r, ds[i], 1) IN IF m.c # 0 THEN [ok |-> FALSE, b |-> acc] ELSE DigitsFrom(ds, r, m.b, i + 1)
DigitsToBytes(ds, r, k) == DigitsFrom(ds, r, Zeros[k], 1)
(* quotient and remainder by a small divisor *)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(b, d, rem, i) == IF i = 0 THEN [q |-> b, r |-> rem]
                         ELSE LET s == rem * 256 + b[i] IN DivFrom([b EXCEPT ![i] = s \div d], d, s % d, i - 1)
DivSmall(b, d) == DivFrom(b, d, 0, Len(b))
(* decimal digits as ASCII, most significant first *)
RECURSIVE DecFrom(_, _)
DecFrom(b, acc) == LET x == DivSmall(b, 10) IN
                   IF IsZero(x.q) THEN <<48 + x.r>> \o acc ELSE DecFrom(x.q, <<48 + x.r>> \o acc)
UDec(b) == DecFrom(b, <<>>)
SDec(b) == IF IsNeg(b) THEN <<45>> \o UDec(Negate(b)) ELSE UDec(b)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexOf(b) == [i \in 1..(2 * Len(b)) |-> LET x == b[Len(b) - ((i - 1) \div 2)] IN HexDigit(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
NatDec(n) == UDec(NatBytes(n, 4))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>>
              ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2 IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))
Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]
Last(s) == s[Len(s)]
SeqToSet(s) == {s[i] : i \in DOMAIN s}
PositionOf(s, Test(_)) == LET p == {i \in DOMAIN s : Test(s[i])} IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : i <= j

(* lexicographic order on byte strings *)
RECURSIVE LexLt(_, _, _)
LexLt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLt(a, b, i + 1)
BytesLt(a, b) == LexLt(a, b, 1)

(* ---- UTF-8 ---- *)
Cont(b, i, lo, hi) == i \in DOMAIN b /\ b[i] >= lo /\ b[i] <= hi
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE LET c == b[i] IN
      IF c < 128 THEN Utf8From(b, i + 1)
      ELSE IF c >= 194 /\ c <= 223 THEN Cont(b, i + 1, 128, 191) /\ Utf8From(b, i + 2)
      ELSE IF c >= 224 /\ c <= 239 THEN
           /\ Cont(b, i + 1, IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191)
           /\ Cont(b, i + 2, 128, 191) /\ Utf8From(b, i + 3)
      ELSE IF c >= 240 /\ c <= 244 THEN
           /\ Cont(b, i + 1, IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191)
           /\ Cont(b, i + 2, 128, 191) /\ Cont(b, i + 3, 128, 191) /\ Utf8From(b, i + 4)
      ELSE FALSE
ValidUtf8(b) == (\A i \in DOMAIN b : b[i] < 128) \/ Utf8From(b, 1)
Utf8Enc(c) == IF c < 128 THEN <<c>>
              ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
              ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
              ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* ---- ASCII strings ---- *)
(* TLC strings as byte sequences; the alphabet of identifiers and JSON names *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> 31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)]
AsciiBytes(s) == [i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]]
RECURSIVE BytesToStr(_, _)
BytesToStr(b, i) == IF i > Len(b) THEN "" ELSE SubSeq(Ascii, b[i] - 31, b[i] - 31) \o BytesToStr(b, i + 1)
(* a byte string as TLC string, "?" when it is not printable ASCII *)
StrOf(b) == IF \A i \in DOMAIN b : b[i] >= 32 /\ b[i] <= 126 THEN BytesToStr(b, 1) ELSE "?"
=============================================================================
