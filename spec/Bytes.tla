------------------------------- MODULE Bytes -------------------------------
(* Bytes and words.  TLC's integers are 32-bit, AgentX's are not, so a     *)
(* 16-, 32- or 64-bit number is kept as the tuple of its bytes, most       *)
(* significant byte first.  Byte order then is only the direction in which *)
(* the tuple is written, and numeric order is lexicographic order.         *)
EXTENDS Integers, Sequences, SequencesExt

Byte == 0..255

W16(n) == <<(n \div 256) % 256, n % 256>>
W32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

\* small (non-negative, fits in 31 bits) word to integer
Int32(w) == ((w[1] * 256 + w[2]) * 256 + w[3]) * 256 + w[4]
Negative(w) == w[1] >= 128

Ser2(be, w) == IF be THEN w ELSE <<w[2], w[1]>>
Ser4(be, w) == IF be THEN w ELSE <<w[4], w[3], w[2], w[1]>>
Ser8(be, w) == IF be THEN w ELSE <<w[8], w[7], w[6], w[5], w[4], w[3], w[2], w[1]>>

\* the word written at position p (1-based) of the byte string b
De2(be, b, p) == Ser2(be, <<b[p], b[p+1]>>)
De4(be, b, p) == Ser4(be, <<b[p], b[p+1], b[p+2], b[p+3]>>)
De8(be, b, p) == Ser8(be, <<b[p], b[p+1], b[p+2], b[p+3], b[p+4], b[p+5], b[p+6], b[p+7]>>)

\* numeric order on words of equal width
WLess(a, b) ==
    \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]

Zeros(n) == [i \in 1..n |-> 0]
PadSize(n) == (4 - (n % 4)) % 4

\* bits of a byte
HasBit(f, bit) == (f \div bit) % 2 = 1
Bits(f) == {bit \in {1, 2, 4, 8, 16, 32, 64, 128} : HasBit(f, bit)}

(* Decimal digits of a word of any width: repeated division by 10.         *)
DivStep(acc, byte) ==   \* acc = <<quotient bytes, remainder>>
    LET x == acc[2] * 256 + byte IN <<Append(acc[1], x \div 10), x % 10>>
Div10(w) == FoldLeft(DivStep, <<(<<>>), 0>>, w)

RECURSIVE DecDigits(_)
DecDigits(w) ==      \* digits, most significant first; <<>> for zero
    IF \A i \in 1..Len(w) : w[i] = 0 THEN <<>>
    ELSE LET qr == Div10(w) IN Append(DecDigits(qr[1]), qr[2])

Digits(w) == LET d == DecDigits(w) IN IF d = <<>> THEN <<0>> ELSE d

\* two's complement negation, for signed decimals
RECURSIVE Inc(_)
Inc(w) == IF Len(w) = 0 THEN <<>>
          ELSE IF w[Len(w)] = 255 THEN Append(Inc(SubSeq(w, 1, Len(w) - 1)), 0)
          ELSE Append(SubSeq(w, 1, Len(w) - 1), w[Len(w)] + 1)
Neg(w) == Inc([i \in 1..Len(w) |-> 255 - w[i]])
=============================================================================
