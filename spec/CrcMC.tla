------------------------------- MODULE CrcMC -------------------------------
(* Facts about the functions of Crc, checked for every string over Alphabet *)
(* up to MaxLen.                                                            *)
EXTENDS Crc, FiniteSets, TLC

CONSTANTS Alphabet, MaxLen

VARIABLE str
mvars == <<reg, hsh, len, str>>
MInit == Init /\ str = <<>>
MNext == Len(str) < MaxLen /\ \E b \in Alphabet : More(<<b>>) /\ str' = Append(str, b)
MSpec == MInit /\ [][MNext]_mvars

\* the table computes the polynomial division
TableRight == WXor(FeedBits(Ones, str), Ones) = Crc(<<0, 0>>, str)
\* one call or incrementally over any split
Incremental == \A n \in 0..Len(str) : Crc(Crc(<<0, 0>>, SubSeq(str, 1, n)), SubSeq(str, n + 1, Len(str))) = Crc(<<0, 0>>, str)
StreamRight == WXor(reg, Ones) = Crc(<<0, 0>>, str) /\ hsh[1] = Hash(str) /\ len = Len(str)
\* changing one byte changes the checksum: it sees every damage of up to 32 bits within a burst
OneByte == \A i \in 1..Len(str) : \A d \in {1, 128, 255, 90} :
             Crc(<<0, 0>>, [str EXCEPT ![i] = @ ^^ d]) # Crc(<<0, 0>>, str)
Burst == \A i \in 1..(Len(str) - 3) : \A d \in {1, 170} : \A e \in {0, 85, 255} :
             Crc(<<0, 0>>, [str EXCEPT ![i] = @ ^^ d, ![i + 1] = @ ^^ e, ![i + 3] = @ ^^ e]) # Crc(<<0, 0>>, str)
\* comparison
CmpRight == /\ Cmp(str, str) = 0
            /\ \A n \in 0..(Len(str) - 1) : Cmp(SubSeq(str, 1, n), str) = -1 /\ Cmp(str, SubSeq(str, 1, n)) = 1
            /\ \A i \in 1..Len(str) : LET o == [str EXCEPT ![i] = (@ + 1) % 256] IN Cmp(str, o) = -Cmp(o, str) /\ Cmp(str, o) # 0
\* known values
Known == /\ \A b \in 0..255 : Table[b + 1] = Bits(<<0, b>>, 8)
         /\ Crc(<<0, 0>>, <<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<52212, 14630>>      \* 0xCBF43926 for "123456789"
         /\ Crc(<<0, 0>>, <<>>) = <<0, 0>>
         /\ Hash(<<97, 98, 99>>) = <<34032, 37216>>
         /\ Mul(<<65535, 65535>>, <<65535, 65535>>) = <<0, 1>> /\ Mul(<<4660, 22136>>, <<65262, 56506>>) = <<42981, 62256>>
         /\ Hash(<<>>) = <<0, 0>> /\ Hash(<<7>>) = <<0, 7>>
=============================================================================
