------------------------------- MODULE CodecMC -------------------------------
(* All formats up to MaxInt/MaxDec digits and all digit strings over {0,5,9}. *)
EXTENDS Codec, TLC
CONSTANTS MaxInt, MaxDec
VARIABLES fmt, digits, sgn
vars == <<fmt, digits, sgn>>
Init == /\ fmt \in [z : {"L", "T"}, int : 1..MaxInt, dec : 0..MaxDec] /\ digits = <<>> /\ sgn \in {1, -1}
Next == /\ Len(digits) < fmt.int + fmt.dec + 1
        /\ \E d \in {0, 5, 9} : digits' = Append(digits, d)
        /\ UNCHANGED <<fmt, sgn>>
Spec == Init /\ [][Next]_vars
P == <<sgn, digits>>
\* unpacking then packing keeps the value and never lengthens the text
RoundTrip == ~Bad(fmt, P) => LET v == Unpack(fmt, P)
                                 q == Pack(fmt, v)
                             IN ~Bad(fmt, q) /\ Unpack(fmt, q) = v /\ Len(q[2]) <= Len(digits)
\* packing then unpacking is the identity on representable values
Inverse == (Len(digits) = fmt.int + fmt.dec) => Unpack(fmt, Pack(fmt, Canon(P))) = Canon(P)
\* the packed text is the shortest one denoting the value
Minimal == (~Bad(fmt, P) /\ Unpack(fmt, P) = Unpack(fmt, Pack(fmt, Unpack(fmt, P)))) => Len(Pack(fmt, Unpack(fmt, P))[2]) <= Len(digits)
\* zeros on the skipped side do not matter
SkipZero == ~Bad(fmt, P) /\ Len(digits) < fmt.int + fmt.dec =>
              Unpack(fmt, P) = Unpack(fmt, <<sgn, IF fmt.z = "T" THEN digits \o <<0>> ELSE <<0>> \o digits>>)
=============================================================================
