------------------------------ MODULE Integrity ------------------------------
(***************************************************************************)
(* The MD5 attribute of a file covers every character before the command   *)
(* that sets it, except line ends.  Texts are sequences of character       *)
(* codes.  The digest is an injective function, so that comparing digests  *)
(* is comparing the texts they cover.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LF == 10
CR == 13
Covered(text, loc) == SelectSeq(SubSeq(text, 1, loc), LAMBDA c : c # LF /\ c # CR)
\* does a command at offset loc, carrying the digest of `signed`, vouch for the text before it
Valid(text, loc, signed) == Covered(text, loc) = signed
=============================================================================
