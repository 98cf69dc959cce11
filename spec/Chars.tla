------------------------------- MODULE Chars -------------------------------
(* Bytes, character classes and literals.  Input text is a sequence of byte  *)
(* codes (0..255); literals in the specification are written as strings and  *)
(* converted once with Codes.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf ==
  [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
     31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]
  @@ ("\n" :> 10) @@ ("\t" :> 9) @@ ("\r" :> 13) @@ ("\f" :> 12)

Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

CharOf == [i \in 32..126 |-> SubSeq(Printable, i - 31, i - 31)]

(* A class is a total function from byte code to BOOLEAN. *)
Class(s) == LET S == {Codes(s)[i] : i \in 1..Len(s)}
            IN [i \in 1..256 |-> (i - 1) \in S]
In(cls, c) == cls[c + 1]

NL == 10
CR == 13
TAB == 9
SP == 32

SymPartClass ==
  Class("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$")
SymStartClass ==
  Class("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
=============================================================================
