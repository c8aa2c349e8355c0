------------------------------- MODULE Chars -------------------------------
(* Bytes and the character classes of the regex syntax. A character is its  *)
(* byte value, 0..255.                                                       *)
EXTENDS Integers, Sequences

Byte      == 0..255
Lower     == 97..122
Upper     == 65..90
Digit     == 48..57
Letter    == Lower \cup Upper
WordChar  == Letter \cup Digit \cup {95}
LineBreak == {10, 13}
Space     == LineBreak \cup {32, 9, 11, 12}
HexDigit  == Digit \cup (97..102) \cup (65..70)

\* The other case of an ASCII letter; every other byte has no case.
OtherCase(c) == IF c \in Lower THEN c - 32 ELSE IF c \in Upper THEN c + 32 ELSE c

HexValue(c) == IF c \in Digit THEN c - 48 ELSE IF c \in Lower THEN c - 87 ELSE c - 55

\* Pattern metacharacters, by name.
cBSlash == 92
cLPar == 40
cRPar == 41
cLBrk == 91
cRBrk == 93
cLBrc == 123
cRBrc == 125
cBar == 124
cStar == 42
cPlus == 43
cQuest == 63
cDot == 46
cCaret == 94
cDollar == 36
cDash == 45
cComma == 44
cColon == 58
cLess == 60
cGreater == 62
cEq == 61
cExcl == 33
=============================================================================
