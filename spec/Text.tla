-------------------------------- MODULE Text --------------------------------
(* Characters of strings and numbers written as text (evaluated by java/Text.java). *)
EXTENDS Integers, Sequences

Chars(s)   == CHOOSE q \in Seq(STRING) : TRUE  \* the characters of s, each a string
Join(q)    == CHOOSE s \in STRING : TRUE       \* the strings of q put together
Dec(s)     == CHOOSE w \in STRING : TRUE       \* the word a decimal numeral denotes, "" if it has more than 256 bits
HexNum(s)  == CHOOSE w \in STRING : TRUE       \* likewise for hexadecimal digits
Hex2(n)    == CHOOSE s \in STRING : TRUE       \* a byte as two hexadecimal digits
Num(n)     == CHOOSE s \in STRING : TRUE       \* a number in decimal
=============================================================================
