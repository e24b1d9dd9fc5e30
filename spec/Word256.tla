------------------------------ MODULE Word256 ------------------------------
(***************************************************************************)
(* 256-bit words and byte strings.                                         *)
(*                                                                         *)
(* A byte string is a string of lower-case hexadecimal digits, two per     *)
(* byte; a word is a byte string of exactly 32 bytes, most significant     *)
(* byte first.  (A word therefore *is* the 32 bytes MSTORE writes.)        *)
(*                                                                         *)
(* TLC's integers have 32 bits, so TLC evaluates the operators below       *)
(* through java/Word256.java.  WordDef.tla gives them a pure TLA+ meaning  *)
(* on sequences of bytes and WordCheck.tla has TLC compare the two.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* Largest value of the integers used for gas, offsets and lengths. *)
Cap == 1073741823

(* Words and integers *)
FromInt(n)      == CHOOSE w \in STRING : TRUE   \* the word for a natural number
ToInt(w)        == CHOOSE n \in Nat : TRUE      \* the number, or Cap if larger
IsZero(w)       == CHOOSE b \in BOOLEAN : TRUE
ByteLen(w)      == CHOOSE n \in Nat : TRUE      \* bytes needed: 0 for zero

(* Unsigned and signed arithmetic modulo 2^256 *)
Add(a, b)       == CHOOSE w \in STRING : TRUE
Sub(a, b)       == CHOOSE w \in STRING : TRUE
Mul(a, b)       == CHOOSE w \in STRING : TRUE
Div(a, b)       == CHOOSE w \in STRING : TRUE   \* 0 if b = 0
SDiv(a, b)      == CHOOSE w \in STRING : TRUE   \* truncates towards zero
UMod(a, b)       == CHOOSE w \in STRING : TRUE
SMod(a, b)      == CHOOSE w \in STRING : TRUE   \* sign of the dividend
AddMod(a, b, n) == CHOOSE w \in STRING : TRUE   \* no intermediate wrap
MulMod(a, b, n) == CHOOSE w \in STRING : TRUE
Exp(a, b)       == CHOOSE w \in STRING : TRUE
SignExtend(k,a) == CHOOSE w \in STRING : TRUE
Lt(a, b)        == CHOOSE x \in BOOLEAN : TRUE
SLt(a, b)       == CHOOSE x \in BOOLEAN : TRUE
And(a, b)       == CHOOSE w \in STRING : TRUE
Or(a, b)        == CHOOSE w \in STRING : TRUE
Xor(a, b)       == CHOOSE w \in STRING : TRUE
Not(a)          == CHOOSE w \in STRING : TRUE
ByteAt(i, a)    == CHOOSE w \in STRING : TRUE   \* i = 0: most significant
Shl(s, a)       == CHOOSE w \in STRING : TRUE
Shr(s, a)       == CHOOSE w \in STRING : TRUE
Sar(s, a)       == CHOOSE w \in STRING : TRUE
Clz(a)          == CHOOSE w \in STRING : TRUE
Low20(a)        == CHOOSE w \in STRING : TRUE   \* the address in a word

(* Byte strings *)
BLen(b)         == CHOOSE n \in Nat : TRUE
BGet(b, i)      == CHOOSE n \in 0..255 : TRUE   \* 0 at and after the end
BSlice(b, o, n) == CHOOSE s \in STRING : TRUE   \* n bytes from o, zeros after the end
BPut(b, o, d)   == CHOOSE s \in STRING : TRUE   \* b with d written at o
BGrow(b, n)     == CHOOSE s \in STRING : TRUE   \* zero-extended to n bytes if shorter
Keccak(b)       == CHOOSE w \in STRING : TRUE
BitAnd(i, j)    == CHOOSE n \in Nat : TRUE
XorInt(i, j)    == CHOOSE n \in Nat : TRUE

(* min(a*b, Cap), min(lin*w + w*w \div quad, Cap) without overflow *)
MulCap(a, b)    == CHOOSE n \in Nat : TRUE
MemCost(w, lin, quad) == CHOOSE n \in Nat : TRUE

(* Positions of code that a jump may target: a 5b byte that is not PUSH data. *)
IsJumpDest(code, pc) == CHOOSE b \in BOOLEAN : TRUE
=============================================================================
