------------------------------ MODULE WordDef ------------------------------
(***************************************************************************)
(* What the operators of Word256.tla mean, in pure TLA+.                   *)
(*                                                                         *)
(* A number is a sequence of bytes, least significant first; a word has 32 *)
(* of them.  Nothing here is evaluated by Java.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC        \* TLC: for TLCEval(x), which is x

N == 32
Zeros(n) == TLCEval([k \in 1..n |-> 0])
At(x, k) == IF k \in 1..Len(x) THEN x[k] ELSE 0
Fit(x, n) == TLCEval([k \in 1..n |-> At(x, k)])
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Two == TLCEval([k \in 0..16 |-> Pow(2, k)])

\* a + b + c over n bytes, modulo 256^n
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, c, k, n) == IF k > n THEN <<>>
  ELSE LET s == At(a, k) + At(b, k) + c IN <<s % 256>> \o AddFrom(a, b, s \div 256, k + 1, n)
PlusN(a, b, n) == AddFrom(a, b, 0, 1, n)
Flip(a, n) == TLCEval([k \in 1..n |-> 255 - At(a, k)])
MinusN(a, b, n) == AddFrom(a, Flip(b, n), 1, 1, n)

\* a < b, of n bytes
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, k) == IF k = 0 THEN FALSE
  ELSE IF At(a, k) # At(b, k) THEN At(a, k) < At(b, k) ELSE LessFrom(a, b, k - 1)
Less(a, b) == LessFrom(a, b, Max2(Len(a), Len(b)))
Zero(a) == \A k \in 1..Len(a) : a[k] = 0

\* Product of n bytes: column sums, then carries.
RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, k, j) == IF j = 0 THEN 0 ELSE At(a, j) * At(b, k + 1 - j) + SumTo(a, b, k, j - 1)
RECURSIVE Carry(_, _, _)
Carry(col, c, k) == IF k > Len(col) THEN <<>>
  ELSE LET s == col[k] + c IN <<s % 256>> \o Carry(col, s \div 256, k + 1)
TimesN(a, b, n) == Carry(TLCEval([k \in 1..n |-> SumTo(a, b, k, k)]), 0, 1)

Bit(a, k) == (At(a, (k \div 8) + 1) \div Two[k % 8]) % 2      \* k = 0 is the lowest
FromBits(f, n) == LET S(k) == f[8*k-8] + 2*f[8*k-7] + 4*f[8*k-6] + 8*f[8*k-5] + 16*f[8*k-4] + 32*f[8*k-3] + 64*f[8*k-2] + 128*f[8*k-1]
                  IN TLCEval([k \in 1..n |-> S(k)])

\* Long division, one bit at a time: <<quotient bits, remainder>> of the bits k-1..0 of a.
RECURSIVE Divide(_, _, _, _, _)
Divide(a, b, k, q, r) ==
  IF k = 0 THEN <<q, r>>
  ELSE LET r1 == TLCEval(AddFrom(r, r, Bit(a, k - 1), 1, N + 1))
       IN IF Less(r1, b) THEN Divide(a, b, k - 1, q, r1)
          ELSE Divide(a, b, k - 1, TLCEval(q \cup {k - 1}), TLCEval(MinusN(r1, b, N + 1)))
DivMod(a, b) == LET d == TLCEval(Divide(TLCEval(a), TLCEval(b), 8 * Len(a), {}, Zeros(N + 1)))
                IN <<FromBits(TLCEval([k \in 0..(8 * Len(a) - 1) |-> IF k \in d[1] THEN 1 ELSE 0]), Len(a)), Fit(d[2], N)>>

Neg(a) == Bit(a, 255) = 1
Minus(a) == MinusN(Zeros(N), a, N)
Abs(a) == IF Neg(a) THEN Minus(a) ELSE a

DAdd(a, b) == PlusN(a, b, N)
DSub(a, b) == MinusN(a, b, N)
DMul(a, b) == TimesN(a, b, N)
DDiv(a, b) == IF Zero(b) THEN Zeros(N) ELSE DivMod(a, b)[1]
DMod(a, b) == IF Zero(b) THEN Zeros(N) ELSE DivMod(a, b)[2]
DSDiv(a, b) == IF Zero(b) THEN Zeros(N)
               ELSE LET q == DivMod(Abs(a), Abs(b))[1] IN IF Neg(a) # Neg(b) THEN Minus(q) ELSE q
DSMod(a, b) == IF Zero(b) THEN Zeros(N)
               ELSE LET r == DivMod(Abs(a), Abs(b))[2] IN IF Neg(a) THEN Minus(r) ELSE r
DAddMod(a, b, m) == IF Zero(m) THEN Zeros(N) ELSE DivMod(PlusN(a, b, N + 1), m)[2]
DMulMod(a, b, m) == IF Zero(m) THEN Zeros(N) ELSE DivMod(TimesN(a, b, 2 * N), m)[2]
RECURSIVE PowFrom(_, _, _, _)
PowFrom(x, e, k, acc) == IF k = 0 THEN acc
  ELSE LET s == TLCEval(DMul(acc, acc)) IN PowFrom(x, e, k - 1, TLCEval(IF Bit(e, k - 1) = 1 THEN DMul(s, x) ELSE s))
RECURSIVE Top(_, _)
Top(e, k) == IF k = 0 \/ Bit(e, k - 1) = 1 THEN k ELSE Top(e, k - 1)
One == [Zeros(N) EXCEPT ![1] = 1]
DExp(a, e) == PowFrom(TLCEval(a), TLCEval(e), Top(e, 256), One)
\* A small number, or -1 if it is not below lim (at most 2^16).
Small(a, lim) == IF \E k \in 3..N : a[k] # 0 THEN -1 ELSE IF a[1] + 256 * a[2] < lim THEN a[1] + 256 * a[2] ELSE -1
BitsOf(f) == FromBits(TLCEval(f), N)
DSignExtend(k, a) == LET s == Small(k, 31) IN IF s = -1 THEN a
  ELSE BitsOf([n \in 0..255 |-> Bit(a, IF n < 8 * s + 8 THEN n ELSE 8 * s + 7)])
DLt(a, b) == Less(a, b)
DSLt(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE Less(a, b)
DAnd(a, b) == BitsOf([n \in 0..255 |-> Bit(a, n) * Bit(b, n)])
DOr(a, b) == BitsOf([n \in 0..255 |-> Max2(Bit(a, n), Bit(b, n))])
DXor(a, b) == BitsOf([n \in 0..255 |-> (Bit(a, n) + Bit(b, n)) % 2])
DNot(a) == Flip(a, N)
DByteAt(i, a) == LET s == Small(i, 32) IN [Zeros(N) EXCEPT ![1] = IF s = -1 THEN 0 ELSE a[32 - s]]
DShl(s, a) == LET k == Small(s, 256) IN IF k = -1 THEN Zeros(N) ELSE BitsOf([n \in 0..255 |-> IF n < k THEN 0 ELSE Bit(a, n - k)])
DShr(s, a) == LET k == Small(s, 256) IN IF k = -1 THEN Zeros(N) ELSE BitsOf([n \in 0..255 |-> IF n + k > 255 THEN 0 ELSE Bit(a, n + k)])
DSar(s, a) == LET k == IF Small(s, 256) = -1 THEN 255 ELSE Small(s, 256)
              IN BitsOf([n \in 0..255 |-> IF n + k > 255 THEN Bit(a, 255) ELSE Bit(a, n + k)])
DClz(a) == LET z == 256 - Top(a, 256) IN [Zeros(N) EXCEPT ![1] = z % 256, ![2] = z \div 256]
DLow20(a) == [k \in 1..N |-> IF k <= 20 THEN a[k] ELSE 0]
DByteLen(a) == (Top(a, 256) + 7) \div 8

-----------------------------------------------------------------------------
(* Keccak-256 over the 1600 bits of its state: lane (x, y) is bits 64(x + 5y) .. +63. *)
Lane(x, y) == 64 * (x + 5 * y)
Rot == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
\* Round constants as the set of their bits.
RC == << {0}, {1, 7, 15}, {1, 3, 7, 15, 63}, {15, 31, 63}, {0, 1, 3, 7, 15}, {0, 31}, {0, 7, 15, 31, 63}, {0, 3, 15, 63},
         {1, 3, 7}, {3, 7}, {0, 3, 15, 31}, {1, 3, 31}, {0, 1, 3, 7, 15, 31}, {0, 1, 3, 7, 63}, {0, 3, 7, 15, 63},
         {0, 1, 15, 63}, {1, 15, 63}, {7, 63}, {1, 3, 15}, {1, 3, 31, 63}, {0, 7, 15, 31, 63}, {7, 15, 63}, {0, 31}, {3, 15, 31, 63} >>
XOf(i) == (i \div 64) % 5
YOf(i) == i \div 320
ZOf(i) == i % 64
Col == [i \in 0..319 |-> <<XOf(i), ZOf(i)>>]
Round(s, rc) ==
  LET c == TLCEval([i \in 0..319 |-> (s[i] + s[i + 320] + s[i + 640] + s[i + 960] + s[i + 1280]) % 2])
      d == TLCEval([i \in 0..319 |-> (c[64 * ((XOf(i) + 4) % 5) + ZOf(i)] + c[64 * ((XOf(i) + 1) % 5) + ((ZOf(i) + 63) % 64)]) % 2])
      t == TLCEval([i \in 0..1599 |-> (s[i] + d[i % 320]) % 2])
      \* rho and pi: lane (x, y) goes, rotated, to lane (y, 2x + 3y)
      p == TLCEval([i \in 0..1599 |-> LET x == (XOf(i) + 3 * YOf(i)) % 5
                                  y == XOf(i)
                              IN t[Lane(x, y) + ((ZOf(i) + 64 - Rot[1 + x + 5 * y]) % 64)]])
  IN TLCEval([i \in 0..1599 |-> (p[i] + (1 - p[Lane((XOf(i) + 1) % 5, YOf(i)) + ZOf(i)]) * p[Lane((XOf(i) + 2) % 5, YOf(i)) + ZOf(i)]
                         + (IF i < 64 /\ i \in rc THEN 1 ELSE 0)) % 2])
RECURSIVE Rounds(_, _)
Rounds(s, n) == IF n > 24 THEN s ELSE Rounds(Round(s, RC[n]), n + 1)
\* b: the message as a sequence of bytes in order; rate 136 bytes, padding 01 .. 80
Padded(b) == LET n == ((Len(b) \div 136) + 1) * 136
             IN TLCEval([k \in 1..n |-> IF k <= Len(b) THEN b[k]
                                ELSE (IF k = Len(b) + 1 THEN 1 ELSE 0) + (IF k = n THEN 128 ELSE 0)])
RECURSIVE Absorb(_, _, _)
Absorb(s, m, blk) == IF blk * 136 >= Len(m) THEN s
  ELSE Absorb(Rounds(TLCEval([i \in 0..1599 |-> IF i >= 1088 THEN s[i]
                       ELSE (s[i] + ((m[blk * 136 + (i \div 8) + 1] \div Two[i % 8]) % 2)) % 2]), 1), m, blk + 1)
DKeccak(b) == LET s == TLCEval(Absorb(TLCEval([i \in 0..1599 |-> 0]), Padded(b), 0))
              IN FromBits(s, 32)           \* bytes in order
-----------------------------------------------------------------------------
(* Byte strings as sequences in order. *)
DGet(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0
DSlice(b, o, n) == [k \in 1..n |-> DGet(b, o + k - 1)]
DPut(b, o, d) == [k \in 1..Max2(Len(b), o + Len(d)) |-> IF k > o /\ k <= o + Len(d) THEN d[k - o] ELSE IF k <= Len(b) THEN b[k] ELSE 0]
DGrow(b, n) == [k \in 1..Max2(Len(b), n) |-> IF k <= Len(b) THEN b[k] ELSE 0]
RECURSIVE Boundary(_, _, _)
Boundary(b, at, pc) == IF at >= pc THEN at = pc ELSE Boundary(b, at + 1 + (IF b[at + 1] \in 96..127 THEN b[at + 1] - 95 ELSE 0), pc)
DIsJumpDest(b, pc) == pc < Len(b) /\ b[pc + 1] = 91 /\ Boundary(b, 0, pc)
-----------------------------------------------------------------------------
(* The strings that stand for them. *)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_, _)
Hex(b, k) == IF k > Len(b) THEN "" ELSE Digit[(b[k] \div 16) + 1] \o Digit[(b[k] % 16) + 1] \o Hex(b, k + 1)
Str(b) == Hex(TLCEval(b), 1)
Rev(a) == TLCEval([k \in 1..Len(a) |-> a[Len(a) + 1 - k]])
Word(a) == Str(Rev(Fit(TLCEval(a), N)))
=============================================================================
