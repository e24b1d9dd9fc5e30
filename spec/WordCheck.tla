----------------------------- MODULE WordCheck -----------------------------
(* Word256's operators, as TLC evaluates them through Java, against WordDef's definitions, on
   operands with extreme values in every position and on pseudo-random ones. *)
EXTENDS WordDef, Word256, TLC
CONSTANTS Seed, Count

VARIABLE i

\* A stream of pseudo-random numbers (Park-Miller, by Schrage's method).
Rnd(x) == LET h == x \div 127773  l == x % 127773  t == 16807 * l - 2836 * h IN IF t > 0 THEN t ELSE t + 2147483647
RECURSIVE Stream(_, _)
Stream(x, n) == IF n = 0 THEN <<>> ELSE LET y == Rnd(x) IN <<y>> \o Stream(y, n - 1)
Start(a, b) == 1 + ((Seed * 7919 + a * 104729 + b * 1299709) % 1000000007)

\* Operands by shape: all one byte, a power of two or its neighbours, sparse, small, random.
Operand(n, k) ==
  LET s == TLCEval(Stream(Start(n, k), 40))
      shape == (s[40] \div 64) % 8
      bit == (s[39] \div 8) % 256
      p2 == [Zeros(N) EXCEPT ![(bit \div 8) + 1] = Two[bit % 8]]
      rand == TLCEval([j \in 1..N |-> (s[j] \div 128) % 256])
      len == (s[38] \div 8) % 33
  IN CASE shape = 0 -> [j \in 1..N |-> ((s[1] \div 16) % 2) * 255]
       [] shape = 1 -> p2
       [] shape = 2 -> MinusN(p2, One, N)
       [] shape = 3 -> Minus(p2)
       [] shape = 4 -> [j \in 1..N |-> IF j = 1 THEN rand[1] ELSE IF j = 2 THEN rand[2] % 2 ELSE 0]
       [] shape = 5 -> [j \in 1..N |-> IF j <= len THEN rand[j] ELSE 0]
       [] shape = 6 -> [j \in 1..N |-> IF j <= len THEN rand[j] ELSE 255]
       [] OTHER -> rand
Bytes(n, k) == LET s == TLCEval(Stream(Start(n, k), 3))
                   len == (s[1] \div 8) % 300
                   r == TLCEval(Stream(s[3], len))
               IN [j \in 1..len |-> IF s[2] % 2 = 0 THEN (r[j] \div 128) % 256 ELSE 90 + ((r[j] \div 128) % 10)]

Ops == <<"int", "add", "mul", "div", "sdiv", "modular", "exp", "bits", "shift", "compare", "bytes", "keccak", "jumpdest", "gas">>
Agree(op, n) ==
  LET a == TLCEval(Operand(n, 1))  b == TLCEval(Operand(n, 2))  m == TLCEval(Operand(n, 3))
      x == Word(a)  y == Word(b)  z == Word(m)
      \* operands that are close to each other in size
      small == TLCEval([j \in 1..N |-> IF j = 1 THEN b[1] ELSE IF j = 2 THEN b[2] % 2 ELSE 0])
      sw == Word(small)
      bs == TLCEval(Bytes(n, 4))  str == Str(bs)
      o == b[1]  l == b[2]
      ds == TLCEval(Bytes(n, 5))
  IN CASE op = "int" -> /\ FromInt(a[1] + 256 * a[2] + 65536 * a[3]) = Word(<<a[1], a[2], a[3]>>)
                        /\ ToInt(Word(<<a[1], a[2], a[3]>>)) = a[1] + 256 * a[2] + 65536 * a[3]
                        /\ ToInt(x) = IF (\E j \in 5..N : a[j] # 0) \/ a[4] >= 64 THEN Cap ELSE a[1] + 256 * a[2] + 65536 * a[3] + 16777216 * a[4]
                        /\ IsZero(x) = Zero(a) /\ ByteLen(x) = DByteLen(a)
       [] op = "add" -> Add(x, y) = Word(DAdd(a, b)) /\ Sub(x, y) = Word(DSub(a, b)) /\ Sub(y, x) = Word(DSub(b, a))
       [] op = "mul" -> Mul(x, y) = Word(DMul(a, b))
       [] op = "div" -> Div(x, y) = Word(DDiv(a, b)) /\ UMod(x, y) = Word(DMod(a, b)) /\ Div(x, sw) = Word(DDiv(a, small))
       [] op = "sdiv" -> SDiv(x, y) = Word(DSDiv(a, b)) /\ SMod(x, y) = Word(DSMod(a, b)) /\ SDiv(y, x) = Word(DSDiv(b, a)) /\ SMod(x, sw) = Word(DSMod(a, small))
       [] op = "modular" -> AddMod(x, y, z) = Word(DAddMod(a, b, m)) /\ MulMod(x, y, z) = Word(DMulMod(a, b, m))
       [] op = "exp" -> Exp(x, sw) = Word(DExp(a, small)) /\ (n % 8 = 0 => Exp(x, y) = Word(DExp(a, b)))
       [] op = "bits" -> /\ And(x, y) = Word(DAnd(a, b)) /\ Or(x, y) = Word(DOr(a, b)) /\ Xor(x, y) = Word(DXor(a, b)) /\ Not(x) = Word(DNot(a))
                         /\ Clz(x) = Word(DClz(a)) /\ Low20(x) = Word(DLow20(a))
                         /\ SignExtend(y, x) = Word(DSignExtend(b, a)) /\ ByteAt(y, x) = Word(DByteAt(b, a))
                         /\ \A k \in {0, 1, 15, 30, 31, 32, 33, 255} : LET kw == [Zeros(N) EXCEPT ![1] = k]
                              IN SignExtend(Word(kw), x) = Word(DSignExtend(kw, a)) /\ ByteAt(Word(kw), x) = Word(DByteAt(kw, a))
       [] op = "shift" -> /\ Shl(sw, x) = Word(DShl(small, a)) /\ Shr(sw, x) = Word(DShr(small, a)) /\ Sar(sw, x) = Word(DSar(small, a))
                          /\ Shl(y, x) = Word(DShl(b, a)) /\ Shr(y, x) = Word(DShr(b, a)) /\ Sar(y, x) = Word(DSar(b, a))
       [] op = "compare" -> /\ Lt(x, y) = DLt(a, b) /\ Lt(y, x) = DLt(b, a) /\ ~Lt(x, x)
                            /\ SLt(x, y) = DSLt(a, b) /\ SLt(y, x) = DSLt(b, a) /\ ~SLt(x, x)
       [] op = "bytes" -> /\ BLen(str) = Len(bs) /\ BGet(str, o) = DGet(bs, o) /\ BSlice(str, o, l) = Str(DSlice(bs, o, l))
                          /\ (o <= Len(bs) => BPut(BGrow(str, o + Len(ds)), o, Str(ds)) = Str(DPut(DGrow(bs, o + Len(ds)), o, ds)))
                          /\ BGrow(str, l) = Str(DGrow(bs, l))
       [] op = "keccak" -> Keccak(str) = Str(DKeccak(bs))
       [] op = "jumpdest" -> \A pc \in 0..(Len(bs) + 1) : IsJumpDest(str, pc) = DIsJumpDest(bs, pc)
       [] op = "gas" -> /\ MulCap(a[1] * 16, b[1] * 8) = a[1] * 16 * b[1] * 8
                        /\ MulCap(65536, 32768 + a[1]) = Cap
                        /\ MemCost(a[1] * 100 + 7, 3, 512) = LET w == a[1] * 100 + 7 IN 3 * w + (w * w) \div 512
                        /\ BitAnd(a[1], b[1]) = DAnd(<<a[1]>> \o Zeros(31), <<b[1]>> \o Zeros(31))[1]
                        /\ XorInt(a[1], b[1]) = DXor(<<a[1]>> \o Zeros(31), <<b[1]>> \o Zeros(31))[1]
\* Chains of cases, one per operator and residue, so that TLC's workers share the work.  (Keccak's definition is
\* heavy: fewer of those.)
Chains == 6
Init == i \in (1..Len(Ops)) \X (1..Chains)
Next == i[2] + Chains <= (IF Ops[i[1]] \in {"keccak", "modular"} THEN Count \div 4 ELSE Count) /\ i' = <<i[1], i[2] + Chains>>
Report == i[2] <= Chains \/ Agree(Ops[i[1]], i[2]) \/ PrintT(<<"DIFFERS", Ops[i[1]], i[2]>>)
=============================================================================
