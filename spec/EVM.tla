-------------------------------- MODULE EVM --------------------------------
(***************************************************************************)
(* One frame of the Ethereum virtual machine: what any execution of a      *)
(* contract, interpreted or compiled, must do.                             *)
(*                                                                         *)
(* A case `c` is everything fixed for the frame: code, call data, fork,    *)
(* gas parameters, environment, the world it starts from, and the script   *)
(* of outcomes of the calls and creates it makes.  A machine `m` is the    *)
(* frame's state.  Step(c, m) executes one instruction; it ends the frame  *)
(* (stop, return, revert, selfdestruct, halt) or suspends it (call,        *)
(* create), in which case Resume(c, m, o) continues it with outcome o.     *)
(*                                                                         *)
(* An exceptional halt discards everything, so all halts are one status.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Word256, GasSchedule

STACK_LIMIT == 1024

Zero == FromInt(0)
One  == FromInt(1)
Bool(b) == IF b THEN One ELSE Zero
EmptyHash == Keccak("")

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Words(n) == (n + 31) \div 32

(* -------------------------------------------------------------------- *)
(* The machine                                                            *)

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Pairs(s, key, val) ==   \* a sequence of records as a function
  [k \in {s[i][key] : i \in DOMAIN s} |-> LET i == CHOOSE i \in DOMAIN s : s[i][key] = k IN s[i][val]]

NoAccount == [bal |-> Zero, nonce |-> 0, code |-> "", exists |-> FALSE]

World0(c) ==
  [ accts |-> [a \in {c.accts[i].a : i \in DOMAIN c.accts} |->
                 LET x == c.accts[CHOOSE i \in DOMAIN c.accts : c.accts[i].a = a]
                 IN [bal |-> x.bal, nonce |-> x.nonce, code |-> x.code, exists |-> x.exists]],
    warm  |-> {c.accts[i].a : i \in {j \in DOMAIN c.accts : c.accts[j].warm}},
    orig  |-> Pairs(c.storage, "k", "orig"),
    cur   |-> Pairs(c.storage, "k", "cur"),
    warms |-> {c.storage[i].k : i \in {j \in DOMAIN c.storage : c.storage[j].warm}},
    tsto  |-> Pairs(c.tstorage, 1, 2),
    logs  |-> <<>>,
    dead  |-> IF c.dead THEN {c.self} ELSE {} ]

NoReq == [scheme |-> "", target |-> "", caller |-> "", code_addr |-> "", value |-> "",
          transfer |-> FALSE, gas |-> 0, input |-> "", out_off |-> 0, out_len |-> 0,
          static |-> FALSE, rsv |-> 0, charged |-> FALSE, code |-> "", salt |-> "", khash |-> ""]

Machine0(c) ==
  [ status |-> "run", pc |-> 0, st |-> <<>>, mem |-> "", gas |-> c.gas, rsv |-> c.rsv, ssp |-> 0,
    refund |-> 0, rd |-> "", out |-> "", req |-> NoReq, w |-> World0(c) ]

GP(c) == IF c.custom_gp THEN c.gp ELSE Params[c.fork]

Halt(m) == [m EXCEPT !.status = "halt"]
Running(m) == m.status = "run"

(* The next part of an instruction happens only if the machine still runs. *)
Then(m, F(_)) == IF Running(m) THEN F(m) ELSE m

Pay(m, g) == IF ~Running(m) THEN m ELSE IF g > m.gas THEN Halt(m) ELSE [m EXCEPT !.gas = @ - g]

(* State gas comes out of the reservoir first, then out of the gas left. *)
PayState(m, g) ==
  IF ~Running(m) \/ g = 0 THEN m
  ELSE IF g <= m.rsv THEN [m EXCEPT !.rsv = @ - g, !.ssp = @ + g]
  ELSE IF g - m.rsv > m.gas THEN Halt(m)
  ELSE [m EXCEPT !.rsv = 0, !.gas = @ - (g - m.rsv), !.ssp = @ + g]

(* i-th word from the top, 0 being the top *)
S(m, i) == m.st[Len(m.st) - i]

(* Finish an instruction that pops n words and pushes the given ones. *)
Done(m, n, push) ==
  IF Running(m) THEN [m EXCEPT !.st = SubSeq(@, 1, Len(@) - n) \o push, !.pc = @ + 1] ELSE m
Push1(m, n, v) == Done(m, n, <<v>>)

(* Memory covers [off, off + len); the frame pays for the new words. *)
MSize(m) == BLen(m.mem)
Expand(c, m, off, len) ==
  IF ~Running(m) \/ len = 0 THEN m
  ELSE IF off >= 16777216 \/ len >= 16777216 THEN Halt(m)
  ELSE LET need == Words(off + len)
           have == MSize(m) \div 32
           p    == GP(c)
       IN IF need <= have THEN m
          ELSE LET paid == Pay(m, MemCost(need, p.mem_lin, p.mem_quad) - MemCost(have, p.mem_lin, p.mem_quad))
               IN IF Running(paid) THEN [paid EXCEPT !.mem = BGrow(@, need * 32)] ELSE paid

Store(m, off, bytes) == IF Running(m) THEN [m EXCEPT !.mem = BPut(@, off, bytes)] ELSE m

(* -------------------------------------------------------------------- *)
(* The world                                                              *)

Acct(m, a) == Get(m.w.accts, a, NoAccount)
Empty(c, m, a) ==
  LET x == Acct(m, a)
  IN IF c.fork >= SPURIOUS THEN x.bal = Zero /\ x.nonce = 0 /\ x.code = "" ELSE ~x.exists
(* EXTCODEHASH always uses the EIP-161 notion of emptiness. *)
Hollow(m, a) == LET x == Acct(m, a) IN x.bal = Zero /\ x.nonce = 0 /\ x.code = ""
CodeHash(m, a) == Keccak(Acct(m, a).code)

(* Touching an account: pays the cold surcharge and makes it warm. *)
Touch(m, a, surcharge) ==
  IF ~Running(m) \/ a \in m.w.warm THEN m
  ELSE LET paid == Pay(m, surcharge)
       IN IF Running(paid) THEN [paid EXCEPT !.w.warm = @ \cup {a}] ELSE paid

Delegation(code) == IF BLen(code) = 23 /\ BSlice(code, 0, 3) = "ef0100"
                    THEN "000000000000000000000000" \o BSlice(code, 3, 20) ELSE ""

(* -------------------------------------------------------------------- *)
(* Instructions, in opcode order.  Static gas and stack limits have been  *)
(* dealt with; m.gas is what is left.                                     *)

Arith(op, m) ==
  LET a == S(m, 0) b == S(m, 1) IN
  CASE op = 1  -> Push1(m, 2, Add(a, b))
    [] op = 2  -> Push1(m, 2, Mul(a, b))
    [] op = 3  -> Push1(m, 2, Sub(a, b))
    [] op = 4  -> Push1(m, 2, Div(a, b))
    [] op = 5  -> Push1(m, 2, SDiv(a, b))
    [] op = 6  -> Push1(m, 2, UMod(a, b))
    [] op = 7  -> Push1(m, 2, SMod(a, b))
    [] op = 8  -> Push1(m, 3, AddMod(a, b, S(m, 2)))
    [] op = 9  -> Push1(m, 3, MulMod(a, b, S(m, 2)))
    [] op = 11 -> Push1(m, 2, SignExtend(a, b))

Logic(op, m) ==
  LET a == S(m, 0) b == S(m, 1) IN
  CASE op = 16 -> Push1(m, 2, Bool(Lt(a, b)))
    [] op = 17 -> Push1(m, 2, Bool(Lt(b, a)))
    [] op = 18 -> Push1(m, 2, Bool(SLt(a, b)))
    [] op = 19 -> Push1(m, 2, Bool(SLt(b, a)))
    [] op = 20 -> Push1(m, 2, Bool(a = b))
    [] op = 21 -> Push1(m, 1, Bool(IsZero(a)))
    [] op = 22 -> Push1(m, 2, And(a, b))
    [] op = 23 -> Push1(m, 2, Or(a, b))
    [] op = 24 -> Push1(m, 2, Xor(a, b))
    [] op = 25 -> Push1(m, 1, Not(a))
    [] op = 26 -> Push1(m, 2, ByteAt(a, b))
    [] op = 27 -> Push1(m, 2, Shl(a, b))
    [] op = 28 -> Push1(m, 2, Shr(a, b))
    [] op = 29 -> Push1(m, 2, Sar(a, b))
    [] op = 30 -> Push1(m, 1, Clz(a))

ExpOp(c, m) == Push1(Pay(m, MulCap(GP(c).exp_byte, ByteLen(S(m, 1)))), 2, Exp(S(m, 0), S(m, 1)))

KeccakOp(c, m) ==
  LET off == ToInt(S(m, 0)) len == ToInt(S(m, 1))
      x == Expand(c, Pay(m, MulCap(GP(c).keccak, Words(len))), off, len)
  IN IF Running(x) THEN Push1(x, 2, Keccak(BSlice(x.mem, IF len = 0 THEN 0 ELSE off, len))) ELSE x

(* The *COPY instructions: n bytes of src from position `from` to memory. *)
Copy(c, m, price, dst, src, from, len, pops) ==
  LET x == Expand(c, Pay(m, MulCap(price, Words(len))), dst, len)
  IN Done(IF len = 0 THEN x ELSE Store(x, dst, BSlice(src, Min(from, BLen(src)), len)), pops, <<>>)

Env1(c, m, op) ==
  CASE op = 48 -> Push1(m, 0, c.self)
    [] op = 50 -> Push1(m, 0, c.env.origin)
    [] op = 51 -> Push1(m, 0, c.caller)
    [] op = 52 -> Push1(m, 0, c.value)
    [] op = 53 -> Push1(m, 1, BSlice(c.input, Min(ToInt(S(m, 0)), BLen(c.input)), 32))
    [] op = 54 -> Push1(m, 0, FromInt(BLen(c.input)))
    [] op = 55 -> Copy(c, m, GP(c).copy, ToInt(S(m, 0)), c.input, ToInt(S(m, 1)), ToInt(S(m, 2)), 3)
    [] op = 56 -> Push1(m, 0, FromInt(BLen(c.code)))
    [] op = 57 -> Copy(c, m, GP(c).copy, ToInt(S(m, 0)), c.code, ToInt(S(m, 1)), ToInt(S(m, 2)), 3)
    [] op = 58 -> Push1(m, 0, c.env.gasprice)
    [] op = 61 -> Push1(m, 0, FromInt(BLen(m.rd)))
    [] op = 62 -> LET from == ToInt(S(m, 1)) len == ToInt(S(m, 2))
                  IN IF from + len > BLen(m.rd) THEN Halt(m)   \* never reads past the end
                     ELSE Copy(c, m, GP(c).copy, ToInt(S(m, 0)), m.rd, from, len, 3)

(* Instructions about another account *)
ExtOp(c, m, op) ==
  LET a == Low20(S(m, 0))
      t == Touch(m, a, GP(c).cold_acct)
  IN CASE op = 49 -> Push1(t, 1, Acct(m, a).bal)
       [] op = 59 -> Push1(t, 1, FromInt(BLen(Acct(m, a).code)))
       [] op = 63 -> Push1(t, 1, IF Hollow(m, a) THEN Zero ELSE CodeHash(m, a))
       [] op = 60 -> LET dst == ToInt(S(m, 1)) from == ToInt(S(m, 2)) len == ToInt(S(m, 3))
                         x == Expand(c, Pay(m, MulCap(GP(c).extcopy, Words(len))), dst, len)
                         y == Touch(x, a, GP(c).cold_acct)
                         src == Acct(m, a).code
                     IN Done(IF len = 0 THEN y ELSE Store(y, dst, BSlice(src, Min(from, BLen(src)), len)), 4, <<>>)

Block1(c, m, op) ==
  CASE op = 64 -> LET n == S(m, 0) cur == c.env.number
                      back == ToInt(Sub(cur, n))
                  IN Push1(m, 1, IF Lt(cur, n) \/ n = cur \/ back > 256 THEN Zero
                                 ELSE Keccak(BSlice(n, 24, 8)))
    [] op = 65 -> Push1(m, 0, c.env.coinbase)
    [] op = 66 -> Push1(m, 0, c.env.timestamp)
    [] op = 67 -> Push1(m, 0, c.env.number)
    [] op = 68 -> Push1(m, 0, IF c.fork >= MERGE THEN c.env.prevrandao ELSE c.env.difficulty)
    [] op = 69 -> Push1(m, 0, c.env.gaslimit)
    [] op = 70 -> Push1(m, 0, c.env.chainid)
    [] op = 71 -> Push1(Touch(m, c.self, 0), 0, Acct(m, c.self).bal)
    [] op = 72 -> Push1(m, 0, c.env.basefee)
    [] op = 73 -> LET i == ToInt(S(m, 0))
                  IN Push1(m, 1, IF i < Len(c.env.blobhashes) THEN c.env.blobhashes[i + 1] ELSE Zero)
    [] op = 74 -> Push1(m, 0, c.env.blobbasefee)
    [] op = 75 -> Push1(m, 0, c.env.slotnum)

SLoad(c, m) ==
  LET k == S(m, 0)
      x == IF k \in m.w.warms THEN m ELSE Pay(m, IF c.fork >= BERLIN THEN GP(c).cold_slot_add ELSE 0)
      y == IF Running(x) THEN [x EXCEPT !.w.warms = @ \cup {k}] ELSE x
  IN Push1(y, 1, Get(m.w.cur, k, Zero))

(* EIP-2200/2929/3529 net metering, the older rules, and EIP-8037. *)
SStore(c, m) ==
  LET p == GP(c)
      k == S(m, 0) new == S(m, 1)
      orig == Get(m.w.orig, k, Zero) cur == Get(m.w.cur, k, Zero)
      cold == k \notin m.w.warms
      net == c.fork >= ISTANBUL
      dyn == IF ~net THEN (IF cur = Zero /\ new # Zero THEN p.sstore_set ELSE p.sstore_reset)
             ELSE (IF cold THEN p.cold_slot ELSE 0)
                  + (IF new # cur /\ orig = cur THEN (IF orig = Zero THEN p.sstore_set ELSE p.sstore_reset) ELSE 0)
      back == IF ~net THEN (IF cur # Zero /\ new = Zero THEN p.sstore_clear_refund ELSE 0)
              ELSE IF new = cur THEN 0
              ELSE IF orig = cur /\ new = Zero THEN p.sstore_clear_refund
              ELSE (IF orig = Zero THEN 0 ELSE IF cur = Zero THEN -p.sstore_clear_refund
                    ELSE IF new = Zero THEN p.sstore_clear_refund ELSE 0)
                   + (IF orig # new THEN 0 ELSE IF orig = Zero THEN p.sstore_set_refund ELSE p.sstore_reset_refund)
      state == IF new # cur /\ orig = cur /\ orig = Zero THEN p.sstore_state ELSE 0
      refill == IF new # cur /\ orig = new /\ orig = Zero THEN p.sstore_state ELSE 0
  IN IF c.static \/ (net /\ m.gas <= p.stipend) THEN Halt(m)
     ELSE LET x == Pay(m, p.sstore_static)
              y == IF Running(x) /\ c.fork >= BERLIN /\ cold /\ x.gas < p.cold_slot_add THEN Halt(x) ELSE Pay(x, dyn)
              z == IF c.eip8037 THEN PayState(y, state) ELSE y
          IN IF ~Running(z) THEN z
             ELSE Done([z EXCEPT !.w.cur = Put(@, k, new), !.w.warms = @ \cup {k}, !.refund = @ + back,
                                 !.rsv = @ + (IF c.eip8037 THEN refill ELSE 0),
                                 !.ssp = @ - (IF c.eip8037 THEN refill ELSE 0)], 2, <<>>)

MCopy(c, m) ==
  LET dst == ToInt(S(m, 0)) src == ToInt(S(m, 1)) len == ToInt(S(m, 2))
      x == Expand(c, Pay(m, MulCap(GP(c).mcopy, Words(len))), Max(dst, src), len)
  IN Done(IF len = 0 \/ ~Running(x) THEN x ELSE Store(x, dst, BSlice(x.mem, src, len)), 3, <<>>)

JumpTo(c, m, dest, pops) ==
  LET d == ToInt(dest)
  IN IF IsJumpDest(c.code, d) THEN [m EXCEPT !.st = SubSeq(@, 1, Len(@) - pops), !.pc = d] ELSE Halt(m)

Mem1(c, m, op) ==
  CASE op = 80 -> Done(m, 1, <<>>)
    [] op = 81 -> LET o == ToInt(S(m, 0)) x == Expand(c, m, o, 32)
                  IN IF Running(x) THEN Push1(x, 1, BSlice(x.mem, o, 32)) ELSE x
    [] op = 82 -> LET o == ToInt(S(m, 0)) IN Done(Store(Expand(c, m, o, 32), o, S(m, 1)), 2, <<>>)
    [] op = 83 -> LET o == ToInt(S(m, 0)) IN Done(Store(Expand(c, m, o, 1), o, BSlice(S(m, 1), 31, 1)), 2, <<>>)
    [] op = 84 -> SLoad(c, m)
    [] op = 85 -> SStore(c, m)
    [] op = 86 -> JumpTo(c, m, S(m, 0), 1)
    [] op = 87 -> IF IsZero(S(m, 1)) THEN Done(m, 2, <<>>) ELSE JumpTo(c, m, S(m, 0), 2)
    [] op = 88 -> Push1(m, 0, FromInt(m.pc))
    [] op = 89 -> Push1(m, 0, FromInt(MSize(m)))
    [] op = 90 -> Push1(m, 0, FromInt(m.gas))
    [] op = 91 -> Done(m, 0, <<>>)
    [] op = 92 -> Push1(m, 1, Get(m.w.tsto, S(m, 0), Zero))
    [] op = 93 -> IF c.static THEN Halt(m) ELSE Done([m EXCEPT !.w.tsto = Put(@, S(m, 0), S(m, 1))], 2, <<>>)
    [] op = 94 -> MCopy(c, m)

PushOp(c, m, n) ==
  LET data == BSlice(c.code, m.pc + 1, n)
      x == Push1(m, 0, BSlice("0000000000000000000000000000000000000000000000000000000000000000", 0, 32 - n) \o data)
  IN [x EXCEPT !.pc = @ + n]

DupOp(m, n)  == Push1(m, 0, S(m, n - 1))
SwapOp(m, i, j) ==   \* exchange the words at depths i and j
  LET l == Len(m.st) IN [m EXCEPT !.st = [@ EXCEPT ![l - i] = S(m, j), ![l - j] = S(m, i)], !.pc = @ + 1]

(* EIP-8024 immediates *)
Single(x) == IF x <= 90 \/ x >= 128 THEN (x + 145) % 256 ELSE 0
Pair(x) == IF x > 81 /\ x < 128 THEN <<0, 0>>
           ELSE LET k == XorInt(x, 143) q == k \div 16 r == k % 16
                IN IF q < r THEN <<q + 1, r + 1>> ELSE <<r + 1, 29 - q>>
DeepOp(c, m, op) ==
  LET x == BGet(c.code, m.pc + 1)
      n == Single(x) ab == Pair(x) l == Len(m.st)
      skip(y) == [y EXCEPT !.pc = @ + 1]
  IN CASE op = 230 -> IF n = 0 \/ l < n \/ l >= STACK_LIMIT THEN Halt(m) ELSE skip(DupOp(m, n))
       [] op = 231 -> IF n = 0 \/ l < n + 1 THEN Halt(m) ELSE skip(SwapOp(m, 0, n))
       [] op = 232 -> IF ab[1] = 0 \/ l < ab[2] + 1 THEN Halt(m) ELSE skip(SwapOp(m, ab[1], ab[2]))

LogOp(c, m, n) ==
  LET off == ToInt(S(m, 0)) len == ToInt(S(m, 1)) p == GP(c)
      x == Expand(c, Pay(Pay(m, MulCap(p.logdata, len)), p.logtopic * n), off, len)
  IN IF c.static THEN Halt(m)
     ELSE IF ~Running(x) THEN x
     ELSE Done([x EXCEPT !.w.logs = Append(@, [a |-> c.self, topics |-> [i \in 1..n |-> S(m, 1 + i)],
                                               data |-> BSlice(x.mem, IF len = 0 THEN 0 ELSE off, len)])], n + 2, <<>>)

Reduced(c, g) == IF c.fork >= TANGERINE THEN g - g \div GP(c).call_red ELSE g

Create(c, m, two) ==
  LET p == GP(c)
      off == ToInt(S(m, 1)) len == ToInt(S(m, 2))
      x == IF len = 0 THEN m
           ELSE IF c.fork >= SHANGHAI /\ len > c.env.maxinit THEN Halt(m)
           ELSE Expand(c, IF c.fork >= SHANGHAI THEN Pay(m, MulCap(p.initcode, Words(len))) ELSE m, off, len)
      y == Pay(Pay(x, p.create), IF two THEN MulCap(p.keccak, Words(len)) ELSE 0)
      z == IF c.eip8037 THEN PayState(y, p.create_state) ELSE y
      g == Reduced(c, z.gas)
      f == Pay(z, g)
  IN IF c.static THEN Halt(m)
     ELSE IF ~Running(f) THEN f
     ELSE [Done(f, IF two THEN 4 ELSE 3, <<>>) EXCEPT !.status = "create",
            !.req = [NoReq EXCEPT !.scheme = IF two THEN "create2" ELSE "create", !.caller = c.self,
                       !.value = S(m, 0), !.gas = g, !.rsv = f.rsv,
                       !.code = BSlice(f.mem, IF len = 0 THEN 0 ELSE off, len),
                       !.salt = IF two THEN S(m, 3) ELSE ""]]

CallOp(c, m, op) ==
  LET p      == GP(c)
      hasval == op \in {241, 242}
      k      == IF hasval THEN 3 ELSE 2
      asked  == ToInt(S(m, 0))
      to     == Low20(S(m, 1))
      value  == IF hasval THEN S(m, 2) ELSE Zero
      moves  == value # Zero
      ioff == ToInt(S(m, k)) ilen == ToInt(S(m, k + 1)) ooff == ToInt(S(m, k + 2)) olen == ToInt(S(m, k + 3))
      x == Pay(Expand(c, Expand(c, m, ioff, ilen), ooff, olen), IF moves THEN p.transfer ELSE 0)
      \* the callee, and the account its code is delegated to
      y == Touch(x, to, IF c.fork >= BERLIN THEN p.cold_acct ELSE 0)
      fresh == op = 241 /\ Empty(c, m, to)
      deleg == IF fresh THEN "" ELSE Delegation(Acct(m, to).code)
      newcost == IF fresh /\ (c.fork < SPURIOUS \/ moves) THEN p.new_acct ELSE 0
      newstate == IF fresh /\ moves /\ c.eip8037 THEN p.new_acct_state ELSE 0
      z == IF deleg = "" THEN Pay(y, newcost) ELSE Touch(Pay(y, p.warm_read), deleg, p.cold_acct)
      s == PayState(z, newstate)
      g == IF c.fork >= TANGERINE THEN Min(Reduced(c, s.gas), asked) ELSE asked
      f == Pay(s, g)
  IN IF op = 241 /\ c.static /\ moves THEN Halt(m)
     ELSE IF ~Running(f) THEN f
     ELSE [Done(f, k + 4, <<>>) EXCEPT !.status = "call",
            !.req = [NoReq EXCEPT
              !.scheme = CASE op = 241 -> "call" [] op = 242 -> "callcode"
                           [] op = 244 -> "delegatecall" [] op = 250 -> "staticcall",
              !.target = IF op \in {242, 244} THEN c.self ELSE to,
              !.caller = IF op = 244 THEN c.caller ELSE c.self,
              !.code_addr = to,
              !.value = IF op = 244 THEN c.value ELSE value,
              !.transfer = op # 244,
              !.gas = g + (IF moves THEN p.stipend ELSE 0),
              !.input = IF ilen = 0 THEN "" ELSE BSlice(f.mem, ioff, ilen),
              !.out_off = IF olen = 0 THEN 0 ELSE ooff,
              !.out_len = olen,
              !.static = c.static \/ op = 250,
              !.rsv = f.rsv,
              !.charged = newstate > 0,
              !.khash = CodeHash(m, IF deleg = "" THEN to ELSE deleg)]]

Finish(c, m, kind) ==
  LET off == ToInt(S(m, 0)) len == ToInt(S(m, 1)) x == Expand(c, m, off, len)
  IN IF Running(x) THEN [Done(x, 2, <<>>) EXCEPT !.status = kind, !.out = IF len = 0 THEN "" ELSE BSlice(x.mem, off, len)]
     ELSE x

SelfDestruct(c, m) ==
  LET p == GP(c)
      to == Low20(S(m, 0))
      me == Acct(m, c.self)
      cold == to \notin m.w.warm
      exists == ~Empty(c, m, to)
      topup == IF c.fork >= SPURIOUS THEN me.bal # Zero /\ ~exists ELSE ~exists
      coldcost == p.cold_acct + p.warm_read
      x == Pay(m, (IF topup THEN p.new_acct_sd ELSE 0) + (IF cold THEN coldcost ELSE 0))
      y == IF c.eip8037 /\ topup THEN PayState(x, p.new_acct_state) ELSE x
      t == Acct(m, to)
      accts1 == IF to = c.self THEN m.w.accts
                ELSE Put(m.w.accts, to, [t EXCEPT !.bal = Add(@, me.bal), !.exists = TRUE])
      accts2 == IF to # c.self \/ c.fork < CANCUN THEN Put(accts1, c.self, [me EXCEPT !.bal = Zero]) ELSE accts1
  IN IF c.static \/ (cold /\ m.gas < coldcost) THEN Halt(m)
     ELSE IF ~Running(y) THEN y
     ELSE [Done(y, 1, <<>>) EXCEPT !.status = "selfdestruct",
             !.w = [@ EXCEPT !.accts = accts2, !.warm = @ \cup {to}, !.dead = @ \cup {c.self}],
             !.refund = @ + (IF c.self \in m.w.dead THEN 0 ELSE p.sd_refund)]

(* -------------------------------------------------------------------- *)

Exec(c, m, op) ==
  IF op < 32 THEN
    IF op = 0 THEN [m EXCEPT !.status = "stop"]
    ELSE IF op = 10 THEN ExpOp(c, m)
    ELSE IF op < 16 THEN Arith(op, m) ELSE Logic(op, m)
  ELSE IF op < 64 THEN
    IF op = 32 THEN KeccakOp(c, m)
    ELSE IF op \in {49, 59, 60, 63} THEN ExtOp(c, m, op) ELSE Env1(c, m, op)
  ELSE IF op < 80 THEN Block1(c, m, op)
  ELSE IF op < 95 THEN Mem1(c, m, op)
  ELSE IF op < 128 THEN PushOp(c, m, op - 95)
  ELSE IF op < 144 THEN DupOp(m, op - 127)
  ELSE IF op < 160 THEN SwapOp(m, 0, op - 143)
  ELSE IF op < 165 THEN LogOp(c, m, op - 160)
  ELSE IF op < 233 THEN DeepOp(c, m, op)
  ELSE CASE op = 240 -> Create(c, m, FALSE)
         [] op = 245 -> Create(c, m, TRUE)
         [] op = 243 -> Finish(c, m, "return")
         [] op = 253 -> Finish(c, m, "revert")
         [] op = 255 -> SelfDestruct(c, m)
         [] OTHER    -> CallOp(c, m, op)

(* One instruction; past the end of the code is STOP. *)
Step(c, m) ==
  LET op == BGet(c.code, m.pc)
      l == Len(m.st)
      x == Pay(m, Static[c.fork][op])
  IN IF c.fork < Since[op] \/ l < Pops[op] \/ l - Pops[op] + Pushes[op] > STACK_LIMIT THEN Halt(m)
     ELSE Then(x, LAMBDA y : Exec(c, y, op))

(* The caller of a suspended frame continues it with the child's outcome. *)
Resume(c, m, o) ==
  LET ok == o.r = "ok"
      soft == ok \/ o.r = "revert"
      create == m.status = "create"
      q == m.req
      used == Min(o.rsv_used, q.rsv)
      n == Min(q.out_len, BLen(o.out))
      gasback == IF soft THEN (q.gas \div 256) * o.frac ELSE 0
      refill == IF create /\ ~ok /\ c.eip8037 THEN GP(c).create_state ELSE 0
      touched == IF ok THEN {o.sstore[i][1] : i \in DOMAIN o.sstore} ELSE {}
      LastVal(k) == o.sstore[CHOOSE i \in DOMAIN o.sstore :
                       o.sstore[i][1] = k /\ \A j \in DOMAIN o.sstore : j > i => o.sstore[j][1] # k][2]
  IN [m EXCEPT
       !.status = "run",
       !.st = Append(@, IF create THEN (IF ok THEN o.addr ELSE Zero) ELSE Bool(ok)),
       !.rd = IF create /\ o.r # "revert" THEN "" ELSE o.out,
       !.mem = IF ~create /\ soft /\ n > 0 THEN BPut(@, q.out_off, BSlice(o.out, 0, n)) ELSE @,
       !.gas = @ + gasback,
       !.rsv = (IF ok THEN q.rsv - used ELSE q.rsv) + refill,
       !.ssp = @ + (IF ok THEN used ELSE 0) - refill,
       !.refund = @ + (IF ok THEN o.refund ELSE 0),
       !.req = NoReq,
       !.w = [@ EXCEPT !.cur = [k \in DOMAIN @ \cup touched |-> IF k \in touched THEN LastVal(k) ELSE @[k]],
                       !.warms = @ \cup touched]]
=============================================================================
