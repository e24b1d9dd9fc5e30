------------------------------- MODULE AsmMC -------------------------------
(* Printing and assembling again, for every short byte string over the given bytes. *)
EXTENDS Asm
CONSTANTS Max, Bytes
VARIABLES code, fork

Byte(n) == Hex2(n)
Init == code = "" /\ fork \in {"OSAKA", "AMSTERDAM"}
Next == /\ BLen(code) < Max
        /\ \E b \in Bytes : code' = code \o Byte(b)
        /\ UNCHANGED fork

\* What is printed denotes the same bytes, or nothing.
RoundTrip == Assemble(Disasm(code, fork)) \in {code, "err"}
\* Complete and defined instructions always come back.
WellFormed(d) == \A n \in 1..Len(d) :
  /\ d[n].op \in DOMAIN NameOf
  /\ ImmLen(d[n].op) > 0 => d[n].imm # ""
  /\ d[n].op \in {230, 231} => Index(BGet(d[n].imm, 0)) > 0
  /\ d[n].op = 232 => Pair(BGet(d[n].imm, 0))[1] > 0
Faithful == WellFormed(Decode(code, fork)) => Assemble(Disasm(code, fork)) = code
\* Every byte belongs to exactly one instruction.
RECURSIVE Cover(_, _, _)
Cover(d, n, pc) == IF n > Len(d) THEN pc >= BLen(code) ELSE d[n].pc = pc /\ Cover(d, n + 1, pc + 1 + Needs(d[n].op, fork))
Covered == Cover(Decode(code, fork), 1, 0)

ASSUME \A n \in 17..235 : Index(IndexByte[n]) = n
ASSUME Cardinality({x \in 0..255 : Index(x) > 0}) = 219 /\ Cardinality({Index(x) : x \in 0..255} \ {0}) = 219
ASSUME Cardinality(Pairs) = Cardinality({x \in 0..255 : Pair(x)[1] > 0})
ASSUME \A p \in Pairs : Pair(PairByte[p]) = p /\ p[1] < p[2]
=============================================================================
