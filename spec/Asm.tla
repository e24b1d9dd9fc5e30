--------------------------------- MODULE Asm ---------------------------------
(***************************************************************************)
(* Assembly: what bytes a text denotes (Assemble), which instructions a    *)
(* byte string holds (Decode), how they are printed (Disasm).              *)
(*                                                                         *)
(* Assemble returns the bytes in hexadecimal, "err" when the text denotes  *)
(* nothing, and "?" for texts whose meaning is left open (a label defined  *)
(* twice, "0x" without digits).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Word256, Text, TLC

\* -- mnemonics ----------------------------------------------------------------
Plain ==
  (0 :> "STOP") @@ (1 :> "ADD") @@ (2 :> "MUL") @@ (3 :> "SUB") @@ (4 :> "DIV") @@ (5 :> "SDIV") @@ (6 :> "MOD")
  @@ (7 :> "SMOD") @@ (8 :> "ADDMOD") @@ (9 :> "MULMOD") @@ (10 :> "EXP") @@ (11 :> "SIGNEXTEND")
  @@ (16 :> "LT") @@ (17 :> "GT") @@ (18 :> "SLT") @@ (19 :> "SGT") @@ (20 :> "EQ") @@ (21 :> "ISZERO")
  @@ (22 :> "AND") @@ (23 :> "OR") @@ (24 :> "XOR") @@ (25 :> "NOT") @@ (26 :> "BYTE") @@ (27 :> "SHL")
  @@ (28 :> "SHR") @@ (29 :> "SAR") @@ (30 :> "CLZ") @@ (32 :> "KECCAK256")
  @@ (48 :> "ADDRESS") @@ (49 :> "BALANCE") @@ (50 :> "ORIGIN") @@ (51 :> "CALLER") @@ (52 :> "CALLVALUE")
  @@ (53 :> "CALLDATALOAD") @@ (54 :> "CALLDATASIZE") @@ (55 :> "CALLDATACOPY") @@ (56 :> "CODESIZE")
  @@ (57 :> "CODECOPY") @@ (58 :> "GASPRICE") @@ (59 :> "EXTCODESIZE") @@ (60 :> "EXTCODECOPY")
  @@ (61 :> "RETURNDATASIZE") @@ (62 :> "RETURNDATACOPY") @@ (63 :> "EXTCODEHASH") @@ (64 :> "BLOCKHASH")
  @@ (65 :> "COINBASE") @@ (66 :> "TIMESTAMP") @@ (67 :> "NUMBER") @@ (68 :> "DIFFICULTY") @@ (69 :> "GASLIMIT")
  @@ (70 :> "CHAINID") @@ (71 :> "SELFBALANCE") @@ (72 :> "BASEFEE") @@ (73 :> "BLOBHASH") @@ (74 :> "BLOBBASEFEE")
  @@ (75 :> "SLOTNUM")
  @@ (80 :> "POP") @@ (81 :> "MLOAD") @@ (82 :> "MSTORE") @@ (83 :> "MSTORE8") @@ (84 :> "SLOAD") @@ (85 :> "SSTORE")
  @@ (86 :> "JUMP") @@ (87 :> "JUMPI") @@ (88 :> "PC") @@ (89 :> "MSIZE") @@ (90 :> "GAS") @@ (91 :> "JUMPDEST")
  @@ (92 :> "TLOAD") @@ (93 :> "TSTORE") @@ (94 :> "MCOPY")
  @@ (230 :> "DUPN") @@ (231 :> "SWAPN") @@ (232 :> "EXCHANGE")
  @@ (240 :> "CREATE") @@ (241 :> "CALL") @@ (242 :> "CALLCODE") @@ (243 :> "RETURN") @@ (244 :> "DELEGATECALL")
  @@ (245 :> "CREATE2") @@ (250 :> "STATICCALL") @@ (253 :> "REVERT") @@ (254 :> "INVALID") @@ (255 :> "SELFDESTRUCT")

NameOf ==
  [o \in DOMAIN Plain \union 95..164 |->
    IF o \in DOMAIN Plain THEN Plain[o]
    ELSE IF o <= 127 THEN "PUSH" \o Num(o - 95)
    ELSE IF o <= 143 THEN "DUP" \o Num(o - 127)
    ELSE IF o <= 159 THEN "SWAP" \o Num(o - 143)
    ELSE "LOG" \o Num(o - 160)]
Names == {NameOf[o] : o \in DOMAIN NameOf}
OpOf == [m \in Names |-> CHOOSE o \in DOMAIN NameOf : NameOf[o] = m]

Deep == {230, 231, 232}
ImmLen(o) == IF o \in 96..127 THEN o - 95 ELSE IF o \in Deep THEN 1 ELSE 0

\* Stack indices are encoded so that the byte is never read as JUMPDEST or PUSH.
Index(x) == IF x \in 91..127 THEN 0 ELSE (x + 145) % 256          \* 0: invalid
Pair(x) ==                                                          \* <<0, 0>>: invalid
  IF x \in 82..127 THEN <<0, 0>>
  ELSE LET k == XorInt(x, 143)
           q == k \div 16
           r == k % 16
       IN IF q < r THEN <<q + 1, r + 1>> ELSE <<r + 1, 29 - q>>
IndexByte == [n \in 17..235 |-> CHOOSE x \in 0..255 : Index(x) = n]
Pairs == {Pair(x) : x \in 0..255} \ {<<0, 0>>}
PairByte == [p \in Pairs |-> CHOOSE x \in 0..255 : Pair(x) = p]

\* -- instructions of a byte string -----------------------------------------------
Amsterdam(fork) == fork = "AMSTERDAM"
Needs(o, fork) == IF o \in Deep /\ ~Amsterdam(fork) THEN 0 ELSE ImmLen(o)
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(code, fork, pc, acc) ==
  IF pc >= BLen(code) THEN acc
  ELSE LET o == BGet(code, pc)
           n == Needs(o, fork)
           full == pc + 1 + n <= BLen(code)
       IN DecodeFrom(code, fork, pc + 1 + n,
                     Append(acc, [pc |-> pc, op |-> o, imm |-> IF n > 0 /\ full THEN BSlice(code, pc + 1, n) ELSE ""]))
Decode(code, fork) == DecodeFrom(code, fork, 0, <<>>)

Mnemonic(o) == IF o \in DOMAIN NameOf THEN NameOf[o] ELSE "UNKNOWN(0x" \o Hex2(o) \o ")"
Operand(o, imm) ==
  IF imm = "" THEN ""
  ELSE LET x == BGet(imm, 0) IN
       CASE o \in {230, 231} -> IF Index(x) > 0 THEN " " \o Num(Index(x)) ELSE " INVALID(0x" \o Hex2(x) \o ")"
         [] o = 232 -> IF Pair(x)[1] > 0 THEN " " \o Num(Pair(x)[1]) \o " " \o Num(Pair(x)[2])
                       ELSE " INVALID(0x" \o Hex2(x) \o ")"
         [] OTHER -> " 0x" \o imm
Shown(i) == Mnemonic(i.op) \o Operand(i.op, i.imm)
Disasm(code, fork) ==
  LET d == Decode(code, fork)
  IN Join([n \in 1..Len(d) |-> IF n = 1 THEN Shown(d[n]) ELSE " " \o Shown(d[n])])

\* The analysed form also steps into an immediate that a jump may reach, shows what there is of a
\* cut-off immediate, and ends with a STOP if the code can run off its end.
RECURSIVE InsideFrom(_, _, _, _)
InsideFrom(code, fork, pc, acc) ==
  IF pc >= BLen(code) THEN Append(acc, "STOP")
  ELSE LET o == BGet(code, pc)
           n == Needs(o, fork)
           have == IF pc + 1 + n <= BLen(code) THEN n ELSE BLen(code) - pc - 1
           imm == IF ImmLen(o) > 0 /\ pc + 1 < BLen(code)
                  THEN BSlice(code, pc + 1, IF n > 0 THEN have ELSE 1) ELSE ""
           step == IF o \in Deep /\ n = 1 /\ have = 1 /\ BGet(code, pc + 1) \in 91..127 THEN 1 ELSE 1 + n
       IN InsideFrom(code, fork, pc + step, Append(acc, Mnemonic(o) \o Operand(o, imm)))
Inside(code, fork) == InsideFrom(code, fork, 0, <<>>)

RECURSIVE Within(_, _, _, _)
Within(q, i, r, j) ==
  IF i > Len(q) THEN TRUE
  ELSE IF j > Len(r) THEN FALSE
  ELSE IF q[i] = r[j] THEN Within(q, i + 1, r, j + 1) ELSE Within(q, i, r, j + 1)
Subsequence(q, r) == Within(q, 1, r, 1)

\* -- tokens ---------------------------------------------------------------------
White == {" ", "\t", "\n", "\r", "\f"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexDigits == Digits \union {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Letters ==
  {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x",
   "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V",
   "W", "X", "Y", "Z", "_"}
Word == Letters \union Digits

\* The first position from i on whose character is not in S.
RECURSIVE Past(_, _, _)
Past(cs, i, S) == IF i > Len(cs) \/ cs[i] \notin S THEN i ELSE Past(cs, i + 1, S)
Cut(cs, i, j) == Join(SubSeq(cs, i, j - 1))

Tok(k, s, w) == [k |-> k, s |-> s, w |-> w]
\* <<token, next position>>
Token(cs, i) ==
  LET c == cs[i]
      word == Past(cs, i, Word)
      ref == Past(cs, i + 1, Word)
  IN
  CASE c = "%" -> <<IF ref = i + 1 THEN Tok("bad", "", "") ELSE Tok("ref", Cut(cs, i + 1, ref), ""), ref>>
    [] c = "$" -> <<IF ref = i + 1 THEN Tok("bad", "", "") ELSE Tok("par", Cut(cs, i + 1, ref), ""), ref>>
    [] c = "," -> <<Tok(",", "", ""), i + 1>>
    [] c = "(" -> <<Tok("(", "", ""), i + 1>>
    [] c = ")" -> <<Tok(")", "", ""), i + 1>>
    [] c \in Digits ->
         IF c = "0" /\ i < Len(cs) /\ cs[i + 1] \in {"x", "X"}
         THEN LET j == Past(cs, i + 2, HexDigits)
              IN <<IF j = i + 2 THEN Tok("open", "", "")
                   ELSE LET w == HexNum(Cut(cs, i + 2, j)) IN IF w = "" THEN Tok("bad", "", "") ELSE Tok("num", "", w), j>>
         ELSE LET j == Past(cs, i, Digits)
                  w == Dec(Cut(cs, i, j))
              IN <<IF w = "" THEN Tok("bad", "", "") ELSE Tok("num", "", w), j>>
    [] c \in Letters ->
         IF word <= Len(cs) /\ cs[word] = ":" THEN <<Tok("label", Cut(cs, i, word), ""), word + 1>>
         ELSE <<Tok("id", Cut(cs, i, word), ""), word>>
    [] c = ":" -> <<Tok("label", "", ""), i + 1>>
    [] OTHER -> <<Tok("bad", "", ""), i + 1>>

RECURSIVE TokensFrom(_, _, _)
TokensFrom(cs, i, acc) ==
  IF i > Len(cs) \/ cs[i] = ";" THEN acc
  ELSE IF cs[i] \in White THEN TokensFrom(cs, i + 1, acc)
  ELSE LET t == Token(cs, i) IN TokensFrom(cs, t[2], Append(acc, t[1]))
LineTokens(cs) == TokensFrom(cs, 1, <<>>)

RECURSIVE LinesFrom(_, _, _)
LinesFrom(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE LET j == Past(cs, i, {cs[m] : m \in 1..Len(cs)} \ {"\n"})
       IN LinesFrom(cs, j + 1, Append(acc, SubSeq(cs, i, j - 1)))
Trim(cs) ==
  LET i == Past(cs, 1, White)
      ink == {m \in 1..Len(cs) : cs[m] \notin White}
      j == IF ink = {} THEN 0 ELSE CHOOSE m \in ink : \A x \in ink : x <= m
  IN SubSeq(cs, i, j)
Lines(text) == LET l == LinesFrom(Chars(text), 1, <<>>) IN [n \in 1..Len(l) |-> Trim(l[n])]

Directive == Chars("#define")
IsDefine(l) == Len(l) >= 7 /\ SubSeq(l, 1, 7) = Directive /\ (Len(l) = 7 \/ l[8] \in White)

\* -- macros -------------------------------------------------------------------------
\* "Not denoting anything", for sequences and for macro tables.
Err == <<[err |-> TRUE]>>
NoTable == "" :> TRUE
Id(t) == t.k = "id"
Builtin ==
  "RET_WORD" :> [fn |-> FALSE, ps |-> <<>>,
                 body |-> LineTokens(Chars("PUSH0 MSTORE PUSH1 0x20 PUSH0 RETURN"))]

\* The parameters: names separated by commas, up to ")"; <<names, position after>> or Err.
RECURSIVE Params(_, _, _)
Params(ts, i, acc) ==
  IF i + 1 > Len(ts) \/ ~Id(ts[i]) THEN Err
  ELSE IF ts[i + 1].k = ")" THEN <<Append(acc, ts[i].s), i + 2>>
  ELSE IF ts[i + 1].k = "," THEN Params(ts, i + 2, Append(acc, ts[i].s))
  ELSE Err

Define(l) ==
  LET cs == SubSeq(l, 8, Len(l))
      ts == LineTokens(cs)
      start == Past(cs, 1, White)
      end == Past(cs, start, Word)
      fn == end <= Len(cs) /\ cs[end] = "("
      ps == IF ~fn THEN <<<<>>, 2>>
            ELSE IF Len(ts) >= 3 /\ ts[3].k = ")" THEN <<<<>>, 4>> ELSE Params(ts, 3, <<>>)
  IN IF ts = <<>> \/ ~Id(ts[1]) \/ ps = Err THEN NoTable
     ELSE ts[1].s :> [fn |-> fn, ps |-> ps[1], body |-> SubSeq(ts, ps[2], Len(ts))]

\* Later definitions replace earlier ones, wherever the macro is used.
RECURSIVE Macros(_, _, _)
Macros(ls, i, m) ==
  IF i > Len(ls) THEN m
  ELSE IF ~IsDefine(ls[i]) THEN Macros(ls, i + 1, m)
  ELSE LET d == Define(ls[i]) IN IF d = NoTable THEN NoTable ELSE Macros(ls, i + 1, d @@ m)

\* The arguments of a use: <<list of token lists, position after ")">> or Err.
RECURSIVE Args(_, _, _, _)
Args(ts, i, depth, acc) ==
  IF i > Len(ts) THEN Err
  ELSE LET t == ts[i]
           last == Len(acc)
           put == [acc EXCEPT ![last] = Append(@, t)]
       IN CASE t.k = "(" -> Args(ts, i + 1, depth + 1, put)
            [] t.k = ")" -> IF depth = 1 THEN <<acc, i + 1>> ELSE Args(ts, i + 1, depth - 1, put)
            [] t.k = "," /\ depth = 1 -> Args(ts, i + 1, depth, Append(acc, <<>>))
            [] OTHER -> Args(ts, i + 1, depth, put)

RECURSIVE Subst(_, _, _, _)
Subst(m, args, i, acc) ==
  IF i > Len(m.body) THEN acc
  ELSE LET t == m.body[i]
           at == {n \in 1..Len(m.ps) : m.ps[n] = t.s}
       IN Subst(m, args, i + 1,
                IF t.k = "par" /\ at # {} THEN acc \o args[CHOOSE n \in at : \A x \in at : n <= x] ELSE Append(acc, t))

RECURSIVE Expand(_, _, _, _)
Expand(ts, ms, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE IF ~Id(ts[i]) \/ ts[i].s \notin DOMAIN ms THEN Expand(ts, ms, i + 1, Append(acc, ts[i]))
  ELSE LET m == ms[ts[i].s]
       IN IF ~m.fn THEN Expand(ts, ms, i + 1, acc \o m.body)
          ELSE IF i = Len(ts) \/ ts[i + 1].k # "(" THEN Err
          ELSE LET a == Args(ts, i + 2, 1, <<<<>>>>)
               IN IF a = Err THEN Err
                  ELSE IF m.ps = <<>> /\ a[1] # <<<<>>>> THEN Err
                  ELSE IF m.ps # <<>> /\ Len(a[1]) # Len(m.ps) THEN Err
                  ELSE Expand(ts, ms, a[2], acc \o Subst(m, a[1], 1, <<>>))

\* -- items: labels and instructions --------------------------------------------------
\* op: first byte (PUSH0 for PUSH); w: width of the immediate, -1 to be chosen; ref: label or "".
Ins(op, w, ref, val) == [lab |-> "", op |-> op, w |-> w, ref |-> ref, val |-> val]
Lab(s) == [lab |-> s, op |-> 0, w |-> 0, ref |-> "", val |-> ""]
IsNum(ts, i) == i <= Len(ts) /\ ts[i].k = "num"
Small(ts, i) == IF IsNum(ts, i) /\ ToInt(ts[i].w) <= 255 THEN ToInt(ts[i].w) ELSE 0 - 1
IsImm(ts, i) == i <= Len(ts) /\ ts[i].k \in {"num", "ref"}

RECURSIVE Items(_, _, _)
Items(ts, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE LET t == ts[i]
           one == Small(ts, i + 1)
           two == Small(ts, i + 2)
           imm(op, w) == IF ~IsImm(ts, i + 1) THEN Err
                         ELSE Items(ts, i + 2, Append(acc, Ins(op, w, ts[i + 1].s, ts[i + 1].w)))
           deep(op) == IF one \in 17..235 THEN Items(ts, i + 2, Append(acc, Ins(op, 1, "", FromInt(IndexByte[one])))) ELSE Err
       IN
       CASE t.k = "label" -> IF t.s = "" THEN Err ELSE Items(ts, i + 1, Append(acc, Lab(t.s)))
         [] t.k # "id" -> Err
         [] t.s = "PUSH" -> imm(95, 0 - 1)
         [] t.s \in {"DUP", "SWAP"} ->
              IF one \in 1..16
              THEN Items(ts, i + 2, Append(acc, Ins((IF t.s = "DUP" THEN 127 ELSE 143) + one, 0, "", "")))
              ELSE deep(IF t.s = "DUP" THEN 230 ELSE 231)
         [] t.s \notin Names -> Err
         [] OpOf[t.s] \in {230, 231} -> deep(OpOf[t.s])
         [] OpOf[t.s] = 232 ->
              IF one > 0 /\ two > 0 /\ <<one, two>> \in Pairs
              THEN Items(ts, i + 3, Append(acc, Ins(232, 1, "", FromInt(PairByte[<<one, two>>]))))
              ELSE Err
         [] ImmLen(OpOf[t.s]) > 0 -> imm(OpOf[t.s], ImmLen(OpOf[t.s]))
         [] OTHER -> Items(ts, i + 1, Append(acc, Ins(OpOf[t.s], 0, "", "")))

\* -- layout -----------------------------------------------------------------------------
Wide(n) == IF n = 0 THEN 0 ELSE IF n < 256 THEN 1 ELSE IF n < 65536 THEN 2 ELSE 3
\* Where each item begins, given the widths chosen for pushes of labels.
RECURSIVE Starts(_, _, _, _, _)
Starts(is, ws, i, pc, acc) ==
  IF i > Len(is) THEN acc
  ELSE Starts(is, ws, i + 1,
              IF is[i].lab # "" THEN pc ELSE pc + 1 + ws[i],
              Append(acc, pc))
Defs(is, s) == {n \in 1..Len(is) : is[n].lab = s}
AtLabel(is, st, s) == st[CHOOSE n \in Defs(is, s) : TRUE]
Width0(x) == IF x.w >= 0 THEN x.w ELSE IF x.ref # "" THEN 0 ELSE ByteLen(x.val)

\* The least widths in which every label's position fits.
RECURSIVE Fit(_, _, _)
Fit(is, ws, free) ==
  LET st == Starts(is, ws, 1, 0, <<>>)
      w2 == [i \in 1..Len(is) |-> IF i \in free /\ Wide(AtLabel(is, st, is[i].ref)) > ws[i]
                                  THEN Wide(AtLabel(is, st, is[i].ref)) ELSE ws[i]]
  IN IF w2 = ws THEN <<ws, st>> ELSE Fit(is, w2, free)

Emit(is) ==
  LET used == {n \in 1..Len(is) : is[n].ref # ""}
      free == {n \in used : is[n].w < 0}
      undefined == \E n \in used : Defs(is, is[n].ref) = {}
      twice == \E n \in 1..Len(is) : is[n].lab # "" /\ Cardinality(Defs(is, is[n].lab)) > 1
  IN IF undefined THEN "err"
     ELSE IF twice THEN "?"
     ELSE LET f == Fit(is, [n \in 1..Len(is) |-> Width0(is[n])], free)
              ws == f[1]
              val(n) == IF is[n].ref # "" THEN FromInt(AtLabel(is, f[2], is[n].ref)) ELSE is[n].val
              fits(n) == is[n].lab # "" \/ is[n].w <= 0 \/ ByteLen(val(n)) <= is[n].w
              bytes(n) == IF is[n].lab # "" THEN ""
                          ELSE IF is[n].w < 0 THEN Hex2(95 + ws[n]) \o BSlice(val(n), 32 - ws[n], ws[n])
                          ELSE IF is[n].w = 0 THEN Hex2(is[n].op)
                          ELSE Hex2(is[n].op) \o BSlice(val(n), 32 - ws[n], ws[n])
          IN IF \E n \in 1..Len(is) : ~fits(n) THEN "err" ELSE Join([n \in 1..Len(is) |-> bytes(n)])

RECURSIVE Concat(_, _, _)
Concat(ls, i, acc) ==
  IF i > Len(ls) THEN acc ELSE Concat(ls, i + 1, IF IsDefine(ls[i]) THEN acc ELSE acc \o LineTokens(ls[i]))

HasOpen(ts) == \E n \in 1..Len(ts) : ts[n].k = "open"
Assemble(text) ==
  LET ls == Lines(text)
      ms == Macros(ls, 1, Builtin)
      raw == Concat(ls, 1, <<>>)
      ts == IF ms = NoTable THEN Err ELSE Expand(raw, ms, 1, <<>>)
      is == IF ts = Err THEN Err ELSE Items(ts, 1, <<>>)
  IN IF HasOpen(raw) \/ (ms # NoTable /\ \E m \in DOMAIN ms : HasOpen(ms[m].body)) THEN "?"
     ELSE IF is = Err THEN "err" ELSE Emit(is)
=============================================================================
