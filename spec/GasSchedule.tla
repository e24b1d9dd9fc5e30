---------------------------- MODULE GasSchedule ----------------------------
(***************************************************************************)
(* What each fork of the Ethereum protocol charges, and which opcodes it   *)
(* knows.  Forks are numbered in protocol order.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

FRONTIER == 0      HOMESTEAD == 1   TANGERINE == 2   SPURIOUS == 3   BYZANTIUM == 4
PETERSBURG == 5    ISTANBUL == 6    BERLIN == 7      LONDON == 8     MERGE == 9
SHANGHAI == 10     CANCUN == 11     PRAGUE == 12     OSAKA == 13     AMSTERDAM == 14

Forks == FRONTIER..AMSTERDAM

(* -------------------------------------------------------------------- *)
(* Opcodes: first fork that has them (99: none), words popped, pushed.    *)

None == 99

SinceOf(op) ==
  CASE op \in 0..10                      -> FRONTIER      \* STOP .. EXP
    [] op = 11                           -> FRONTIER      \* SIGNEXTEND
    [] op \in 16..26                     -> FRONTIER      \* LT .. BYTE
    [] op \in 27..29                     -> PETERSBURG    \* SHL SHR SAR
    [] op = 30                           -> OSAKA         \* CLZ
    [] op = 32                           -> FRONTIER      \* KECCAK256
    [] op \in 48..60                     -> FRONTIER      \* ADDRESS .. EXTCODECOPY
    [] op \in {61, 62}                   -> BYZANTIUM     \* RETURNDATASIZE, RETURNDATACOPY
    [] op = 63                           -> PETERSBURG    \* EXTCODEHASH
    [] op \in 64..69                     -> FRONTIER      \* BLOCKHASH .. GASLIMIT
    [] op \in {70, 71}                   -> ISTANBUL      \* CHAINID, SELFBALANCE
    [] op = 72                           -> LONDON        \* BASEFEE
    [] op \in {73, 74}                   -> CANCUN        \* BLOBHASH, BLOBBASEFEE
    [] op = 75                           -> AMSTERDAM     \* SLOTNUM
    [] op \in 80..91                     -> FRONTIER      \* POP .. JUMPDEST
    [] op \in {92, 93, 94}               -> CANCUN        \* TLOAD, TSTORE, MCOPY
    [] op = 95                           -> SHANGHAI      \* PUSH0
    [] op \in 96..164                    -> FRONTIER      \* PUSH1 .. LOG4
    [] op \in {230, 231, 232}            -> AMSTERDAM     \* DUPN, SWAPN, EXCHANGE
    [] op \in {240, 241, 242, 243}       -> FRONTIER      \* CREATE CALL CALLCODE RETURN
    [] op = 244                          -> HOMESTEAD     \* DELEGATECALL
    [] op = 245                          -> PETERSBURG    \* CREATE2
    [] op = 250                          -> BYZANTIUM     \* STATICCALL
    [] op = 253                          -> BYZANTIUM     \* REVERT
    [] op = 255                          -> FRONTIER      \* SELFDESTRUCT
    [] OTHER                             -> None          \* 254 (INVALID) and unassigned
Since == [op \in 0..255 |-> SinceOf(op)]

PopsOf(op) ==
  CASE op \in 1..7 \cup {10, 11}         -> 2
    [] op \in {8, 9}                     -> 3
    [] op \in {16, 17, 18, 19, 20}       -> 2
    [] op \in {21, 25}                   -> 1
    [] op \in {22, 23, 24, 26, 27, 28, 29} -> 2
    [] op = 30                           -> 1
    [] op = 32                           -> 2
    [] op \in {49, 53, 59, 63}           -> 1
    [] op \in {55, 57, 62}               -> 3
    [] op = 60                           -> 4
    [] op \in {64, 73}                   -> 1
    [] op \in {80, 81, 84, 86, 92}       -> 1
    [] op \in {82, 83, 85, 87, 93}       -> 2
    [] op = 94                           -> 3
    [] op \in 128..143                   -> op - 127      \* DUPn reads n
    [] op \in 144..159                   -> op - 142      \* SWAPn touches n + 1
    [] op \in 160..164                   -> op - 158
    [] op = 240                          -> 3
    [] op \in {241, 242}                 -> 7
    [] op \in {243, 253}                 -> 2
    [] op \in {244, 250}                 -> 6
    [] op = 245                          -> 4
    [] op = 255                          -> 1
    [] OTHER                             -> 0
Pops == [op \in 0..255 |-> PopsOf(op)]

PushesOf(op) ==
  CASE op \in 1..11 \cup 16..30 \cup {32} -> 1
    [] op \in {48, 49, 50, 51, 52, 53, 54, 56, 58, 59, 61, 63} -> 1
    [] op \in 64..75                     -> 1
    [] op \in {81, 84, 88, 89, 90, 92}   -> 1
    [] op \in 95..127                    -> 1
    [] op \in 128..143                   -> op - 126
    [] op \in 144..159                   -> op - 142
    [] op \in {240, 241, 242, 244, 245, 250} -> 1
    [] OTHER                             -> 0
Pushes == [op \in 0..255 |-> PushesOf(op)]

(* -------------------------------------------------------------------- *)
(* The part of the price that does not depend on operands or state.       *)

StaticOf(f, op) ==
  CASE op \in {0, 243, 253, 254, 240, 245, 85}  -> 0
    [] op \in {1, 3}                     -> 3
    [] op \in {2, 4, 5, 6, 7, 11}        -> 5
    [] op \in {8, 9}                     -> 8
    [] op = 10                           -> 10
    [] op \in 16..29                     -> 3
    [] op = 30                           -> 5
    [] op = 32                           -> 30
    [] op \in {48, 50, 51, 52, 54, 56, 58, 61} -> 2
    [] op \in {53, 55, 57, 62}           -> 3
    [] op = 49                           -> IF f >= BERLIN THEN 100 ELSE IF f >= ISTANBUL THEN 700
                                            ELSE IF f >= TANGERINE THEN 400 ELSE 20
    [] op \in {59, 60}                   -> IF f >= BERLIN THEN 100 ELSE IF f >= TANGERINE THEN 700 ELSE 20
    [] op = 63                           -> IF f >= BERLIN THEN 100 ELSE IF f >= ISTANBUL THEN 700 ELSE 400
    [] op = 64                           -> 20
    [] op \in {65, 66, 67, 68, 69, 70, 72, 74, 75} -> 2
    [] op = 71                           -> 5
    [] op = 73                           -> 3
    [] op \in {80, 88, 89, 90, 95}       -> 2
    [] op \in {81, 82, 83, 94}           -> 3
    [] op = 84                           -> IF f >= BERLIN THEN 100 ELSE IF f >= ISTANBUL THEN 800
                                            ELSE IF f >= TANGERINE THEN 200 ELSE 50
    [] op = 86                           -> 8
    [] op = 87                           -> 10
    [] op = 91                           -> 1
    [] op \in {92, 93}                   -> 100
    [] op \in 96..159                    -> 3
    [] op \in 160..164                   -> 375
    [] op \in {230, 231, 232}            -> 3
    [] op \in {241, 242, 244, 250}       -> IF f >= BERLIN THEN 100 ELSE IF f >= TANGERINE THEN 700 ELSE 40
    [] op = 255                          -> IF f >= TANGERINE THEN 5000 ELSE 0
    [] OTHER                             -> 0
Static == [f \in Forks |-> [op \in 0..255 |-> StaticOf(f, op)]]

(* -------------------------------------------------------------------- *)
(* The parameters of the operand- and state-dependent parts.              *)

ParamsOf(f) ==
  [ exp_byte    |-> IF f >= SPURIOUS THEN 50 ELSE 10,
    logdata     |-> 8,
    logtopic    |-> 375,
    copy        |-> 3,
    extcopy     |-> 3,
    mcopy       |-> 3,
    keccak      |-> 6,
    mem_lin     |-> 3,
    mem_quad    |-> 512,
    initcode    |-> 2,
    create      |-> IF f >= AMSTERDAM THEN 9000 ELSE 32000,
    call_red    |-> 64,
    transfer    |-> 9000,
    cold_acct   |-> IF f >= BERLIN THEN 2500 ELSE 0,
    new_acct    |-> IF f >= AMSTERDAM THEN 0 ELSE 25000,
    warm_read   |-> IF f >= BERLIN THEN 100 ELSE 0,
    sstore_static |-> IF f >= BERLIN THEN 100 ELSE IF f >= ISTANBUL THEN 800 ELSE 5000,
    sstore_set  |-> IF f >= AMSTERDAM THEN 2800 ELSE IF f >= BERLIN THEN 19900
                    ELSE IF f >= ISTANBUL THEN 19200 ELSE 15000,
    sstore_reset |-> IF f >= BERLIN THEN 2800 ELSE IF f >= ISTANBUL THEN 4200 ELSE 0,
    sstore_set_refund |-> IF f >= AMSTERDAM THEN 2800 ELSE IF f >= BERLIN THEN 19900
                    ELSE IF f >= ISTANBUL THEN 19200 ELSE 15000,
    sstore_reset_refund |-> IF f >= BERLIN THEN 2800 ELSE IF f >= ISTANBUL THEN 4200 ELSE 0,
    sstore_clear_refund |-> IF f >= LONDON THEN 4800 ELSE 15000,
    sd_refund   |-> IF f >= LONDON THEN 0 ELSE 24000,
    stipend     |-> 2300,
    cold_slot_add |-> IF f >= BERLIN THEN 2000 ELSE 0,
    cold_slot   |-> IF f >= BERLIN THEN 2100 ELSE 0,
    new_acct_sd |-> IF f >= AMSTERDAM THEN 0 ELSE IF f >= TANGERINE THEN 25000 ELSE 0,
    sstore_state |-> IF f >= AMSTERDAM THEN 64 * 1530 ELSE 0,
    new_acct_state |-> IF f >= AMSTERDAM THEN 120 * 1530 ELSE 0,
    create_state |-> IF f >= AMSTERDAM THEN 120 * 1530 ELSE 0 ]
Params == [f \in Forks |-> ParamsOf(f)]
=============================================================================
