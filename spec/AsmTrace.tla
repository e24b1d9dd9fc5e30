------------------------------ MODULE AsmTrace ------------------------------
(* Judges what the assembler and the printers made of texts and byte strings. *)
EXTENDS Asm, Json, IOUtils

Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i

TextOk(r) == LET a == Assemble(r.text) IN (a = "?" /\ r.res # "panic") \/ r.res = a
Field(r) ==
  IF "text" \in DOMAIN r THEN IF TextOk(r) THEN "" ELSE "text"
  ELSE IF r.ops # Decode(r.code, r.fork) THEN "ops"
  ELSE IF r.shown # Disasm(r.code, r.fork) THEN "shown"
  ELSE IF r.back # Assemble(r.shown) \/ r.back \notin {r.code, "err"} THEN "back"
  ELSE IF ~Subsequence(r.dump, Inside(r.code, r.fork)) THEN "dump"
  ELSE ""

Init == i \in 1..Len(Recs)
Next == UNCHANGED i
Judge == LET f == Field(Recs[i]) IN f # "" => PrintT(<<"BAD", i, f, IF f = "text" THEN Assemble(Recs[i].text) ELSE "">>)
=============================================================================
