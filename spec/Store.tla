-------------------------------- MODULE Store --------------------------------
(* The artifact store, as its users see it.

   art[k] is the artifact held under key k (0: none); an artifact is a manifest and its bytes, which
   belong together.  Storing replaces it; an I/O error during that may leave the old one, the new one
   or none, but nothing else, and never touches other keys.  A file handed out and opened (a loaded
   library) keeps its contents whatever happens to the store. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Keys
Empty == [k \in Keys |-> 0]

\* What may be held after an operation; err: an I/O error happened and was reported.
Outcomes(art, e) ==
  CASE e.op = "store" /\ e.ok -> {[art EXCEPT ![e.k] = e.v]}
    [] e.op = "store" /\ ~e.ok -> {[art EXCEPT ![e.k] = x] : x \in {art[e.k], e.v, 0}}
    [] e.op = "delete" /\ e.ok -> {[art EXCEPT ![e.k] = 0]}
    [] e.op = "delete" /\ ~e.ok -> {[art EXCEPT ![e.k] = x] : x \in {art[e.k], 0}}
    [] e.op = "clear" /\ e.ok -> {Empty}
    [] e.op = "clear" /\ ~e.ok -> {a \in [Keys -> UNION {{art[k], 0} : k \in Keys}] : \A k \in Keys : a[k] \in {art[k], 0}}
    [] OTHER -> {art}
Count(art) == Cardinality({k \in Keys : art[k] # 0})
=============================================================================
