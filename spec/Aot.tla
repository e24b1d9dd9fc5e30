-------------------------------- MODULE Aot --------------------------------
(* Functions as they go through object files and shared libraries: an object holds the functions of
   the module it was written from, a library those of the objects it was linked from, and a symbol
   of a loaded library does what its function does when compiled in memory. *)
EXTENDS Compiler

\* Ways to link: 0 the defaults, 1 gcc, 2 clang, 3 lld by name, 4 extra flags; with 5 a file is
\* missing and with 6 the C compiler.
Ways == 0..6
NewA == [c |-> New(TRUE), objs |-> <<>>, libs |-> <<>>]

\* Functions of several objects, or nothing if one symbol would have two definitions.
Parts(a, os) == UNION {a.objs[o] : o \in os}
Clash(a, os) == \E o, p \in os : o # p /\ \E f \in a.objs[o], g \in a.objs[p] : a.c.fns[f].name = a.c.fns[g].name
LinkOk(a, os, way) == way < 5 /\ ~Clash(a, os)
Link(a, os, way) == [a EXCEPT !.libs = Append(@, [ok |-> LinkOk(a, os, way), loaded |-> FALSE,
                                                 fns |-> IF LinkOk(a, os, way) THEN Parts(a, os) ELSE {}])]
Load(a, l) == [a EXCEPT !.libs[l].loaded = TRUE]
ToSetA(s) == {s[n] : n \in 1..Len(s)}
AfterA(a, e) ==
  CASE e.op = "object" -> [a EXCEPT !.objs = Append(@, Open(a.c)), !.c = Object(@)]
    [] e.op = "link" -> Link(a, ToSetA(e.objs), e.v)
    [] e.op = "load" -> Load(a, e.lib)
    [] e.op = "call" -> a
    [] OTHER -> [a EXCEPT !.c = After(@, e)]
\* The function a symbol of a library stands for.
Symbol(a, l, n) == {f \in a.libs[l].fns : a.c.fns[f].name = n}
=============================================================================
