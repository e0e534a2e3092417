------------------------------ MODULE MCCalls ------------------------------
(***************************************************************************)
(* Several calls of the parser at once.                                    *)
(*                                                                         *)
(* Each call reads its own argv one element at a time (argv[0] first, the  *)
(* end last); reading the next element is the only point at which other    *)
(* code of the program runs.  Two ways of running them:                    *)
(*   "threads"  any call may read next;                                    *)
(*   "nested"   one thread: a call is begun inside whichever call was      *)
(*              begun last and has not finished - by the iterator that     *)
(*              supplies argv, or by the conversion of a value - and runs  *)
(*              to its end before the outer one goes on.                   *)
(* Every schedule is printed with what each call may return, and replayed  *)
(* on the implementation read by read.                                     *)
(***************************************************************************)
EXTENDS PalcProps

Groups == Input.groups    \* [mode, calls: <<[d, a]>>]; a[1] is argv[0]

VARIABLES gix, cst, sch
cvars == <<gix, cst, sch>>

CallsOf(gi) == Groups[gi].calls
Init == /\ gix \in 1..Len(Groups)
        /\ cst = [x \in 1..Len(CallsOf(gix)) |-> [st |-> Init0(CallsOf(gix)[x].d), at |-> 0, fin |-> FALSE]]
        /\ sch = <<>>

Argv(x) == CallsOf(gix)[x].a
\* The calls that have begun and not finished, in the order of their beginnings.
Begun(x) == cst[x].at > 0
FirstIn(x) == CHOOSE y \in 1..Len(sch) : sch[y] = x /\ \A z \in 1..(y - 1) : sch[z] # x
MayRead(x) == /\ ~cst[x].fin
              /\ Groups[gix].mode = "nested" =>
                   \A y \in 1..Len(cst) : (Begun(y) /\ ~cst[y].fin /\ y # x) => (Begun(x) => FirstIn(y) < FirstIn(x))

Read(x) ==
  LET c == cst[x]
      a == Argv(x)
  IN IF c.at = 0 THEN [c EXCEPT !.at = 1]                                   \* argv[0]
     ELSE IF c.at = Len(a) THEN [c EXCEPT !.at = @ + 1, !.fin = TRUE]       \* the end
     ELSE LET st2 == Step(c.st, a[c.at + 1]) IN [c EXCEPT !.at = @ + 1, !.st = st2, !.fin = ~Alive(st2)]

Next == \E x \in 1..Len(cst) : MayRead(x) /\ cst' = [cst EXCEPT ![x] = Read(x)] /\ sch' = Append(sch, x) /\ UNCHANGED gix
Spec == Init /\ [][Next]_cvars

AllDone == \A x \in 1..Len(cst) : cst[x].fin

\* What a call returns depends on its own argv alone.
I_Independent == \A x \in 1..Len(cst) :
  cst[x].fin => Outcomes(cst[x].st) = Outcomes(RunFrom(Init0(CallsOf(gix)[x].d), Tail(Argv(x))))
\* Reading an element of one argv leaves the other calls as they are.
A_Frame == [][\A x \in 1..Len(cst) : x # sch'[Len(sch')] => cst'[x] = cst[x]]_cvars
\* A call reads no element after the one that decided its result.
I_NoReadAhead == \A x \in 1..Len(cst) : LET c == cst[x] IN (c.at >= 1 /\ ~c.fin) => Alive(c.st)
\* Nested: calls end in the opposite order of their beginnings.
I_Stack == Groups[gix].mode = "nested" =>
  \A x, y \in 1..Len(cst) : (Begun(x) /\ Begun(y) /\ x # y /\ ~cst[x].fin /\ cst[y].fin /\ FirstIn(x) < FirstIn(y)) =>
     \A z \in FirstIn(y)..Len(sch) : sch[z] = x => z > (CHOOSE w \in 1..Len(sch) : sch[w] = y /\ \A v \in (w + 1)..Len(sch) : sch[v] # y)

Emit == IF AllDone THEN PrintT("CASE " \o ToJson(<<gix, sch>>)) ELSE TRUE
EmitOut == IF sch = <<>> THEN PrintT("ROW " \o ToJson(<<gix, [x \in 1..Len(cst) |-> Outcomes(RunFrom(Init0(CallsOf(gix)[x].d), Tail(Argv(x))))]>>)) ELSE TRUE
=============================================================================
