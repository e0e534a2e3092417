----------------------------- MODULE MCEffects -----------------------------
(***************************************************************************)
(* The user's own code that runs during a call: the conversions of values  *)
(* and the expressions of default values.  Both may do anything (open the  *)
(* file they are given, count, fail, ask the system), so it matters when   *)
(* they run, and how often:                                                *)
(*                                                                         *)
(*   - reading an element runs the conversion of every value that it       *)
(*     binds, once, in order, and nothing else;                            *)
(*   - the end of argv runs the default of each absent argument once (the  *)
(*     expression, or the conversion of the default text), in any order;   *)
(*   - a call that fails or asks for help has run the conversions of what  *)
(*     came before; what it was doing when it failed is left open, as are  *)
(*     the defaults that it shows in the help.                             *)
(*                                                                         *)
(* Recorded calls (argv, kind of result, events) are validated against     *)
(* this machine: it consumes elements and recorded events together, and a  *)
(* call whose events it cannot consume is rejected.                        *)
(***************************************************************************)
EXTENDS PalcProps

Traces == JsonDeserialize(IOEnv.PALC_TRACES)

VARIABLES trc, phase, posn, ps, used, fatal     \* fatal: the element that decided the result
evars == <<trc, phase, posn, ps, used, fatal>>

Rec == Traces[trc]
Ev == Rec.ev                     \* <<"conv", text>> or <<"dflt", field>>
Left == From(Ev, used + 1)

Noticed(f) == f.ty.lg
NoticedD(f) == "lg" \in DOMAIN f.dflt /\ f.dflt.lg
Pieces(f, v) == IF f.isvec /\ f.delim # <<>> THEN SplitAt(v, f.delim[1]) ELSE <<v>>
Convs(f, v) == LET p == Pieces(f, v) IN IF Noticed(f) THEN [x \in 1..Len(p) |-> <<"conv", p[x]>>] ELSE <<>>

\* What one occurrence runs.
OfItem(st, x) == IF x.t = "pos" \/ (x.t = "named" /\ x.how # "none") THEN Convs(FieldAt(st, x.l, x.k, x.i), x.val) ELSE <<>>
\* What the step from s1 to s2 runs.
OfStep(s1, s2) == Flat([x \in 1..(Len(s2.h) - Len(s1.h)) |-> OfItem(s2, s2.h[Len(s1.h) + x])])
\* What the end of argv runs for the arguments that are absent.
OfDefault(f) == IF f.dflt.m = "str" THEN Convs(f, f.dflt.v) ELSE IF f.dflt.m = "expr" /\ NoticedD(f) THEN <<<<"dflt", f.id>>>> ELSE <<>>
OfEnd(st) == Flat([l \in 1..Len(st.lv) |-> Flat([k \in 1..Len(st.lv[l].vals) |->
               Flat([i \in 1..Len(st.lv[l].vals[k]) |-> IF IsSet(st.lv[l].vals[k][i]) THEN <<>> ELSE OfDefault(FieldAt(st, l, k, i))])])])

Count(s, e) == Cardinality({x \in 1..Len(s) : s[x] = e})
NoMore(s, t) == \A x \in 1..Len(s) : Count(s, s[x]) <= Count(t, s[x])
SameBag(s, t) == Len(s) = Len(t) /\ NoMore(s, t)
Inside(v, a) == \E x \in 0..(Len(a) - Len(v)) : SubSeq(a, x + 1, x + Len(v)) = v

Init == /\ trc \in 1..Len(Traces) /\ phase = "parse" /\ posn = 1 /\ used = 0 /\ fatal = 0
        /\ ps = Init0(Traces[trc].d)

Read == /\ phase = "parse" /\ posn <= Len(Rec.a)
        /\ LET nx == Step(ps, Rec.a[posn])
               run == OfStep(ps, nx)
           IN /\ SubSeq(Ev, used + 1, used + Len(run)) = run
              /\ ps' = nx /\ used' = used + Len(run)
              /\ fatal' = IF Alive(ps) /\ ~Alive(nx) THEN posn ELSE fatal
        /\ posn' = posn + 1 /\ UNCHANGED <<trc, phase>>
AtEnd == phase = "parse" /\ posn > Len(Rec.a)
Finish == /\ AtEnd /\ Rec.k = "ok"
          /\ \E o \in Outcomes(ps) : o.k = "ok"
          /\ SameBag(Left, OfEnd(ps))
          /\ phase' = "done" /\ used' = Len(Ev) /\ UNCHANGED <<trc, posn, ps, fatal>>
\* Failing at the end: any number of the absent ones' defaults has been asked for already.
FailLate == /\ AtEnd /\ Rec.k = "err" /\ ps.m # "fail"
            /\ \E o \in Outcomes(ps) : o.k = "err"
            /\ NoMore(Left, OfEnd(ps))
            /\ phase' = "done" /\ used' = Len(Ev) /\ UNCHANGED <<trc, posn, ps, fatal>>
FailEarly == /\ AtEnd /\ Rec.k = "err" /\ ps.m = "fail"
             /\ \A x \in 1..Len(Left) : \/ Left[x][1] = "conv" /\ Inside(Left[x][2], Rec.a[fatal])
                                        \/ Count(Left, Left[x]) <= Count(OfEnd(ps), Left[x])
             /\ phase' = "done" /\ used' = Len(Ev) /\ UNCHANGED <<trc, posn, ps, fatal>>
Help == /\ AtEnd /\ Rec.k = "help" /\ ps.m = "help"
        /\ \A x \in 1..Len(Left) : Left[x][1] = "dflt"
        /\ phase' = "done" /\ used' = Len(Ev) /\ UNCHANGED <<trc, posn, ps, fatal>>
Next == Read \/ Finish \/ FailLate \/ FailEarly \/ Help
Spec == Init /\ [][Next]_evars

Accepting == phase = "done" => PrintT("ROW " \o ToJson(<<trc>>))

\* Theorems: one conversion per value that a noticed field holds; of the absent ones nothing has run.
Held == Flat([l \in 1..Len(ps.lv) |-> Flat([k \in 1..Len(ps.lv[l].vals) |->
          Flat([i \in 1..Len(ps.lv[l].vals[k]) |-> IF Noticed(FieldAt(ps, l, k, i)) THEN ps.lv[l].vals[k][i].v ELSE <<>>])])])
E_OncePerValue == phase = "parse" => used = Len(Held)
E_NoDefaultWhileReading == phase = "parse" => \A x \in 1..used : Ev[x][1] = "conv"
\* Reading on never takes anything back: the events of a prefix are a prefix of the events.
EA_Grows == [][used' >= used]_evars
=============================================================================
