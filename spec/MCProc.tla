------------------------------- MODULE MCProc -------------------------------
(***************************************************************************)
(* A whole process whose first statement is Parser::parse().               *)
(*                                                                         *)
(*   exec --arg0--> parse --argv elements--> parse --end--> user | report  *)
(*   report --text on stderr--> exit 1        user --user code--> exit 0   *)
(* If nothing can be written to stderr the text is lost, and that is all.  *)
(*                                                                         *)
(* Recorded runs of real processes (argv, exit status, both streams) and,  *)
(* in mode "call", of try_parse_from are validated against it: a run is    *)
(* accepted if some behaviour of this machine agrees with it.              *)
(***************************************************************************)
EXTENDS PalcHelp

Traces == JsonDeserialize(IOEnv.PALC_TRACES)

VARIABLES trc, phase, posn, ps, prg, oc, wr
pvars == <<trc, phase, posn, ps, prg, oc, wr>>

Rec == Traces[trc]
NoO == OkO([f |-> <<>>, fl |-> <<>>, sub |-> <<>>])

\* The program's name: the last component of argv[0], if it has one.
FileName(a) ==
  LET cs == SelectSeq(SplitAt(a, "/"), LAMBDA c : c # <<>> /\ c # <<".">>)
  IN IF cs = <<>> \/ cs[Len(cs)] = <<".", ".">> THEN a ELSE cs[Len(cs)]
\* How it is shown: bytes that are no text become replacement characters.
Shown(a) == [i \in 1..Len(a) |-> IF a[i] \in InvalidSyms THEN "uFFFD" ELSE a[i]]

RangeOf(s) == {s[i] : i \in 1..Len(s)}
ObsO == [Rec.o EXCEPT !.c = RangeOf(@)]

Init == /\ trc \in 1..Len(Traces)
        /\ phase = "exec" /\ posn = 1 /\ ps = Init0(Traces[trc].d)
        /\ prg = <<>> /\ oc = NoO /\ wr = {}

NoArg0 == /\ phase = "exec" /\ Rec.argv = <<>>
          /\ phase' = "report" /\ oc' = ErrO("MissingArg0", <<>>, <<>>)
          /\ UNCHANGED <<trc, posn, ps, prg, wr>>
TakeArg0 == /\ phase = "exec" /\ Rec.argv # <<>>
            /\ prg' = FileName(Rec.argv[1]) /\ phase' = "parse" /\ posn' = 2
            /\ UNCHANGED <<trc, ps, oc, wr>>
TakeElement == /\ phase = "parse" /\ posn <= Len(Rec.argv)
               /\ ps' = Step(ps, Rec.argv[posn]) /\ posn' = posn + 1
               /\ UNCHANGED <<trc, phase, prg, oc, wr>>
EndOfArgv == /\ phase = "parse" /\ posn > Len(Rec.argv)
             /\ \E o \in Outcomes(ps) : oc' = o /\ phase' = IF o.k = "ok" THEN "user" ELSE "report"
             /\ UNCHANGED <<trc, posn, ps, prg, wr>>

\* What was written agrees with the error or help.
HelpAgrees == NonEmpty([x \in 1..Len(Rec.lines) |-> Squeeze(Rec.lines[x])])
              = LET hl == HelpLines(ps.d, ps.lv[Top(ps)].n, Shown(prg), ps.path) IN [x \in 1..Len(hl) |-> hl[x].t]
TextAgrees == IF oc.k = "help" THEN ObsO.k = "help" /\ HelpAgrees
              ELSE ObsO = oc
WriteText == /\ phase = "report" /\ TextAgrees /\ Rec.same
             /\ wr' = wr \cup (IF Rec.err = "open" THEN {"stderr"} ELSE {}) /\ phase' = "exit1"
             /\ UNCHANGED <<trc, posn, ps, prg, oc>>
UserCode == /\ phase = "user" /\ ObsO = oc /\ Rec.same
            /\ wr' = wr \cup {"stdout"} /\ phase' = "exit0"
            /\ UNCHANGED <<trc, posn, ps, prg, oc>>
Exit == /\ phase \in {"exit0", "exit1"}
        /\ Rec.mode = "call" \/ (Rec.code = (IF phase = "exit0" THEN 0 ELSE 1) /\ RangeOf(Rec.wrote) = wr)
        /\ phase' = "done"
        /\ UNCHANGED <<trc, posn, ps, prg, oc, wr>>

Next == NoArg0 \/ TakeArg0 \/ TakeElement \/ EndOfArgv \/ WriteText \/ UserCode \/ Exit
Spec == Init /\ [][Next]_pvars

Accepting == phase = "done" => PrintT("ROW " \o ToJson(<<trc>>))

\* Theorems about the machine.
P_Streams == /\ phase \in {"exec", "parse", "report", "user"} => wr = {}        \* nothing is written before the decision
             /\ phase = "exit1" => wr = (IF Rec.err = "open" THEN {"stderr"} ELSE {})
             /\ phase = "exit0" => wr = {"stdout"}                               \* and that is user code's
P_Arg0Inert == (phase = "parse") => ps = RunFrom(Init0(Rec.d), SubSeq(Rec.argv, 2, posn - 1))
P_UserIffOk == phase \in {"user", "exit0"} => oc.k = "ok"
P_Name == prg # <<>> => \A i \in 1..Len(prg) : prg[i] # "/" \/ prg = Rec.argv[1]
\* Once the text is written the process ends: user code is never reached any more.
A_NoUserAfterReport == [][(phase \in {"report", "exit1"}) => (phase' # "user" /\ phase' # "exit0")]_pvars
=============================================================================
