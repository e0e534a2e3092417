------------------------------- MODULE MCHelp -------------------------------
(***************************************************************************)
(* Trace validation of help texts: each record is a definition, an argv    *)
(* and what the real parser returned for it, split into lines.  First the  *)
(* argv is consumed by the machine of Palc.tla; if it ends in help, the    *)
(* recorded lines are then consumed one by one against the expected help   *)
(* of the command that was reached.                                        *)
(***************************************************************************)
EXTENDS PalcHelp

Traces == JsonDeserialize(IOEnv.PALC_TRACES)
T_Help(t) == Traces[t].k = "help"

VARIABLES trc, exh, posn, stat
hvars == <<trc, exh, posn, stat>>

Prog == <<"p", "r", "o", "g">>
\* The text of render_long_help is the help of the command itself, whether or not
\* `--help` can ask for it.
Render(t) == Traces[t].m = "render"
ExpOf(t) ==
  LET st == Run(Traces[t].d, Traces[t].a)
  IN IF st.m = "help" \/ Render(t) THEN TLCEval(HelpLines(st.d, st.lv[Top(st)].n, Prog, st.path)) ELSE <<>>
IsHelp(t) == Render(t) \/ Run(Traces[t].d, Traces[t].a).m = "help"
NodeOf(t) == LET st == Run(Traces[t].d, Traces[t].a) IN st.lv[Top(st)].n

Recorded == [x \in 1..Len(Traces[trc].lines) |-> Traces[trc].lines[x]]
RECURSIVE NextLine(_)
NextLine(p) == IF p > Len(Recorded) THEN p ELSE IF Squeeze(Recorded[p]) = <<>> THEN NextLine(p + 1) ELSE p

Init == /\ trc \in 1..Len(Traces)
        /\ exh = ExpOf(trc)
        /\ posn = NextLine(1)
        /\ stat = IF IsHelp(trc) = T_Help(trc) THEN (IF IsHelp(trc) THEN "read" ELSE "nohelp") ELSE "kind"

Match(sect) == /\ stat = "read" /\ exh # <<>> /\ posn <= Len(Recorded)
               /\ Head(exh).s = sect
               /\ Squeeze(Recorded[posn]) = Head(exh).t
               /\ exh' = Tail(exh) /\ posn' = NextLine(posn + 1)
               /\ UNCHANGED <<trc, stat>>
ReadAbout == Match("about")
ReadUsage == Match("usage")
ReadCommand == Match("cmds")
ReadArgument == Match("args")
ReadOption == Match("opts")
ReadAfter == Match("after")
Done == stat = "read" /\ exh = <<>> /\ posn > Len(Recorded) /\ stat' = "done" /\ UNCHANGED <<trc, exh, posn>>

Next == ReadAbout \/ ReadUsage \/ ReadCommand \/ ReadArgument \/ ReadOption \/ ReadAfter \/ Done
Spec == Init /\ [][Next]_hvars

Stuck == \/ stat = "kind"
         \/ /\ stat = "read"
            /\ ~(exh = <<>> /\ posn > Len(Recorded))
            /\ (exh = <<>> \/ posn > Len(Recorded) \/ Squeeze(Recorded[posn]) # Head(exh).t)
Report == Stuck => PrintT("MIS " \o ToJson(<<trc, stat, posn, exh>>))
Accepting == stat = "done" => PrintT("ROW " \o ToJson(<<trc>>))

AtStart == stat = "read" /\ posn = NextLine(1) /\ exh = ExpOf(trc)
I_Help == AtStart => HelpTheorem(Traces[trc].d, NodeOf(trc), exh)
I_Names == AtStart => ShownNamesWork(Traces[trc].d, NodeOf(trc))
=============================================================================
