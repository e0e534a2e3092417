------------------------------- MODULE MCTrace -------------------------------
(***************************************************************************)
(* Trace validation: calls of the real parser, recorded as (definition,    *)
(* argv, observed outcome), are checked to be behaviours of the machine in *)
(* Palc.tla.  Each recorded call is one behaviour: the machine consumes    *)
(* the recorded elements one by one (all step properties of MCGen apply to *)
(* every step), and at the end the recorded outcome has to be one of the   *)
(* outcomes the specification allows.                                      *)
(***************************************************************************)
EXTENDS PalcProps

Traces == JsonDeserialize(IOEnv.PALC_TRACES)
Keys == Input.keys      \* which parts of an outcome are compared

VARIABLES trc, posn, ps
tvars == <<trc, posn, ps>>

Argv == Traces[trc].a
Tok(i) == Argv[i]

RangeOf(s) == {s[i] : i \in 1..Len(s)}
ObsO == [Traces[trc].o EXCEPT !.c = RangeOf(@)]
KeySet == RangeOf(Keys)
Proj(o) == [x \in KeySet |-> o[x]]

TraceInit == /\ trc \in 1..Len(Traces)
             /\ posn = 1
             /\ ps = Init0(Traces[trc].d)

Adv(eff) == ps' = eff /\ posn' = posn + 1 /\ UNCHANGED trc

\* One named action per kind of step, guarded by the recorded element.
ReadTerminator == G_Terminator(ps, Tok(posn)) /\ Adv(DoTerminator(ps, Tok(posn)))
ReadLong == G_Long(ps, Tok(posn)) /\ Adv(DoLong(ps, Tok(posn)))
ReadBundle == G_Bundle(ps, Tok(posn)) /\ Adv(DoBundle(ps, Tail(Tok(posn)), 1))
EnterCommand == G_EnterCommand(ps, Tok(posn)) /\ Adv(DoEnterCommand(ps, Tok(posn)))
ReadFree == G_Free(ps, Tok(posn)) /\ Adv(DoPositional(ps, Tok(posn), FALSE))
TakeValue == G_TakeValue(ps, Tok(posn)) /\ Adv(DoTakeValue(ps, Tok(posn)))
RefuseValue == G_RefuseValue(ps, Tok(posn)) /\ Adv(DoRefuseValue(ps, Tok(posn)))
ReadRest == G_Rest(ps, Tok(posn)) /\ Adv(DoPositional(ps, Tok(posn), TRUE))
ReadGreedy == G_Greedy(ps, Tok(posn)) /\ Adv(DoGreedy(ps, Tok(posn)))
Ignored == G_Dead(ps, Tok(posn)) /\ Adv(ps)

TraceNext == /\ posn <= Len(Argv)
             /\ \/ ReadTerminator \/ ReadLong \/ ReadBundle \/ EnterCommand \/ ReadFree
                \/ TakeValue \/ RefuseValue \/ ReadRest \/ ReadGreedy \/ Ignored

Spec == TraceInit /\ [][TraceNext]_tvars

AtEnd == posn = Len(Argv) + 1
Accepted == \E o \in Outcomes(ps) : Proj(o) = Proj(ObsO)

\* A rejected trace is reported (all of them, not only the first); always true.
Report == (AtEnd /\ ~Accepted) => PrintT("MIS " \o ToJson(<<trc, Outcomes(ps)>>))

T_Type == TypeOK(ps)
T_HistoryReplays == AtEnd => HistoryReplays(ps.d, ps)
T_Rebundle == AtEnd => Rebundle(ps.d, ps)
T_Respell == AtEnd => Respell(ps.d, ps)
T_Swap == AtEnd => Swap(ps.d, ps)
T_GlobalMove == AtEnd => GlobalMove(ps.d, ps)
T_Inline == AtEnd => InlineAgrees(ps.d, ps, Argv)
T_Conserve == AtEnd => Conserve(ps)
T_Positional == AtEnd => PositionalOrder(ps)
T_ConstraintsExact == AtEnd => ConstraintsExact(ps)
T_Defaults == AtEnd => DefaultsExact(ps)
T_Help == AtEnd => HelpExact(ps)
T_HelpOff == AtEnd => HelpOffAgrees(ps.d, ps, Argv)
T_FirstError == AtEnd => FirstError(ps.d, ps, Argv)
TA_WriteOnce == [][WriteOnce(ps, ps')]_tvars
TA_ScopeOnlyGrows == [][ScopeGrows(ps, ps')]_tvars
TA_AfterTerminator == [][AfterTerminator(ps, ps')]_tvars
TA_Greedy == [][GreedyKeeps(ps, ps', Tok(posn))]_tvars
TA_ValueOrRefuse == [][ValueOrRefuse(ps, ps', Tok(posn))]_tvars
TA_GlobalsOnlyOutside == [][GlobalsOnlyOutside(ps, ps')]_tvars
TA_ErrorFinal == [][ErrorFinal(ps, ps')]_tvars
TA_OneOccurrence == [][OneStep(ps, ps')]_tvars

\* Prints argvs that must mean the same as the present one; always true.
Alts(kinds) ==
  (IF "replay" \in kinds THEN AltReplay(ps.d, ps) ELSE {})
  \cup (IF "rebundle" \in kinds THEN AltRebundle(ps.d, ps) ELSE {})
  \cup (IF "respell" \in kinds THEN AltRespell(ps.d, ps) ELSE {})
  \cup (IF "swap" \in kinds THEN AltSwap(ps.d, ps) ELSE {})
  \cup (IF "globalmove" \in kinds THEN AltGlobalMove(ps.d, ps) ELSE {})
EmitAlts(kinds) == (AtEnd /\ AtRest(ps) /\ ps.h # <<>>) => LET al == Alts(kinds) IN al = {} \/ PrintT("ALT " \o ToJson(<<ps.d, al, Outcomes(ps)>>))
Alt_replay == EmitAlts({"replay"})
Alt_bundle == EmitAlts({"replay", "rebundle"})
Alt_respell == EmitAlts({"respell"})
Alt_swap == EmitAlts({"swap"})
Alt_globalmove == EmitAlts({"globalmove"})
Alt_all == EmitAlts({"replay", "rebundle", "respell", "swap", "globalmove"})
=============================================================================
