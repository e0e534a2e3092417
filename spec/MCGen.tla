------------------------------- MODULE MCGen -------------------------------
(***************************************************************************)
(* Exhaustive exploration: the environment hands the parser any sequence   *)
(* of elements over the definition's alphabet, up to the definition's      *)
(* length bound.  One state per (definition, inp); each state is also a   *)
(* complete test case, printed with the outcomes the specification allows. *)
(***************************************************************************)
EXTENDS PalcProps

VARIABLES dfn, inp, ps

\* A definition has one or more exploration scopes: an alphabet (indices into
\* toks), a length bound, and an optional fixed prefix.
Scopes == Input.scopes
Toks == Input.toks

VARIABLE scp
vars == <<scp, dfn, inp, ps>>

Tok(i) == Toks[i]
ArgvToks(a) == [i \in 1..Len(a) |-> Toks[a[i]]]

Init == /\ scp \in 1..Len(Scopes)
        /\ dfn = Scopes[scp].d
        /\ inp = Scopes[scp].prefix
        /\ ps = RunFrom(Init0(Scopes[scp].d), ArgvToks(Scopes[scp].prefix))

Room == Len(inp) < Scopes[scp].len + Len(Scopes[scp].prefix)
AlphaOf(s) == LET x == Scopes[s] IN {x.alpha[i] : i \in 1..Len(x.alpha)}
Alpha == TLCEval([s \in 1..Len(Scopes) |-> AlphaOf(s)])

Take(i, eff) == ps' = eff /\ inp' = Append(inp, i) /\ UNCHANGED <<scp, dfn>>

ReadTerminator(i) == G_Terminator(ps, Tok(i)) /\ Take(i, DoTerminator(ps, Tok(i)))
ReadLong(i) == G_Long(ps, Tok(i)) /\ Take(i, DoLong(ps, Tok(i)))
ReadBundle(i) == G_Bundle(ps, Tok(i)) /\ Take(i, DoBundle(ps, Tail(Tok(i)), 1))
EnterCommand(i) == G_EnterCommand(ps, Tok(i)) /\ Take(i, DoEnterCommand(ps, Tok(i)))
ReadFree(i) == G_Free(ps, Tok(i)) /\ Take(i, DoPositional(ps, Tok(i), FALSE))
TakeValue(i) == G_TakeValue(ps, Tok(i)) /\ Take(i, DoTakeValue(ps, Tok(i)))
RefuseValue(i) == G_RefuseValue(ps, Tok(i)) /\ Take(i, DoRefuseValue(ps, Tok(i)))
ReadRest(i) == G_Rest(ps, Tok(i)) /\ Take(i, DoPositional(ps, Tok(i), TRUE))
ReadGreedy(i) == G_Greedy(ps, Tok(i)) /\ Take(i, DoGreedy(ps, Tok(i)))
\* After an error nothing changes any more, whatever follows: one extra element
\* (from the scope's tail alphabet) is enough to see it in the implementation.
Ignore(i) == /\ G_Dead(ps, Tok(i)) /\ i \in {Scopes[scp].tail[x] : x \in 1..Len(Scopes[scp].tail)}
             /\ Take(i, ps)

Next == /\ Room
        /\ \E i \in Alpha[scp] :
             \/ ReadTerminator(i) \/ ReadLong(i) \/ ReadBundle(i) \/ EnterCommand(i) \/ ReadFree(i)
             \/ TakeValue(i) \/ RefuseValue(i) \/ ReadRest(i) \/ ReadGreedy(i) \/ Ignore(i)

Spec == Init /\ [][Next]_vars

\* Prints the test case; always true.
Emit == PrintT("CASE " \o ToJson(<<dfn, inp, Outcomes(ps)>>))

-----------------------------------------------------------------------------
(* Which checks to run is chosen per property in the generated .cfg.       *)
I_Type == TypeOK(ps)
I_GuardsPartition == Len(Scopes[scp].alpha) <= 60 => GuardsPartition(ps, {Tok(i) : i \in Alpha[scp]})
I_HistoryReplays == HistoryReplays(dfn, ps)
I_Respell == Respell(dfn, ps)
I_Rebundle == Rebundle(dfn, ps)
I_Swap == Swap(dfn, ps)
I_GlobalMove == GlobalMove(dfn, ps)
I_Inline == InlineAgrees(dfn, ps, ArgvToks(inp))
I_Conserve == Conserve(ps)
I_Positional == PositionalOrder(ps)
I_ConstraintsExact == ConstraintsExact(ps)
I_Defaults == DefaultsExact(ps)
I_Help == HelpExact(ps)
I_HelpOff == HelpOffAgrees(dfn, ps, ArgvToks(inp))
I_Twins == TwinsAreInline
I_FirstError == FirstError(dfn, ps, ArgvToks(inp))

A_WriteOnce == [][WriteOnce(ps, ps')]_vars
A_ScopeOnlyGrows == [][ScopeGrows(ps, ps')]_vars
A_AfterTerminator == [][AfterTerminator(ps, ps')]_vars
A_Greedy == [][GreedyKeeps(ps, ps', Tok(inp'[Len(inp')]))]_vars
A_ValueOrRefuse == [][ValueOrRefuse(ps, ps', Tok(inp'[Len(inp')]))]_vars
A_GlobalsOnlyOutside == [][GlobalsOnlyOutside(ps, ps')]_vars
A_ErrorFinal == [][ErrorFinal(ps, ps')]_vars
A_OneOccurrence == [][OneStep(ps, ps')]_vars

\* Prints argvs that must mean the same as the present one; always true.
Alts(kinds) ==
  (IF "replay" \in kinds THEN AltReplay(dfn, ps) ELSE {})
  \cup (IF "rebundle" \in kinds THEN AltRebundle(dfn, ps) ELSE {})
  \cup (IF "respell" \in kinds THEN AltRespell(dfn, ps) ELSE {})
  \cup (IF "swap" \in kinds THEN AltSwap(dfn, ps) ELSE {})
  \cup (IF "globalmove" \in kinds THEN AltGlobalMove(dfn, ps) ELSE {})
EmitAlts(kinds) == (TRUE /\ AtRest(ps) /\ ps.h # <<>>) => LET al == Alts(kinds) IN al = {} \/ PrintT("ALT " \o ToJson(<<dfn, al, Outcomes(ps)>>))
Alt_replay == EmitAlts({"replay"})
Alt_bundle == EmitAlts({"replay", "rebundle"})
Alt_respell == EmitAlts({"respell"})
Alt_swap == EmitAlts({"swap"})
Alt_globalmove == EmitAlts({"globalmove"})
Alt_all == EmitAlts({"replay", "rebundle", "respell", "swap", "globalmove"})

\* Prints which segments of the present argv may be repeated, and what repeating one twice does.
Weight(a) == LET RECURSIVE W(_, _)
                 W(i, x) == IF i > Len(a) THEN x ELSE W(i + 1, (x * 31 + a[i]) % 9973)
             IN W(1, dfn)
Pumped == Len(inp) - Len(Scopes[scp].prefix) \in 1..4 /\ Len(inp) <= 40 /\ Weight(inp) % Input.pump = 0
I_Pump == Pumped => PumpsOn(dfn, ps, ArgvToks(inp))
EmitPumps == Pumped =>
  \A x \in Pumps(dfn, ps, ArgvToks(inp)) :
    PrintT("PUMP " \o ToJson(<<dfn, inp, x[1], x[2], Outcomes(ps), Outcomes(RunFrom(Init0(dfn), Repeated(ArgvToks(inp), x[1], x[2], 2)))>>))
=============================================================================
