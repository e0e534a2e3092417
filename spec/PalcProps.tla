------------------------------ MODULE PalcProps ------------------------------
(***************************************************************************)
(* The listed properties (properties.jsonl) as theorems about the machine  *)
(* of Palc.tla: state predicates, predicates over pairs of consecutive     *)
(* states, and "metamorphic" statements that run the machine on a          *)
(* rewritten argv.  TLC evaluates them in every explored state/step.       *)
(***************************************************************************)
EXTENDS Palc

Modes == {"scan", "value", "rest", "greedy", "fail", "help"}

TypeOK(st) ==
  /\ st.m \in Modes
  /\ Len(st.lv) >= 1
  /\ (st.m \in {"fail", "help"}) <=> (st.e # {})
  /\ (st.m = "value") => st.pend.l \in 1..Len(st.lv)
  /\ \A l \in 1..Len(st.lv) : st.lv[l].np \in 1..(Len(NodeAt(st, l).posord) + 1)
  /\ \A l \in 1..Len(st.lv) : (st.lv[l].c # 0) <=> (l < Len(st.lv))

\* Every live state and element has exactly one applicable kind of step.
GuardsPartition(st, toks) ==
  \A t \in toks :
    Cardinality({x \in 1..10 :
       CASE x = 1 -> G_Terminator(st, t) [] x = 2 -> G_Long(st, t) [] x = 3 -> G_Bundle(st, t)
         [] x = 4 -> G_EnterCommand(st, t) [] x = 5 -> G_Free(st, t) [] x = 6 -> G_TakeValue(st, t)
         [] x = 7 -> G_RefuseValue(st, t) [] x = 8 -> G_Rest(st, t) [] x = 9 -> G_Greedy(st, t)
         [] x = 10 -> G_Dead(st, t)}) = 1

-----------------------------------------------------------------------------
(* Spelling a history.                                                     *)

IsShort(nm) == Len(nm) = 1
NameTok(nm) == IF IsShort(nm) THEN <<"-">> \o nm ELSE nm

Spell(it) ==
  CASE it.t = "pos" -> <<it.val>>
    [] it.t = "cmd" -> <<it.nm>>
    [] it.t = "dd" -> << <<"-", "-">> >>
    [] it.how = "none" -> <<NameTok(it.nm)>>
    [] it.how = "eq" -> <<NameTok(it.nm) \o <<"=">> \o it.val>>
    [] it.how = "att" -> <<NameTok(it.nm) \o it.val>>
    [] it.how = "sep" -> <<NameTok(it.nm), it.val>>

SpellAll(h) == Flat([x \in 1..Len(h) |-> Spell(h[x])])

LegalHow(f, how, nm, it) ==
  CASE how = "none" -> it.how = "none"
    [] it.how = "none" -> FALSE
    [] how = "eq" -> TRUE
    [] how = "att" -> IsShort(nm) /\ f.reqval /\ ~f.reqeq /\ it.val # <<>> /\ it.val[1] # "="
    [] how = "sep" -> f.reqval /\ ~f.reqeq /\ TakesValue(f, it.val)

TopAtItem(h, x) == 1 + Cardinality({y \in 1..(x - 1) : h[y].t = "cmd"})

Agree(st, d, argv) == Outcomes(RunFrom([Init0(d) EXCEPT !.hp = st.hp], argv)) = Outcomes(st)

\* Every theorem of this group says: the argvs in some set all mean the same as
\* the one that led here.  The sets are also printed, so that the very same
\* argvs are replayed on the implementation.
AllAgree(d, st, argvs) == \A a \in argvs : Agree(st, d, a)

\* A history, written out one occurrence at a time, means the same (C02: no bundles left).
AltReplay(d, st) == IF AtRest(st) THEN {SpellAll(st.h)} ELSE {}
HistoryReplays(d, st) == AllAgree(d, st, AltReplay(d, st))

\* C02, other direction: glue neighbouring value-less short arguments together.
IsShortFlag(st, it) == it.t = "named" /\ IsShort(it.nm) /\ it.how = "none"
                       /\ FieldAt(st, it.l, it.k, it.i).kind = "bool"
                       /\ ~FieldAt(st, it.l, it.k, it.i).reqeq   \* `require_equals` forbids anything right after the name
IsShortItem(it) == it.t = "named" /\ IsShort(it.nm)
RECURSIVE Bundled(_, _, _)
Bundled(st, h, acc) ==    \* acc: characters of flags collected so far
  IF h = <<>> THEN (IF acc = <<>> THEN <<>> ELSE << <<"-">> \o acc >>)
  ELSE LET it == Head(h)
       IN IF IsShortFlag(st, it) THEN Bundled(st, Tail(h), acc \o it.nm)
          ELSE IF IsShortItem(it)
          THEN LET sp == Spell(it) IN << <<"-">> \o acc \o Tail(sp[1]) >> \o Tail(sp) \o Bundled(st, Tail(h), <<>>)
          ELSE (IF acc = <<>> THEN <<>> ELSE << <<"-">> \o acc >>) \o Spell(it) \o Bundled(st, Tail(h), <<>>)
AltRebundle(d, st) == IF AtRest(st) THEN {Bundled(st, st.h, <<>>)} ELSE {}
Rebundle(d, st) == AllAgree(d, st, AltRebundle(d, st))

\* C01: any single occurrence may be re-spelled with any of its names and forms.
NamedItems(st) == IF AtRest(st) THEN {x \in 1..Len(st.h) : st.h[x].t = "named"} ELSE {}
AltRespell(d, st) ==
  UNION {
    LET it == st.h[x]
        f == FieldAt(st, it.l, it.k, it.i)
        top == TopAtItem(st.h, x)
    IN {SpellAll([st.h EXCEPT ![x].nm = w[1], ![x].how = w[2]]) :
          w \in {w \in f.nameset \X {"none", "eq", "att", "sep"} :
                   LegalHow(f, w[2], w[1], it) /\ SearchFrom(st, top, w[1]) = [l |-> it.l, k |-> it.k, i |-> it.i]}}
    : x \in NamedItems(st)}
Respell(d, st) == AllAgree(d, st, AltRespell(d, st))

Swapped(h, x) == [h EXCEPT ![x] = h[x + 1], ![x + 1] = h[x]]
SameRef(a, b) == a.l = b.l /\ a.k = b.k /\ a.i = b.i
DDBefore(h, x) == \E y \in 1..(x - 1) : h[y].t = "dd"
\* C21: neighbouring occurrences of different arguments commute, and a named one
\* commutes with a free argument (no `--` or trailing variable argument before).
Swappable(st, x) ==
  LET a == st.h[x]  b == st.h[x + 1]
      plainpos(it) == it.t = "pos" /\ ~FieldAt(st, it.l, it.k, it.i).greedy
  IN \/ a.t = "named" /\ b.t = "named" /\ ~SameRef(a, b)
     \/ a.t = "named" /\ plainpos(b) /\ ~DDBefore(st.h, x)
     \/ plainpos(a) /\ b.t = "named"
AltSwap(d, st) == IF AtRest(st) THEN {SpellAll(Swapped(st.h, x)) : x \in {y \in 1..(Len(st.h) - 1) : Swappable(st, y)}} ELSE {}
Swap(d, st) == AllAgree(d, st, AltSwap(d, st))

\* C08: an occurrence of a global argument may be moved to any other place between its own
\* command's name and the end, as long as its name denotes the same argument there and
\* it does not overtake another occurrence of itself.
MoveItem(h, x, y) ==   \* take item x out and put it before (old) item y
  IF y <= x THEN SubSeq(h, 1, y - 1) \o <<h[x]>> \o SubSeq(h, y, x - 1) \o SubSeq(h, x + 1, Len(h))
  ELSE SubSeq(h, 1, x - 1) \o SubSeq(h, x + 1, y - 1) \o <<h[x]>> \o SubSeq(h, y, Len(h))
AltGlobalMove(d, st) ==
  UNION {
    LET it == st.h[x]
    IN {SpellAll(MoveItem(st.h, x, y)) :
          y \in {y \in (1..(Len(st.h) + 1)) \ {x, x + 1} :
             LET lo == IF y < x THEN y ELSE x + 1
                 hi == IF y < x THEN x - 1 ELSE y - 1
                 top == TopAtItem(st.h, y)
             IN /\ top >= it.l
                /\ \A z \in lo..hi : ~(st.h[z].t = "named" /\ SameRef(st.h[z], it))
                /\ \A z \in 1..(y - 1) : st.h[z].t # "dd" /\
                      (st.h[z].t = "pos" => ~FieldAt(st, st.h[z].l, st.h[z].k, st.h[z].i).greedy)
                /\ SearchFrom(st, top, it.nm) = [l |-> it.l, k |-> it.k, i |-> it.i]}}
    : x \in {x \in NamedItems(st) : FieldAt(st, st.h[x].l, st.h[x].k, st.h[x].i).global}}
GlobalMove(d, st) == AllAgree(d, st, AltGlobalMove(d, st))

-----------------------------------------------------------------------------
(* C09: flattening is inlining.                                            *)

\* The inline form of a definition (source level): each command's structs are
\* concatenated; references inside a struct are shifted.
RECURSIVE SumLen(_, _, _)
SumLen(nodes, ss, k) == IF k = 0 THEN 0 ELSE SumLen(nodes, ss, k - 1) + Len(nodes[ss[k]].fields)
ShiftField(f, off) == [f EXCEPT !.requires = [x \in 1..Len(@) |-> @[x] + off],
                                !.confl = [x \in 1..Len(@) |-> @[x] + off]]
InlineNode(nodes, n) ==
  LET ss == Structs(nodes, n)
  IN [nodes[n] EXCEPT
        !.fields = Flat([k \in 1..Len(ss) |->
                      [i \in 1..Len(nodes[ss[k]].fields) |-> ShiftField(nodes[ss[k]].fields[i], SumLen(nodes, ss, k - 1))]]),
        !.flats = <<>>]
InlineDef(df) == [n \in 1..Len(df.nodes) |-> InlineNode(df.nodes, n)]

Twin(d) == Defs[d].twin     \* index of the inline twin, 0 if none
TwinsAreInline == \A d \in 1..Len(Defs) : Twin(d) # 0 => /\ Defs[Twin(d)].nodes = InlineDef(Defs[d])
                                                          /\ Defs[Twin(d)].root = Defs[d].root

RECURSIVE FlatFields(_)
FlatFields(v) == v.f \o Flat([j \in 1..Len(v.fl) |-> FlatFields(v.fl[j])])
RECURSIVE ProjV(_)
ProjV(v) == [f |-> FlatFields(v), fl |-> <<>>,
             sub |-> IF v.sub = <<>> THEN <<>> ELSE <<[n |-> v.sub[1].n, v |-> ProjV(v.sub[1].v)]>>]
ProjO(o) == IF o.k = "ok" THEN [o EXCEPT !.v = <<ProjV(@[1])>>] ELSE o

InlineAgrees(d, st, argv) ==
  Twin(d) # 0 => {ProjO(o) : o \in Outcomes(st)} = Outcomes(Run(Twin(d), argv))

-----------------------------------------------------------------------------
(* C10, C04, C05, C11, C12: what the result must be, said from the history *)
(* alone.                                                                  *)

Refs(st) == UNION {UNION {{[l |-> l, k |-> k, i |-> i] : i \in 1..Len(st.lv[l].vals[k])}
                           : k \in 1..Len(st.lv[l].vals)} : l \in 1..Len(st.lv)}
ItemsOf(st, r) == SelectSeq(st.h, LAMBDA it : it.t \in {"named", "pos"} /\ SameRef(it, r))
PV(st, r) == st.lv[r.l].vals[r.k][r.i]

ConvItem(f, it) ==
  LET frags == IF f.isvec /\ f.delim # <<>> THEN SplitAt(it.val, f.delim[1]) ELSE <<it.val>>
  IN [x \in 1..Len(frags) |-> ParseVal(f.ty, IF f.icase THEN LowerSyms(frags[x]) ELSE frags[x]).v]

Conserve(st) ==
  AtRest(st) =>
    \A r \in Refs(st) :
      LET f == FieldAt(st, r.l, r.k, r.i)
          its == ItemsOf(st, r)
          pv == PV(st, r)
      IN /\ its = <<>> <=> pv = Unset
         /\ f.isvec => pv.v = Flat([x \in 1..Len(its) |-> ConvItem(f, its[x])])
         /\ ~f.isvec => Len(its) <= 1
         /\ (~f.isvec /\ its # <<>> /\ its[1].how # "none") => pv.v = ConvItem(f, its[1])

\* The j-th free value of a command goes to the j-th single field, or to the
\* variable one when the singles are used up; with a `last` field, everything
\* after `--` and nothing else goes there.
PositionalOrder(st) ==
  AtRest(st) =>
    \A l \in 1..Len(st.lv) :
      LET nd == NodeAt(st, l)
          po == nd.posord
          haslast == po # <<>> /\ nd.fields[po[Len(po)]].last
          ddAt == {x \in 1..Len(st.h) : st.h[x].t = "dd"}
          ddx == IF ddAt = {} \/ l # Top(st) THEN Len(st.h) + 1 ELSE CHOOSE x \in ddAt : TRUE
          mine == {x \in 1..Len(st.h) : st.h[x].t = "pos" /\ st.h[x].l = l}
          rank(x) == Cardinality({y \in mine : y <= x})
          want(x) == IF haslast /\ x > ddx THEN po[Len(po)]
                     ELSE LET firstopen == {j \in 1..Len(po) : nd.fields[po[j]].isvec \/ nd.fields[po[j]].greedy}
                              cap == IF firstopen = {} THEN Len(po) ELSE CHOOSE j \in firstopen : \A k \in firstopen : j <= k
                          IN po[IF rank(x) < cap THEN rank(x) ELSE cap]
      IN \A x \in mine : st.h[x].i = want(x) /\ (haslast /\ x < ddx => ~nd.fields[st.h[x].i].last)

Given(st, l, k, i) == \E x \in 1..Len(st.h) : st.h[x].t \in {"named", "pos"} /\ st.h[x].l = l /\ st.h[x].k = k /\ st.h[x].i = i
\* The accepted combinations, declaratively.
Satisfies(st) ==
  \A l \in 1..Len(st.lv) : \A k \in 1..Len(st.lv[l].vals) :
    LET nd == RT[st.d].nodes[NodeAt(st, l).ss[k]]
        G(i) == Given(st, l, k, i)
        cmd == \E x \in 1..Len(st.h) : st.h[x].t = "cmd" /\ st.h[x].l = l
    IN /\ \A i \in 1..Len(nd.fields) :
            LET f == nd.fields[i]
            IN /\ f.req => G(i)
               /\ G(i) => /\ \A x \in 1..Len(f.requires) : G(f.requires[x])
                          /\ \A x \in 1..Len(f.confl) : ~G(f.confl[x])
                          /\ f.excl => /\ \A j \in 1..Len(nd.fields) : j # i => ~G(j)
                                       /\ k = 1 => ~cmd
       /\ (k = 1 /\ nd.hassub /\ ~nd.subopt) => cmd
ConstraintsExact(st) ==
  AtRest(st) => /\ (\E o \in Outcomes(st) : o.k = "ok") <=> Satisfies(st)
                /\ Satisfies(st) => Cardinality(Outcomes(st)) = 1

RECURSIVE ValAt(_, _, _, _)
\* The result record of struct k of level l inside result v.
SubResult(st, v, l) == v
ValAt(st, v, l, cur) == IF cur = l THEN v ELSE ValAt(st, v.sub[1].v, l, cur + 1)

DefaultsExact(st) ==
  AtRest(st) =>
    \A o \in Outcomes(st) : o.k = "ok" =>
      \A l \in 1..Len(st.lv) :
        LET all == FlatFields(ValAt(st, o.v[1], l, 1))
            ss == NodeAt(st, l).ss
            off(k) == SumLen(RT[st.d].nodes, ss, k - 1)
        IN \A k \in 1..Len(ss) : \A i \in 1..Len(RT[st.d].nodes[ss[k]].fields) :
             LET f == RT[st.d].nodes[ss[k]].fields[i]
                 res == all[off(k) + i]
                 its == ItemsOf(st, [l |-> l, k |-> k, i |-> i])
             IN IF its = <<>>
                THEN CASE f.dflt.m = "str" -> res.v = ConvItem(f, [val |-> f.dflt.v])
                       [] f.dflt.m = "expr" -> res.v = f.dflt.val.v
                       [] f.kind = "bool" -> res.v = <<Txt_false>>
                       [] f.kind \in {"option", "optopt", "optvec"} -> res.p = "N"
                       [] f.kind = "vec" -> res.v = <<>>
                ELSE its[1].how # "none" => res.v = Flat([x \in 1..Len(its) |-> ConvItem(f, its[x])])

-----------------------------------------------------------------------------
(* Repetition.  When some elements, read once more, only add further values *)
(* to one list, they do so however often they are repeated: argvs of any    *)
(* length behave like short ones (C04, C05, C06, C08, C10).                 *)

\* The places in which two states differ; nothing else about them differs.
Changed(s, t) == {r \in Refs(s) : PV(s, r) # PV(t, r)}
OnlyGrew(s, t) ==
  /\ s.m = t.m /\ s.path = t.path /\ s.pend = t.pend /\ Len(s.lv) = Len(t.lv)
  /\ \A l \in 1..Len(s.lv) : s.lv[l].n = t.lv[l].n /\ s.lv[l].np = t.lv[l].np /\ s.lv[l].c = t.lv[l].c
  /\ Cardinality(Changed(s, t)) = 1
  /\ \A r \in Changed(s, t) : /\ FieldAt(s, r.l, r.k, r.i).isvec
                             /\ PV(s, r).p = "V" /\ PV(t, r).p = "V"
                             /\ StartsWith(PV(t, r).v, PV(s, r).v)
Growth(s, t) == LET r == CHOOSE x \in Changed(s, t) : TRUE IN [r |-> r, x |-> From(PV(t, r).v, Len(PV(s, r).v) + 1)]

\* Segments argv[j..j+n-1] that may be repeated.
Segment(argv, j, n) == SubSeq(argv, j, j + n - 1)
PumpAt(d, st, argv, j, n) ==
  LET S == Segment(argv, j, n)
      t == RunFrom([Init0(d) EXCEPT !.hp = st.hp], SubSeq(argv, 1, j + n - 1))
  IN IF Alive(t) THEN LET u == RunFrom(t, S) IN Alive(u) /\ OnlyGrew(t, u) ELSE FALSE
Pumps(d, st, argv) == {x \in (1..Len(argv)) \X {1, 2} : x[1] + x[2] - 1 <= Len(argv) /\ PumpAt(d, st, argv, x[1], x[2])}
Repeated(argv, j, n, k) == SubSeq(argv, 1, j - 1) \o Flat([y \in 1..k |-> Segment(argv, j, n)]) \o From(argv, j + n)
PumpsOn(d, st, argv) ==
  \A x \in Pumps(d, st, argv) :
    LET s0 == [Init0(d) EXCEPT !.hp = st.hp]
        a(k) == RunFrom(s0, SubSeq(Repeated(argv, x[1], x[2], k), 1, x[1] - 1 + k * x[2]))
        one == a(1)  two == a(2)  three == a(3)
    IN /\ OnlyGrew(two, three)
       /\ Growth(two, three) = Growth(one, two)

-----------------------------------------------------------------------------
(* C16, C19, C15.                                                          *)

HelpExact(st) ==
  st.m = "help" =>
    /\ st.hp
    /\ st.e = {HelpO([x \in 1..Len(SelectSeq(st.h, LAMBDA it : it.t = "cmd")) |->
                        SelectSeq(st.h, LAMBDA it : it.t = "cmd")[x].nm])}
    /\ \/ Search(st, <<"h">>).l = 0
       \/ Search(st, <<"-", "-", "h", "e", "l", "p">>).l = 0

HelpOffAgrees(d, st, argv) ==
  LET other == RunFrom([Init0(d) EXCEPT !.hp = ~st.hp], argv)
  IN /\ (st.m # "help" /\ other.m # "help") => Outcomes(other) = Outcomes(st)
     /\ (st.m = "help") => other.m = "fail"

\* Errors are those of the shortest failing prefix.
FirstError(d, st, argv) ==
  st.m = "fail" =>
    \E n \in 1..Len(argv) :
      LET s0 == RunFrom([Init0(d) EXCEPT !.hp = st.hp], SubSeq(argv, 1, n - 1))
          s1 == RunFrom([Init0(d) EXCEPT !.hp = st.hp], SubSeq(argv, 1, n))
      IN Alive(s0) /\ s1.m = "fail" /\ s1.e = st.e

-----------------------------------------------------------------------------
(* Step properties.                                                        *)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* Single-valued places are written at most once; lists only grow at the end.
WriteOnce(s, t) ==
  \A r \in Refs(s) :
    LET f == FieldAt(s, r.l, r.k, r.i)
    IN IF f.isvec THEN IsPrefixOf(PV(s, r).v, PV(t, r).v)
       ELSE PV(s, r) # Unset => PV(t, r) = PV(s, r)

ScopeGrows(s, t) ==
  /\ Len(t.lv) >= Len(s.lv) /\ Len(t.lv) <= Len(s.lv) + 1
  /\ \A l \in 1..Len(s.lv) : t.lv[l].n = s.lv[l].n /\ (l < Len(s.lv) => t.lv[l].c = s.lv[l].c /\ t.lv[l].np = s.lv[l].np)
  /\ IsPrefixOf(s.path, t.path)

AfterTerminator(s, t) ==
  s.m = "rest" => /\ t.m \in {"rest", "greedy", "fail"}
                  /\ Len(t.lv) = Len(s.lv)
                  /\ t.m # "fail" => /\ Len(t.h) = Len(s.h) + 1
                                     /\ t.h[Len(t.h)].t = "pos"

GreedyKeeps(s, t, tok) ==
  s.m = "greedy" => /\ t.m \in {"greedy", "fail"}
                    /\ Len(t.lv) = Len(s.lv)
                    /\ t.m = "greedy" => /\ t.pend = s.pend
                                         /\ t.h = Append(s.h, Hist("pos", s.pend.l, s.pend.k, s.pend.i, <<>>, "", tok))

ValueOrRefuse(s, t, tok) ==
  s.m = "value" => \/ /\ t.m = "scan"
                      /\ Len(t.h) = Len(s.h) + 1
                      /\ LET it == t.h[Len(t.h)] IN SameRef(it, s.pend) /\ it.val = tok
                   \/ t.m = "fail"

\* Between two states, places of outer commands change only for global arguments.
GlobalsOnlyOutside(s, t) ==
  \A r \in Refs(s) :
    (r.l < Top(t) /\ PV(s, r) # PV(t, r)) => FieldAt(s, r.l, r.k, r.i).global

ErrorFinal(s, t) == s.m \in {"fail", "help"} => t = s

\* A step adds at least one occurrence, or waits for a value, or ends parsing.
OneStep(s, t) == \/ Len(t.h) > Len(s.h)
                 \/ t.m \in {"value", "fail", "help"}
=============================================================================
