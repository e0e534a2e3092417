------------------------------ MODULE Symbols ------------------------------
(***************************************************************************)
(* Text as the parser sees it.                                             *)
(*                                                                         *)
(* A piece of text (an argv element, a name, a value) is a sequence of     *)
(* SYMBOLS.  A symbol is a TLA+ string that stands for                     *)
(*   - one ASCII character          "a" "-" "="                            *)
(*   - one other Unicode character  "u6211"    (code point, hexadecimal)   *)
(*   - an ASCII control character   "u000A"                                *)
(*   - one byte that is not part of any UTF-8 character   "xFF"            *)
(*   - a run of n >= 200 letters z               "L4096"                  *)
(* so equality of texts is equality of the underlying byte strings, the    *)
(* length of a text is its number of characters, and a text is valid UTF-8 *)
(* iff it contains no invalid-byte symbol.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

HexD == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
InvalidSyms == { "x" \o HexD[i] \o HexD[j] : i \in 9..16, j \in 1..16 }

UC == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
        "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LC == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
        "n","o","p","q","r","s","t","u","v","w","x","y","z">>
DC == <<"0","1","2","3","4","5","6","7","8","9">>
UpperSet == {UC[i] : i \in 1..26}
LowerSet == {LC[i] : i \in 1..26}
DigitSet == {DC[i] : i \in 1..10}
ToLowerMap == [c \in UpperSet |-> LC[CHOOSE i \in 1..26 : UC[i] = c]]
ToUpperMap == [c \in LowerSet |-> UC[CHOOSE i \in 1..26 : LC[i] = c]]
DigitVal == [c \in DigitSet |-> (CHOOSE i \in 1..10 : DC[i] = c) - 1]
ControlSet == {"u000" \o HexD[i] : i \in 1..16} \cup {"u001" \o HexD[i] : i \in 1..16} \cup {"u007F"}

ToLower1(c) == IF c \in UpperSet THEN ToLowerMap[c] ELSE c
ToUpper1(c) == IF c \in LowerSet THEN ToUpperMap[c] ELSE c
\* Some letters beyond ASCII (identifiers may contain any): one lower/upper pair
\* per line of the table, and sharp s, whose upper case is two letters.
XPairs == << <<"u00F6", "u00D6">>, <<"u00E9", "u00C9">>, <<"u00FC", "u00DC">>, <<"u00F1", "u00D1">>, <<"u03C9", "u03A9">> >>
XLower == {XPairs[i][1] : i \in 1..Len(XPairs)} \cup {"u00DF"}
XUpper == {XPairs[i][2] : i \in 1..Len(XPairs)}
IsLow(c) == c \in LowerSet \/ c \in XLower
IsUp(c) == c \in UpperSet \/ c \in XUpper
LowU(c) == IF c \in XUpper THEN XPairs[CHOOSE i \in 1..Len(XPairs) : XPairs[i][2] = c][1] ELSE ToLower1(c)
UpU(c) == IF c = "u00DF" THEN <<"S", "S">>
          ELSE IF c \in XLower THEN <<XPairs[CHOOSE i \in 1..Len(XPairs) : XPairs[i][1] = c][2]>> ELSE <<ToUpper1(c)>>
\* ASCII case folding (what `ignore_case` does).
LowerSyms(s) == [i \in 1..Len(s) |-> ToLower1(s[i])]

IsUtf8(s) == \A i \in 1..Len(s) : s[i] \notin InvalidSyms
IsDigits(s) == \A i \in 1..Len(s) : s[i] \in DigitSet

\* Index of the first occurrence of symbol c in s at or after i, or 0.
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE IndexFrom(s, c, i + 1)

From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* Split at every occurrence of the one-symbol delimiter, keeping empty fragments.
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET k == IndexFrom(s, c, 1)
                 IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitAt(From(s, k + 1), c)

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

-----------------------------------------------------------------------------
(* Case conversion of identifiers, as documented for names derived from    *)
(* Rust identifiers: the identifier is cut into words at underscores and   *)
(* at case changes; the words are re-cased and re-joined.                  *)

RECURSIVE CutWord(_, _, _, _)
\* s: a maximal alphanumeric run; i: scan position; init: start of the word; mode
CutWord(s, i, init, mode) ==
  IF i > Len(s) THEN <<>>
  ELSE IF i = Len(s) THEN <<SubSeq(s, init, Len(s))>>
  ELSE LET c == s[i]  n == s[i + 1]
           nm == IF IsLow(c) THEN "l" ELSE IF IsUp(c) THEN "u" ELSE mode
       IN IF nm = "l" /\ IsUp(n)
          THEN <<SubSeq(s, init, i)>> \o CutWord(s, i + 1, i + 1, "b")
          ELSE IF mode = "u" /\ IsUp(c) /\ IsLow(n)
          THEN <<SubSeq(s, init, i - 1)>> \o CutWord(s, i + 1, i, "b")
          ELSE CutWord(s, i + 1, init, nm)

Words(id) == LET runs == SplitAt(id, "_")
             IN Flat([i \in 1..Len(runs) |-> CutWord(runs[i], 1, 1, "b")])

LowerU(s) == [i \in 1..Len(s) |-> LowU(s[i])]
UpperU(s) == Flat([i \in 1..Len(s) |-> UpU(s[i])])
Capital(w) == IF w = <<>> THEN <<>> ELSE UpU(w[1]) \o LowerU(Tail(w))
MapW(ws, Op(_)) == [i \in 1..Len(ws) |-> Op(ws[i])]

Rename(id, rule) ==
  CASE rule = "kebab-case" -> Join(MapW(Words(id), LowerU), <<"-">>)
    [] rule = "snake_case" -> Join(MapW(Words(id), LowerU), <<"_">>)
    [] rule = "SCREAMING_SNAKE_CASE" -> Join(MapW(Words(id), UpperU), <<"_">>)
    [] rule = "PascalCase" -> Flat(MapW(Words(id), Capital))
    [] rule = "camelCase" -> LET ws == Words(id)
                             IN IF ws = <<>> THEN <<>>
                                ELSE LowerU(ws[1]) \o Flat(MapW(Tail(ws), Capital))
    [] rule = "lower" -> LowerU(id)
    [] rule = "UPPER" -> UpperU(id)
    [] rule = "verbatim" -> id
=============================================================================
