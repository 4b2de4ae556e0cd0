------------------------------ MODULE CharTable ------------------------------
(* Unicode data about the characters of a trace (constants, from $TABLES).  *)
EXTENDS Text, TLC, Json, IOUtils
LOCAL Raw == JsonDeserialize(IOEnv.TABLES)
LOCAL L == Raw.chars
(* Position of a key in a table sorted by key (both tables are). *)
RECURSIVE Position(_, _, _, _)
Position(Key(_), k, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF Key(m) < k THEN Position(Key, k, m + 1, hi) ELSE Position(Key, k, lo, m)
LOCAL CharKey(i) == L[i][1]
LOCAL Ix == TLCEval([c \in {L[i][1] : i \in DOMAIN L} |-> Position(CharKey, c, 1, Len(L))])
ASSUME \A i \in DOMAIN L : Ix[L[i][1]] = i
Known(c) == c \in DOMAIN Ix
Lower(c) == L[Ix[c]][2]
Kind(c) == L[Ix[c]][3]             \* 0 hexadecimal, 1 as itself, 2 combining mark
WordStart(c) == L[Ix[c]][4] = 1
WB(c) == L[Ix[c]][5]               \* Word_Break property (Unicode 8.0), numbered as in Words.tla
CCC(c) == L[Ix[c]][6]              \* canonical combining class
Decomposed(c) == L[Ix[c]][7]       \* full canonical decomposition
LOCAL C == Raw.comp
(* The pairs that compose; by position in the table of characters, to be sorted numbers. *)
LOCAL PairKey(i) == (Ix[C[i][1]] * 8192) + Ix[C[i][2]]
ASSUME Len(L) < 8192 /\ \A i \in DOMAIN C : i = 1 \/ PairKey(i - 1) < PairKey(i)
LOCAL Comp == TLCEval([p \in {PairKey(i) : i \in DOMAIN C} |-> C[Position(PairKey, p, 1, Len(C))][3]])
LOCAL Pair(a, b) == (Ix[a] * 8192) + Ix[b]
Composes(a, b) == Pair(a, b) \in DOMAIN Comp
Composite(a, b) == Comp[Pair(a, b)]

LowerText(t) == [i \in DOMAIN t |-> Ch(Lower(t[i].v), t[i].s)]

(***************************************************************************)
(* Displayed form of a character: a sequence of bytes.                     *)
(***************************************************************************)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE HexDigits(_, _)
HexDigits(n, width) == IF n = 0 /\ width <= 0 THEN <<>>
                       ELSE Append(HexDigits(n \div 16, width - 1), HexDigit(n % 16))
Hex(c) == <<60>> \o HexDigits(c, IF c < 256 THEN 2 ELSE 4) \o <<62>>
ShownAs(c, kind) == CASE c = NL -> <<10>>
                      [] c # NL /\ kind = 2 -> UTF8(CIRCLE) \o UTF8(c)
                      [] c # NL /\ kind = 1 -> UTF8(c)
                      [] OTHER -> Hex(c)
Shown(c) == ShownAs(c, Kind(c))
FakeNL == <<60, 92, 110, 62>>      \* <\n>
ShownInline(c) == IF c = NL THEN FakeNL ELSE Shown(c)
ShownMarked(ch, marks) == IF marks /\ ch.s THEN <<MARK>> \o Shown(ch.v) ELSE Shown(ch.v)

(***************************************************************************)
(* Normalization Form C: decompose, order marks, compose.                  *)
(***************************************************************************)
RECURSIVE Behind(_, _, _)
Behind(s, j, cc) == IF j > 0 /\ cc # 0 /\ CCC(s[j]) > cc THEN Behind(s, j - 1, cc) ELSE j
LOCAL Insert(s, c) ==   \* stable insertion of a mark behind marks of no higher class
  LET j == Behind(s, Len(s), CCC(c)) IN IF j = Len(s) THEN Append(s, c) ELSE SubSeq(s, 1, j) \o <<c>> \o SubSeq(s, j + 1, Len(s))
NFD(cs) == FoldLeft(Insert, <<>>, FlattenSeq([i \in DOMAIN cs |-> Decomposed(cs[i])]))
(* starter: index of the last starter in o (0: none); last: class of the    *)
(* last character kept after it (-1: none)                                  *)
LOCAL ComposeStep(a, c) ==
  LET cc == CCC(c)
  IN IF a.starter # 0 /\ (a.last = -1 \/ (a.last # 0 /\ a.last < cc)) /\ Composes(a.o[a.starter], c)
     THEN [a EXCEPT !.o[a.starter] = Composite(a.o[a.starter], c)]
     ELSE [o |-> Append(a.o, c),
           starter |-> IF cc = 0 THEN Len(a.o) + 1 ELSE a.starter,
           last |-> IF cc = 0 THEN -1 ELSE cc]
NFC(cs) == FoldLeft(ComposeStep, [o |-> <<>>, starter |-> 0, last |-> -1], NFD(cs)).o
=============================================================================
