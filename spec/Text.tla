-------------------------------- MODULE Text --------------------------------
(* Characters and texts of ocreval.                                         *)
(* A raw text is a sequence of code points, as decoded from a file. A text  *)
(* is a sequence of characters [v |-> code point, s |-> suspect].           *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

NL == 10
SP == 32
REJ == 126      \* ~  reject character; in a correct text: wildcard
MARK == 94      \* ^  suspect marker
CIRCLE == 9676  \* U+25CC, base for combining marks

(* Blanks other than newline (Unicode Zs, Zl, Zp and four ASCII controls). *)
Blank == {9, 11, 12, 13, 32, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202

BlankNL == Blank \cup {NL}

Ch(v, s) == [v |-> v, s |-> s]
Values(t) == [i \in DOMAIN t |-> t[i].v]

(***************************************************************************)
(* Suspect markers: every ^ is dropped and marks the character after it.   *)
(***************************************************************************)
Unmarked(raw) == [i \in DOMAIN raw |-> Ch(raw[i], FALSE)]
Marked(raw) ==
  IF \A i \in DOMAIN raw : raw[i] # MARK THEN Unmarked(raw) ELSE
  FoldLeft(LAMBDA a, c : IF c = MARK THEN [a EXCEPT !.p = TRUE]
                         ELSE [t |-> Append(a.t, Ch(c, a.p)), p |-> FALSE],
           [t |-> <<>>, p |-> FALSE], raw).t

(***************************************************************************)
(* The declarative normal form of spacing.                                 *)
(***************************************************************************)
Spaced(t) == [i \in DOMAIN t |-> IF t[i].v \in Blank THEN Ch(SP, t[i].s) ELSE t[i]]

(* u is a spaced text. *)
LineStart(u, i) == LET P == {j \in 1..(i-1) : u[j].v = NL}
                   IN IF P = {} THEN 1 ELSE 1 + CHOOSE j \in P : \A k \in P : k <= j
HasInk(u, i) == \E j \in LineStart(u, i)..(i-1) : u[j].v \notin {SP, NL}
RunStart(u, i) == CHOOSE j \in 1..i : /\ \A k \in j..i : u[k].v = SP
                                      /\ (j = 1 \/ u[j-1].v # SP)
Keep(u, i) == CASE u[i].v = NL -> HasInk(u, i)
                [] u[i].v = SP -> /\ HasInk(u, i)
                                  /\ i < Len(u)
                                  /\ u[i+1].v \notin {SP, NL}
                [] OTHER -> TRUE
KeptMark(u, i) == IF u[i].v = SP THEN \E j \in RunStart(u, i)..i : u[j].s ELSE u[i].s
NormalForm(t) ==
  LET u == Spaced(t) IN
  FoldLeftDomain(LAMBDA a, i : IF Keep(u, i) THEN Append(a, Ch(u[i].v, KeptMark(u, i))) ELSE a, <<>>, u)

(***************************************************************************)
(* One step of the single pass that the tools make over a text. MCText     *)
(* shows that it computes NormalForm; traces are judged with it, because   *)
(* it is linear.                                                           *)
(*   f: some character other than newline was kept on this line            *)
(*   m: a removed space passed on its mark                                 *)
(***************************************************************************)
PassInit == [o |-> <<>>, f |-> FALSE, m |-> FALSE]
PassStep(u, a, i) ==
  LET last == i = Len(u)
      next == IF last THEN NL ELSE u[i+1].v
      drop == \/ u[i].v = SP /\ (~a.f \/ next \in {SP, NL})
              \/ u[i].v = NL /\ ~a.f
  IN IF drop
     THEN [a EXCEPT !.m = a.f /\ u[i].v = SP /\ next = SP /\ (u[i].s \/ a.m)]
     ELSE [o |-> Append(a.o, Ch(u[i].v, u[i].s \/ a.m)), f |-> u[i].v # NL, m |-> FALSE]
Normalize(t) == IF \A i \in DOMAIN t : t[i].v \notin BlankNL THEN t ELSE
                LET u == Spaced(t) IN FoldLeftDomain(LAMBDA a, i : PassStep(u, a, i), PassInit, u).o

(* What a comparison tool reads from a file with these code points. *)
ReadText(raw) == Normalize(Marked(raw))
(* Stopword files: markers are not interpreted. *)
ReadPlain(raw) == Normalize(Unmarked(raw))

(***************************************************************************)
(* UTF-8                                                                   *)
(***************************************************************************)
UTF8(c) == CASE c < 128 -> <<c>>
             [] c >= 128 /\ c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
             [] c >= 2048 /\ c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode(cs) == FlattenSeq([i \in DOMAIN cs |-> UTF8(cs[i])])
IsScalar(c) == c \in 0..55295 \/ c \in 57344..1114111

(* Byte order of strings (shorter first among prefixes). *)
RECURSIVE SeqLess(_, _)
SeqLess(x, y) == IF y = <<>> THEN FALSE
                 ELSE IF x = <<>> THEN TRUE
                 ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y)
                 ELSE SeqLess(Tail(x), Tail(y))

Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Min3(a, b, c) == Mn(a, Mn(b, c))
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA x, y : Mx(x, y), 0, s)
=============================================================================
