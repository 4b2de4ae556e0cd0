------------------------------- MODULE Services -------------------------------
(* What the users of the list, table and sort services see: two lists of items   *)
(* (an item is in at most one), a table of entries with keys (an inserted key is *)
(* in it once). An operation is [op, args].                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Empty == [lists |-> [x \in {0, 1} |-> <<>>], tab |-> {}]
In(s, i) == \E k \in DOMAIN s : s[k] = i
Place(s, i) == CHOOSE k \in DOMAIN s : s[k] = i
InsertedAt(s, k, i) == SubSeq(s, 1, k - 1) \o <<i>> \o SubSeq(s, k, Len(s))
Removed(s, i) == SelectSeq(s, LAMBDA x : x # i)
Free(st, i) == ~In(st.lists[0], i) /\ ~In(st.lists[1], i)
KeyIn(st, key, k) == \E i \in st.tab : key[i] = k
Legal(st, key, o) ==
  CASE o.op \in {"f", "l"} -> Free(st, o.args[2])
    [] o.op = "b" -> Free(st, o.args[2]) /\ In(st.lists[o.args[1]], o.args[3])
    [] o.op = "a" -> Free(st, o.args[3]) /\ In(st.lists[o.args[1]], o.args[2])
    [] o.op = "r" -> In(st.lists[o.args[1]], o.args[2])
    [] o.op = "I" -> ~KeyIn(st, key, key[o.args[1]])
    [] o.op = "X" -> o.args[1] \in st.tab
    [] OTHER -> TRUE
Apply(st, o) ==
  LET L == o.args[1]
      s == IF o.op \in {"f", "l", "b", "a", "r", "e"} THEN st.lists[L] ELSE <<>>
      put(t) == [st EXCEPT !.lists[L] = t]
  IN CASE o.op = "f" -> put(<<o.args[2]>> \o s)
       [] o.op = "l" -> put(Append(s, o.args[2]))
       [] o.op = "b" -> put(InsertedAt(s, Place(s, o.args[3]), o.args[2]))
       [] o.op = "a" -> put(InsertedAt(s, Place(s, o.args[2]) + 1, o.args[3]))
       [] o.op = "r" -> put(Removed(s, o.args[2]))
       [] o.op = "e" -> put(<<>>)
       [] o.op = "I" -> [st EXCEPT !.tab = @ \cup {o.args[1]}]
       [] o.op = "X" -> [st EXCEPT !.tab = @ \ {o.args[1]}]
       [] o.op = "Z" -> [st EXCEPT !.tab = {}]
       [] OTHER -> st
View(s) == <<s, Reverse(s), <<Len(s)>> >>
(* v: what operation o showed (sequences of numbers), when it went from st to st2. *)
Shows(st, st2, key, o, v) ==
  CASE o.op \in {"f", "l", "b", "a", "r"} -> v = View(st2.lists[o.args[1]])
    [] o.op = "e" -> v = <<st.lists[o.args[1]]>> \o View(<<>>)
    [] o.op = "v" -> v = <<st.lists[o.args[1]]>>
    [] o.op \in {"I", "X"} -> v = << <<Cardinality(st2.tab)>> >>
    [] o.op = "T" -> Len(v) = 1 /\ Len(v[1]) = Cardinality(st.tab) /\ ToSet(v[1]) = st.tab
    [] o.op = "Z" -> Len(v) = 2 /\ Len(v[1]) = Cardinality(st.tab) /\ ToSet(v[1]) = st.tab /\ v[2] = <<0>>
    [] o.op = "?" -> v = << <<IF KeyIn(st, key, o.key) THEN CHOOSE i \in st.tab : key[i] = o.key ELSE -1>> >>
    [] OTHER -> FALSE
=============================================================================
