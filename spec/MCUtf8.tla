------------------------------- MODULE MCUtf8 -------------------------------
(* The decoder consumes one byte per step; it must accept exactly the byte  *)
(* strings that are encodings of scalar values.                             *)
EXTENDS Utf8, TLC
CONSTANTS Bytes, MaxLen
VARIABLES in, d
vars == <<in, d>>
Init == in = <<>> /\ d = DecInit
Next == /\ Len(in) < MaxLen
        /\ \E b \in Bytes : in' = Append(in, b) /\ d' = DecStep(d, b)
Spec == Init /\ [][Next]_vars
Accepted == d.err = "" /\ d.need = 0
(* Bytes that begin characters, and the loose reading of each character. *)
RECURSIVE Loose(_)
Loose(s) ==
  IF s = <<>> THEN <<>> ELSE
  LET b == Head(s)
      n == CASE b < 128 -> 1 [] b \in 192..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..247 -> 4 [] OTHER -> 99
  IN IF n > Len(s) \/ \E i \in 2..n : s[i] \notin 128..191 THEN <<-1>>
     ELSE LET v == CASE n = 1 -> b
                     [] n = 2 -> (b - 192) * 64 + (s[2] - 128)
                     [] n = 3 -> ((b - 224) * 64 + (s[2] - 128)) * 64 + (s[3] - 128)
                     [] OTHER -> (((b - 240) * 64 + (s[2] - 128)) * 64 + (s[3] - 128)) * 64 + (s[4] - 128)
          IN <<v>> \o Loose(SubSeq(s, n + 1, Len(s)))
Valid == LET c == Loose(in) IN (\A i \in DOMAIN c : IsScalar(c[i])) /\ Encode(c) = in
ExactlyUTF8 == Accepted <=> Valid
RoundTrip == Accepted => Encode(d.out) = in
ErrorIsFinal == [][d.err # "" => d'.err = d.err]_vars
=============================================================================
