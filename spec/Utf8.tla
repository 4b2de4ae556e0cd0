--------------------------------- MODULE Utf8 ---------------------------------
(* Reading a text file: a byte-by-byte decoder, and the vendor header.        *)
EXTENDS Text

(* Decoder state: out = code points so far, need = continuation bytes still   *)
(* expected, val = bits so far, lo = least value the sequence may encode,     *)
(* err = "" or what is wrong.                                                 *)
DecInit == [out |-> <<>>, need |-> 0, val |-> 0, lo |-> 0, err |-> ""]
DecStep(d, b) ==
  IF d.err # "" THEN d
  ELSE IF d.need = 0
  THEN CASE b < 128 -> [d EXCEPT !.out = Append(@, b)]
         [] b \in 194..223 -> [d EXCEPT !.need = 1, !.val = b - 192, !.lo = 128]
         [] b \in 224..239 -> [d EXCEPT !.need = 2, !.val = b - 224, !.lo = 2048]
         [] b \in 240..244 -> [d EXCEPT !.need = 3, !.val = b - 240, !.lo = 65536]
         [] OTHER -> [d EXCEPT !.err = "bad first byte"]
  ELSE IF b \notin 128..191 THEN [d EXCEPT !.err = "bad continuation byte"]
  ELSE LET v == d.val * 64 + (b - 128)
       IN IF d.need > 1 THEN [d EXCEPT !.need = @ - 1, !.val = v]
          ELSE IF v < d.lo \/ ~IsScalar(v) THEN [d EXCEPT !.err = "not a scalar value in shortest form"]
          ELSE [d EXCEPT !.need = 0, !.val = 0, !.out = Append(@, v)]
Decode(bytes) == LET d == FoldLeft(DecStep, DecInit, bytes)
                 IN [ok |-> d.err = "" /\ d.need = 0, t |-> d.out]

(* "ocreval Vendor-Independent Interface Version " *)
Title == <<111,99,114,101,118,97,108,32,86,101,110,100,111,114,45,73,110,100,101,112,101,110,100,101,110,116,32,
           73,110,116,101,114,102,97,99,101,32,86,101,114,115,105,111,110,32>>
Divider == [i \in 1..48 |-> 45]
HasHeader(bytes) == Len(bytes) >= Len(Title) /\ SubSeq(bytes, 1, Len(Title)) = Title
(* The contents start after the second line that is a divider. *)
LineEnds(bytes) == SelectSeq([i \in DOMAIN bytes |-> i], LAMBDA i : bytes[i] = 10)
AfterHeader(bytes) ==
  LET ends == LineEnds(bytes)
      From(k) == IF k = 1 THEN 1 ELSE ends[k-1] + 1
      div == SelectSeq([k \in DOMAIN ends |-> k], LAMBDA k : k > 1 /\ SubSeq(bytes, From(k), ends[k] - 1) = Divider)
  IN IF Len(div) < 2 THEN <<>> ELSE SubSeq(bytes, ends[div[2]] + 1, Len(bytes))
Contents(bytes) == IF HasHeader(bytes) THEN AfterHeader(bytes) ELSE bytes
=============================================================================
