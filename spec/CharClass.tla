------------------------------ MODULE CharClass ------------------------------
(* The character classes of accuracy reports: disjoint ranges of code points.  *)
(* Characters in no range are "Unassigned".                                    *)
EXTENDS Naturals, Sequences
Ranges == <<
  <<0, 8, "ASCII Control Codes">>,
  <<9, 13, "ASCII Spacing Characters">>,
  <<14, 31, "ASCII Control Codes">>,
  <<32, 32, "ASCII Spacing Characters">>,
  <<33, 47, "ASCII Special Symbols">>,
  <<48, 57, "ASCII Digits">>,
  <<58, 64, "ASCII Special Symbols">>,
  <<65, 90, "ASCII Uppercase Letters">>,
  <<91, 96, "ASCII Special Symbols">>,
  <<97, 122, "ASCII Lowercase Letters">>,
  <<123, 126, "ASCII Special Symbols">>,
  <<127, 127, "ASCII Control Codes">>,
  <<128, 159, "Latin1 Control Codes">>,
  <<160, 160, "Latin1 Spacing Characters">>,
  <<161, 191, "Latin1 Special Symbols">>,
  <<192, 214, "Latin1 Uppercase Letters">>,
  <<215, 215, "Latin1 Special Symbols">>,
  <<216, 222, "Latin1 Uppercase Letters">>,
  <<223, 246, "Latin1 Lowercase Letters">>,
  <<247, 247, "Latin1 Special Symbols">>,
  <<248, 255, "Latin1 Lowercase Letters">>,
  <<256, 383, "Latin Extended-A">>,
  <<384, 591, "Latin Extended-B">>,
  <<592, 687, "IPA Extensions">>,
  <<688, 767, "Spacing Modifier Letters">>,
  <<768, 879, "Combining Diacritical Marks">>,
  <<880, 975, "Basic Greek">>,
  <<976, 1023, "Greek Symbols and Coptic">>,
  <<1024, 1279, "Cyrillic">>,
  <<1328, 1423, "Armenian">>,
  <<1424, 1487, "Hebrew Extended-A">>,
  <<1488, 1514, "Basic Hebrew">>,
  <<1515, 1535, "Hebrew Extended-B">>,
  <<1536, 1618, "Basic Arabic">>,
  <<1619, 1791, "Arabic Extended">>,
  <<2304, 2431, "Devanagari">>,
  <<2432, 2559, "Bengali">>,
  <<2560, 2687, "Gurmukhi">>,
  <<2688, 2815, "Gujarati">>,
  <<2816, 2943, "Oriya">>,
  <<2944, 3071, "Tamil">>,
  <<3072, 3199, "Telugu">>,
  <<3200, 3327, "Kannada">>,
  <<3328, 3455, "Malayalam">>,
  <<3584, 3711, "Thai">>,
  <<3712, 3839, "Lao">>,
  <<4256, 4303, "Georgian Extended">>,
  <<4304, 4351, "Basic Georgian">>,
  <<4352, 4607, "Hanguljamo">>,
  <<7680, 7935, "Latin Extended Additional">>,
  <<7936, 8191, "Greek Extended">>,
  <<8192, 8303, "General Punctuation">>,
  <<8304, 8351, "Superscripts and Subscripts">>,
  <<8352, 8399, "Currency Symbols">>,
  <<8400, 8447, "Combining Diacritical Marks for Symbols">>,
  <<8448, 8527, "Letterlike Symbols">>,
  <<8528, 8591, "Number Forms">>,
  <<8592, 8703, "Arrows">>,
  <<8704, 8959, "Mathematical Operators">>,
  <<8960, 9215, "Miscellaneous Technical">>,
  <<9216, 9279, "Control Pictures">>,
  <<9280, 9311, "Optical Character Recognition">>,
  <<9312, 9471, "Enclosed Alphanumerics">>,
  <<9472, 9599, "Box Drawing">>,
  <<9600, 9631, "Block Elements">>,
  <<9632, 9727, "Geometric Shapes">>,
  <<9728, 9983, "Miscellaneous Symbols">>,
  <<9984, 10175, "Dingbats">>,
  <<12288, 12351, "CJK Symbols and Punctuation">>,
  <<12352, 12447, "Hiragana">>,
  <<12448, 12543, "Katakana">>,
  <<12544, 12591, "Bopomofo">>,
  <<12592, 12687, "Hangul Compatibility Jamo">>,
  <<12688, 12703, "CJK Miscellaneous">>,
  <<12800, 13055, "Enclosed CJK Letters and Months">>,
  <<13056, 13311, "CJK Compatibility">>,
  <<13312, 15661, "Hangul">>,
  <<15662, 17591, "Hangul Supplementary-A">>,
  <<17592, 19967, "Hangul Supplementary-B">>,
  <<19968, 40959, "CJK Unified Ideographs">>,
  <<57344, 63743, "Private Use Area">>,
  <<63744, 64255, "CJK Compatibility Ideographs">>,
  <<64256, 64335, "Alphabetic Presentation Forms">>,
  <<64336, 65023, "Arabic Presentation Forms-A">>,
  <<65056, 65071, "Combining Half Marks">>,
  <<65072, 65103, "CJK Compatibility Forms">>,
  <<65104, 65135, "Small Form Variants">>,
  <<65136, 65278, "Arabic Presentation Forms-B">>,
  <<65280, 65519, "Halfwidth and Fullwidth Forms">>,
  <<65520, 65533, "Specials">>
>>
ClassOf(c) == LET I == {i \in DOMAIN Ranges : c >= Ranges[i][1] /\ c <= Ranges[i][2]}
              IN IF I = {} THEN "Unassigned" ELSE Ranges[CHOOSE i \in I : TRUE][3]
(* Classes are listed in this order. *)
ClassRank(n) == IF n = "Unassigned" THEN 0 ELSE CHOOSE i \in DOMAIN Ranges : Ranges[i][3] = n /\ \A j \in 1..(i-1) : Ranges[j][3] # n
Disjoint == \A i \in DOMAIN Ranges : Ranges[i][1] <= Ranges[i][2] /\ (i < Len(Ranges) => Ranges[i][2] < Ranges[i+1][1])
ASSUME Disjoint
=============================================================================
