#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Two texts are aligned without loss and with the fewest possible differences",
  "For any two texts, the default alignment cuts both, in order and without loss, into segments that alternate between matched (the two sides are the same characters, none of them the reject character ~) and unmatched. Counting each unmatched segment as the length of its longer side, no alignment of these texts has a smaller total.",
  ["inputs"], "every pair of texts, of any length, alphabet and amount of difference",
  "Optimality is a statement over all alignments of all inputs; no existing test looks at an alignment (the large-file test only checks that identical files have no errors).",
  ["src/sync.c", "src/synctext.c"],
  [("fast Ukkonen diagonals with tightening bounds", "src/sync.c compute_f/compute_pathlist"), ("back-tracing of matches", "src/sync.c obtain_matches/save_match")],
  ["stdout of synctext a b"], [("diagonal frontier", "furthest row reached on each diagonal with p differences", "src/sync.c pathlist")])
p("C02", "The accuracy report counts exactly what the alignment shows",
  "For every correct and generated text, the accuracy report equals what the alignment of the two texts (as synchronized-text output shows it) implies: characters are those of the correct text other than ~; an unmatched segment has max(c, g) errors, where c counts its correct characters other than ~ and g its generated characters, less one for each ~ of the correct side, split into min(c,g) substitutions and insertions or deletions for the rest, all counted as marked if its generated side contains a ~ or a suspect-marked character. Reject characters, suspect markers, false marks (suspect characters that match), the counts per character and per character class, and every percentage follow from the same alignment.",
  ["inputs"], "every pair of texts, with any mix of ~, ^ and characters of any class",
  "Tests check two totals on one pair of large files; the counts depend on every combination of segment shape, rejects, wildcards and marks.",
  ["src/accuracy.c", "src/accrpt.c", "src/charclass.c"],
  [("per-segment counting", "src/accuracy.c process_synclist"), ("class and total lines", "src/accrpt.c write_accrpt")],
  ["accuracy report", "synctext output on the same files"])
p("C03", "Confusions are listed completely, merged by displayed form, and in order",
  "The confusion list of an accuracy report has one line for each distinct displayed pair {correct}-{generated} among the unmatched segments that have errors, giving the summed errors and marked errors of those segments. A side is displayed in full if it takes at most 24 bytes, and otherwise as the longest prefix of whole displayed characters that does, followed by \"...\". Lines are sorted by errors (descending), then marked errors (descending), then displayed form (ascending bytes), and their sums are the totals of the report.",
  ["inputs"], "every pair of texts; in particular segments whose display is close to the limit, and many distinct confusions",
  "No test examines confusion lines; truncation and ordering depend on the content and width of every segment.",
  ["src/accuracy.c", "src/accrpt.c", "src/sort.c", "src/table.c"],
  [("display key", "src/accuracy.c make_key"), ("merge by key", "src/accrpt.c add_conf"), ("order", "src/accrpt.c compare_conf, src/sort.c")],
  ["accuracy report, third table"])
p("C04", "Spacing is normalised the same way in every text",
  "Every text read for comparison is reduced to a normal form: each blank other than newline (space, tab, vertical tab, form feed, carriage return, and the Unicode space, line and paragraph separators) becomes a space, runs of spaces become one, spaces at the start or end of a line and blank lines disappear, and nothing else changes. Texts that differ only in such spacing therefore give the same results, and a suspect mark on a removed space passes to the space that remains.",
  ["inputs"], "every text, every arrangement of blanks, newlines and suspect marks",
  "The normalisation is a history-dependent pass over the text; tests never feed irregular spacing.",
  ["src/text.c"], [("single pass with one character of look-ahead", "src/text.c compress_spacing"), ("blank classification", "src/text.c is_blank")],
  ["output of vote/synctext/ngram on one or two texts"])
p("C05", "Files are decoded as UTF-8, with headers skipped and suspect marks attached",
  "A text file is read as the sequence of code points it encodes in UTF-8 (any file that is not valid UTF-8 is refused with an error and a nonzero status); every suspect marker ^ is removed and marks the character after it, if any. A file that starts with a vendor-interface header is read as what follows its second divider line, and such a file is refused as a correct text. The result does not depend on whether the input is a regular file or a pipe.",
  ["inputs"], "every byte sequence, with or without header, through files and pipes",
  "Unit tests decode four short strings; malformed input, headers, markers and pipes are never exercised.",
  ["src/text.c"], [("decoder", "src/text.c read_contents"), ("header", "src/text.c read_header")],
  ["output of vote/ngram/accuracy for the file", "exit status"])
p("C06", "A run succeeds completely or fails visibly, and never damages its inputs",
  "Every run either exits with status 0, or exits with a nonzero status after one line \"tool: message\" on standard error; it never hangs, and never ends in a signal (unless one is sent to it from outside, or the reader of its output has gone). It fails, and says so, if any input cannot be opened or read or is not of the expected kind (not UTF-8, not such a report, counts missing, lengths or characters out of range, vendor output as the correct text), if memory is exhausted, if it is interrupted, if the arguments are wrong in number, or if its output cannot be created or completely written. Input files are never modified, and a run that refuses its inputs writes no result. (A stop list that names a word twice causes a warning.)",
  ["inputs", "fault_sequences"], "every tool, every kind of bad input (missing, directory, wrong report type, damaged report, invalid UTF-8), every amount of room for the output, uncreatable output, every failing allocation, interrupts",
  "No test runs a tool on bad input or with a failing output.",
  ["src/util.c", "src/accrpt.c", "src/wacrpt.c", "src/edorpt.c", "src/text.c"],
  [("error exit", "src/util.c error/error_string/quit"), ("stream checks", "src/util.c open_file/close_file"), ("report signature", "src/accrpt.c read_accrpt, src/wacrpt.c read_wacrpt, src/edorpt.c read_edorpt")],
  ["exit status, stderr, stdout, files"])
p("C07", "Summed accuracy reports are the pointwise sum of their inputs",
  "The sum of two or more accuracy reports is an accuracy report in which every count (totals, marked and unmarked operations, each character, each character class, each confusion) is the sum of that count over the inputs, and percentages are recomputed from the sums. The result does not depend on the order or grouping of the inputs, any report that a tool writes can be read back without loss, and a report of no characters changes nothing.",
  ["inputs", "histories"], "every multiset of reports, every order and every grouping, counts of any width",
  "The one existing test sums reports of two graphic characters; loss on reading back depends on every character and confusion that can be displayed.",
  ["src/accsum.c", "src/accrpt.c", "src/table.c"], [("parser", "src/accrpt.c read_accrpt/read_char"), ("accumulation", "src/accrpt.c add_conf/add_class")],
  ["accsum output"])
p("C08", "Summed word accuracy reports are the pointwise sum of their inputs",
  "The sum of two or more word accuracy reports is a word accuracy report in which every count (words, misrecognized, each length of stopwords and non-stopwords, each number of occurrences of distinct non-stopwords, each phrase length, each stopword and each non-stopword) is the sum over the inputs, with percentages recomputed and terms sorted. It does not depend on the order or grouping of the inputs, and nothing is lost in writing and reading reports, however long the words are.",
  ["inputs", "histories"], "every multiset of reports, every order and grouping, words of any length",
  "No test covers word accuracy reports.",
  ["src/wordaccsum.c", "src/wacrpt.c"], [("parser", "src/wacrpt.c read_wacrpt/read_numbers/read_terms")], ["wordaccsum output"])
p("C09", "Summed edit operation reports are the pointwise sum of their inputs",
  "The sum of two or more edit operation reports is an edit operation report whose insertions, deletions, moves and number of moves of each length are the sums over the inputs, for any number of inputs in any order or grouping. Reading a report that was written loses nothing.",
  ["inputs", "histories"], "every multiset of reports, every order and grouping",
  "No test covers edit operation reports.",
  ["src/editopsum.c", "src/edorpt.c"], [("parser and accumulation", "src/edorpt.c read_edorpt")], ["editopsum output"])
p("C10", "Accuracy distributions give the share of text at or above each accuracy",
  "For accuracy reports (or word accuracy reports), the distribution lists, for i = 0 to 100, the percentage of all characters (words) that are in reports whose accuracy is at least i percent. A report without characters (words) has no influence; if there is none with any, nothing is listed.",
  ["inputs"], "every list of reports, including accuracies exactly on a whole percent, negative, 0 and 100",
  "No test runs these tools; the boundary i = accuracy needs exact cases.",
  ["src/accdist.c", "src/wordaccdist.c", "src/dist.c"], [("cumulative count", "src/dist.c update_dist/write_dist")], ["accdist and wordaccdist output"])
p("C11", "Confidence intervals are the jackknife interval of the given reports",
  "For n reports, at least two of which are not empty, the confidence interval tools print the number of reports, total characters (words), total errors (misrecognized words), the overall accuracy, and J - w and J + w clamped to 0..100, where J is the mean of the n jackknife pseudo-values of accuracy and w is 1.96 times their standard error. With fewer non-empty reports they fail with an error.",
  ["inputs"], "every list of reports, including empty ones and accuracies below zero",
  "No test runs these tools.",
  ["src/accci.c", "src/wordaccci.c", "src/ci.c"], [("jackknife", "src/ci.c compute_ci")], ["accci and wordaccci output"])
p("C12", "Voting outputs, position by position, the candidate with the most votes",
  "Voting walks the heuristic alignment of the voters' texts; at each position of a segment every voter votes for its next character, or, when it has none left, for ending the segment; a ~ casts no vote, and a vote has the unmarked weight or, for a suspect character, the suspect weight. The candidate with the most votes wins (the earliest in voter order among equals); if nobody votes, ~ is output; if ending wins, the rest of the segment is dropped. An output character is marked suspect exactly when its votes are at most floor(voters x unmarked weight x m / n) for threshold m/n, and never without a threshold.",
  ["inputs", "configurations"], "every set of 2 to 16 texts, every weight and threshold option",
  "No test runs vote; ties, weights and partial segments interact per position.",
  ["src/vote.c", "src/sync.c"], [("ballot", "src/vote.c place_vote"), ("winner", "src/vote.c winner/perform_vote"), ("options", "src/vote.c validate_args")],
  ["vote output", "synctext -H output on the same texts"])
p("C13", "Optimized voting uses the three texts closest to the median of all",
  "With optimization, voting among more than three texts gives the result of voting among only the first three when they are ordered by increasing distance (two or three texts all vote, in that order): the distance of a text is the sum, over all distinct pairs of adjacent characters (as displayed) in any text, of the difference between the pair's number of occurrences in that text and its median over all texts (taken as zero for pairs that contain ~). Ties are broken by position among the arguments, and the threshold is relative to the three voters used.",
  ["inputs", "configurations"], "every set of 2 to 16 texts; even and odd numbers of voters",
  "No test runs vote.",
  ["src/vote.c"], [("bigram counts and medians", "src/vote.c count_sequences/compute_median"), ("distance order", "src/vote.c compute_distance/compare_distances")],
  ["vote -O and vote -O -D output"])
p("C14", "The heuristic alignment repeatedly takes the longest common substring",
  "The heuristic alignment of two or more texts, used for more than two texts or on request, starts from one unmatched segment and repeatedly splits an unmatched segment, in which every text has characters, at a substring that all texts share there (never containing ~); the substring is found by taking the longest match, leftmost in the first text and then in the other, of the first text's candidate with each further text in turn. It stops only where this finds no common character, and all segments together reproduce every text.",
  ["inputs"], "every set of 2 to 16 texts",
  "No test runs the heuristic alignment.",
  ["src/sync.c"], [("longest match", "src/sync.c longest_match"), ("recursion", "src/sync.c recursive_sync")], ["synctext -H, synctext with 3 or more texts"])
p("C15", "Synchronized text output is a faithful, complete rendering of the alignment",
  "Synchronized text output shows the matched text in order with a numbered placeholder {k} for each unmatched segment, followed for k = 1, 2, ... by each text's content of that segment, labelled with the file name padded to the longest name and with continuation lines indented to the same column. Every text can be rebuilt from it; characters are shown in their displayed form, with a suspect marker before suspect characters (for a matched one: suspect in any of the texts) if and only if markers are requested, and upper and lower case are identified (and shown in lower case) if and only if that is requested.",
  ["inputs", "configurations"], "every set of texts and file names, every combination of options",
  "No test runs synctext.",
  ["src/synctext.c"], [("rendering", "src/synctext.c write_matches/write_differences/write_transposed")], ["synctext output"])
p("C16", "Transposed alignment matches longest blocks first and prices the rest",
  "The transposed alignment of two texts repeatedly matches the longest common substring (without ~) between any still unmatched segment of one text and any of the other, regardless of order, until no common character remains; among equally long ones, that of the leftmost unmatched segment of the first text, then of the leftmost of the second, then the leftmost within these is taken. Matches are numbered by their order in the first text. Edit operations report as insertions the unmatched characters of the correct text other than ~, and as deletions all unmatched characters of the generated text.",
  ["inputs"], "every pair of texts",
  "No test runs transposed alignment or editop.",
  ["src/sync.c", "src/synctext.c", "src/editop.c"], [("global longest block", "src/sync.c transpose_sync"), ("pricing", "src/editop.c count_insertions/count_deletions")], ["synctext -T output", "editop report"])
p("C17", "Block moves restore the correct order by the documented greedy rule",
  "The reported moves are those of repeatedly merging neighbouring blocks that are consecutive in the correct text and then, while more than one block is left, moving the one block that reduces the number of blocks most (the shortest among equals, then the lowest numbered) to just after its predecessor, the first block to just before the second. Each move is counted once under the length of the moved block, lengths above 100 under 100; every move is necessary in the sense that at most one fewer moves than blocks are made, and texts whose common blocks are in order need none.",
  ["inputs"], "every permutation of blocks of any lengths",
  "No test runs editop; the sequence of moves depends on the whole history of earlier moves.",
  ["src/editop.c", "src/edorpt.c"], [("state machine of merges and moves", "src/editop.c count_moves/combine_adjacent/find_move/perform_move")], ["editop report", "editop -D trace"],
  [("block list", "match numbers and lengths, in generated order", "src/editop.c synclist2")])
p("C18", "Edit operation cost follows the cost model for every move threshold",
  "The cost curve of an edit operation report has for each T = 0..100 the value insertions + sum over moves of min(length, T): each move costs at most T and at most retyping the moved block. With two reports it is the first curve minus the second.",
  ["inputs"], "every report and pair of reports", "No test runs editopcost.",
  ["src/editopcost.c", "src/edorpt.c"], [("running totals", "src/editopcost.c write_results/decrement_edodata")], ["editopcost output"])
p("C19", "Words are the Unicode word segments that start with a word character",
  "Words of a text are the segments between the default word boundaries of Unicode Standard Annex 29 (Unicode 8.0) that start with a letter, mark, number, connector punctuation or private use character, lowercased and in Normalization Form C. Segments never overlap and no character is skipped, whatever characters start, end or surround them.",
  ["inputs"], "every sequence of code points",
  "Nine unit tests segment fixed strings; the rules depend on the classes of up to four neighbouring characters over more than a million code points.",
  ["src/word.c", "src/word_break_property.h", "src/text.c"], [("boundary rules", "src/word.c find_next_boundary"), ("property table", "src/word.c property, src/word_break_property.h")], ["wordfreq output"])
p("C20", "A word is misrecognized only if no best matching could keep it with the rest",
  "The words of the correct text that are counted as recognized form a longest common subsequence of the words of the correct and the generated text. The number of misrecognized words is therefore the number of words less the length of a longest common subsequence, for any two texts with at most 65,535 words of the correct one occurring in the other (more are refused).",
  ["inputs"], "every pair of word sequences", "No test runs wordacc; optimality quantifies over all matchings.",
  ["src/wordacc.c"], [("Ukkonen diagonals on words common to both", "src/wordacc.c compute_f/compute_pathlist/obtain_matches")], ["wordacc report"])
p("C21", "The word accuracy report breaks the words down completely and consistently",
  "Every word of the correct text is counted once as a stopword or a non-stopword (stopwords are those of the given stopword file, or the built-in list), under its length in characters (lengths of 50 and more together) and under its own term, with missed counts; each distinct non-stopword is counted once under its number of occurrences (more than 10 together) and is missed there if all its occurrences are. Every run of 1 to 8 consecutive words is counted as a phrase of that length and is missed if any of its words is; terms are listed in byte order, and totals and percentages agree.",
  ["inputs", "configurations"], "every pair of texts, every stopword file",
  "No test runs wordacc.",
  ["src/wordacc.c", "src/stopword.c", "src/wacrpt.c"], [("classification", "src/wordacc.c determine_wacdata/process_terms/process_phrases"), ("stopwords", "src/stopword.c init_stopwords/is_stopword"), ("layout", "src/wacrpt.c write_wacrpt")], ["wordacc report"])
p("C22", "Non-stopword accuracy is recomputed correctly after each stopword",
  "Given a stopword file and a word accuracy report, line 0 is the report's word accuracy, and line i is the accuracy of the words that remain when all occurrences of the first i words of the stopword file, wherever the report lists them, are left out; each is left out only once. Output stops when no words remain.",
  ["inputs"], "every stopword file (with repeated and absent words) and report", "No test runs nonstopacc.",
  ["src/nonstopacc.c", "src/wacrpt.c"], [("running counts", "src/nonstopacc.c find_stopword/write_results")], ["nonstopacc output"])
p("C23", "N-gram statistics count every window of every text exactly once",
  "For n = 1, 2 or 3, every window of n consecutive characters inside one normalised text (never across two files) is counted once under its displayed form, and once as suspect if any of its characters is suspect-marked. The statistics list all of them twice, by code point order and by decreasing count (then decreasing suspect count, then code point order), each with the totals.",
  ["inputs", "configurations"], "every list of texts, n = 1, 2, 3", "No test runs ngram.",
  ["src/ngram.c", "src/sort.c", "src/table.c"], [("window counting", "src/ngram.c process_file/add_sequence"), ("orders", "src/ngram.c order_by_value/order_by_count")], ["ngram output"])
p("C24", "Word frequencies count every word of every text exactly once",
  "Word frequency output lists each distinct word of all the texts with its number of occurrences, first in byte order and then by decreasing frequency (equal ones in byte order), each followed by the total number of words. Words never continue from one file into the next, and any number of distinct words is handled.",
  ["inputs"], "every list of texts", "No test runs wordfreq.",
  ["src/wordfreq.c", "src/sort.c", "src/table.c"], [("counting", "src/wordfreq.c process_file"), ("orders", "src/wordfreq.c order_by_key/order_by_count, src/sort.c")], ["wordfreq output"])
p("C25", "Group accuracy reports exactly the characters of the group",
  "For a group file and an accuracy report, one line is given for every occurrence, in order, of a character in the group file that the report counts at least once (spaces and newlines aside), with that character's count, missed count and percentage from the report; the total line sums the lines given.",
  ["inputs"], "every group file and report", "No test runs groupacc.",
  ["src/groupacc.c", "src/accrpt.c"], [("selection and totals", "src/groupacc.c write_report")], ["groupacc output"])
p("C26", "The list, table and sort services behave as sequence, map and sort",
  "For any sequence of operations, a list is the sequence that its insertions at either end, insertions before or after an item, and removals produce (forward, backward, counted and indexed views agree); a table maps each inserted key to its entry until removed, whatever keys collide; and sorting rearranges an array of any size and initial order into ascending order without losing or duplicating elements. Everything in the toolkit (texts, words, alignments, counts) is built on these.",
  ["histories"], "every sequence of operations on any number of items and keys; arrays in every initial order",
  "No test drives these modules directly; errors need particular histories.",
  ["src/list.c", "src/table.c", "src/sort.c", "src/list.h", "src/table.h"], [("doubly linked list with cached array", "src/list.c"), ("hash table of lists with cached array", "src/table.c"), ("quicksort", "src/sort.c")],
  ["library calls list_*, table_*, sort"], [("list", "first/last/next/prev, count, array", "src/list.h"), ("table", "buckets, count, array", "src/table.h")])
p("C27", "Every code point is displayed, classified and read back consistently",
  "Every Unicode code point has one displayed form: newline as <\\n> where lines matter, letters, marks, numbers, punctuation, symbols, private use characters and the space as themselves in UTF-8 (combining marks on a dotted circle), everything else as its uppercase hexadecimal code in angle brackets, of at least two digits, or four from U+0100. Displayed single characters are distinct, are read back from reports as the same character, and are counted in the one character class whose range contains them.",
  ["inputs"], "all 1,112,064 Unicode scalar values",
  "Unit tests render nine characters and one test sums two; nothing covers the whole code space or the classes.",
  ["src/text.c", "src/accrpt.c", "src/charclass.c"], [("rendering", "src/text.c char_to_string"), ("reading", "src/accrpt.c read_char"), ("ranges", "src/charclass.c")], ["accuracy, accsum, groupacc and ngram output"])
p("C28", "Command lines are interpreted by one uniform grammar",
  "Every tool accepts its documented options before, between or after file names, with the value of an option attached or as the next argument, and a lone - as a file name; the result does not depend on where the options stand. An unknown option, an option with a missing value or an unexpected suffix, a repeated option, or a wrong number of files is an error; no arguments, or any prefix of -help, prints the usage line on standard error and exits with status 0.",
  ["inputs", "configurations"], "every tool and every sequence of arguments",
  "No test passes an option.",
  ["src/util.c"], [("argument scan", "src/util.c parse_args/split_option"), ("counts", "main of each tool")], ["exit status, stderr, effect of options"])
p("C29", "Chains of tools are consistent and repeatable over a shared workspace",
  "In any sequence of tool runs over a set of files, each run's result is a function of the current contents of its input files and its options only, not of file names (which synctext shows as labels), of earlier runs, or of whether a report goes to standard output or to a named file; only the named output file changes, and it is replaced completely. Later tools accept every report that earlier tools of the same kind produced, including sums of sums.",
  ["histories", "inputs"], "every sequence of tool runs on a workspace of files",
  "Tests run at most two tools once, on fixed files.",
  ["src/util.c", "src/accrpt.c", "src/wacrpt.c", "src/edorpt.c", "src/text.c"], [("output to file or stdout", "src/util.c open_file"), ("report formats", "src/accrpt.c, src/wacrpt.c, src/edorpt.c")], ["files and output after each run"],
  [("workspace", "contents of the files", "file system")])
ids = [q["id"] for q in P]
assert len(set(ids)) == len(ids)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
print(len(P))
