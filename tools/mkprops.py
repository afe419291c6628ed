#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None,
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})}})


SBS = "side-by-side file written by --output-sbs"
JSN = "JSON log written by --json-log"
NLPO = "aligned NLP file written by --output-nlp"
OUT = "'best WER' lines on stdout"
WALK = ("Walker::walkComposed / enqueueIfNeeded / GetDetailsFromTopCandidates", "src/Walker.cpp")
ADA = ("AdaptedCompositionFst::TryGetArcsAtState", "src/AdaptedComposition.cpp")
STD = ("StandardCompositionFst", "src/StandardComposition.cpp")
SYN = ("SynonymEngine::ParseStrings / GenerateSynFromSymbolTable / ApplyToFst", "src/SynonymEngine.cpp")
NLPF = ("NlpFstLoader constructor / convertToFst", "src/Nlp.cpp")
MKS = ("make_stitches / align_stitches_to_nlp / write_stitches_to_nlp", "src/fstalign.cpp")
FEW = """The tests built here reach the edit-distance routine and four tiny compositions; the end-to-end suite,
where it can be built at all, compares a few dozen fixed transcripts with stored numbers. """

p("C01", "Every hypothesis word appears exactly once, in order",
  """Reading down the hypothesis column of the alignment and leaving out the rows marked as deletions gives exactly the
  words of the hypothesis: none lost, none invented, none repeated, none reordered. This holds for either composition
  approach, with or without the approximate first pass, and whatever synonyms and normalizations are in force.""",
  ["inputs", "configurations"],
  "all references, hypotheses, synonym files, normalization files and option combinations",
  FEW + "None of them compares the alignment's hypothesis column with the hypothesis.",
  ["src/Walker.cpp", "src/AdaptedComposition.cpp", "src/StandardComposition.cpp", "src/fstalign.cpp", "src/wer.cpp"],
  [WALK, ADA, STD, ("WriteSbs", "src/wer.cpp")], [SBS])

p("C02", "The reference column spells one accepted reading of the reference",
  """Reading down the reference column and leaving out the rows marked as insertions gives the reference transcript in
  order, except that a span tagged as an entity may be replaced as a whole by one of its listed normalizations and a span
  matching a synonym rule may be replaced as a whole by one of that rule's alternatives. Every word of such a span, and
  only those words, carries that span's class label.""",
  ["inputs", "configurations"],
  "all references with any arrangement of entities and synonym rules, all hypotheses, both composition approaches",
  FEW + "The space of readings is a product over spans and grows exponentially; nothing checks that the chosen one is a reading.",
  ["src/Walker.cpp", "src/SynonymEngine.cpp", "src/Nlp.cpp", "src/AlignmentTraversor.cpp"],
  [WALK, SYN, NLPF, ("AlignmentTraversor::NextTriple", "src/AlignmentTraversor.cpp")], [SBS])

p("C03", "Reported error counts and rates are those of the reported alignment",
  """Insertions, deletions, substitutions, total errors and reference words equal the tallies of the side-by-side rows, the
  error marks stand on exactly the rows whose two words differ, and the same numbers appear in the JSON log and on standard
  output. WER is errors over reference words (infinite for an empty reference with a non-empty hypothesis, 0 when both
  are empty); precision and recall are the correct words over correct+inserted+substituted and over
  correct+deleted+substituted.""",
  ["inputs", "configurations"], "all references, hypotheses and options",
  FEW + "They look at a few totals, never at their agreement with the rows for arbitrary alignments.",
  ["src/Walker.cpp", "src/wer.cpp", "src/utilities.h"],
  [WALK, ("RecordWer / CalculatePrecisionRecall", "src/wer.cpp"), ("wer_alignment::WER", "src/utilities.h")],
  [SBS, JSN, OUT])

p("C04", "The number of errors is the edit distance",
  """For a reference without alternatives, the standard composition approach reports exactly the minimum number of word
  insertions, deletions and substitutions that turn the reference into the hypothesis, whatever their length. The adapted
  approach never reports fewer, reports exactly that minimum when the approximate first pass does not apply (it is
  disabled, or either side has at most 10 words), and otherwise exceeds it by at most 2 plus an eighth of it. One
  exception: more errors (never fewer) may be reported where the first rows of every minimal alignment hold over 20
  errors more than the same number of rows of some other alignment of the two beginnings, for the search gives those
  alignments up.""",
  ["inputs", "configurations"],
  "all plain references and hypotheses (text, CTM, NLP), both approaches, first pass on and off",
  FEW + "Minimality is a claim over all alignments of all pairs; a stored number for one pair says nothing about another.",
  ["src/Walker.cpp", "src/PathHeap.cpp", "src/AdaptedComposition.cpp", "src/StandardComposition.cpp", "src/fstalign.cpp"],
  [WALK, ("PathHeap::prune", "src/PathHeap.cpp"), ADA, STD], [JSN, OUT])

p("C05", "Synonym rules are accepted as written: directed, unchained, first wins",
  """A hypothesis that spells the reference with any set of non-overlapping rule matches replaced by alternatives from the
  synonym file scores zero errors. With the standard approach, the first pass off and enough alignments searched
  (--numbests), the errors reported are the fewest over all such readings, or give a WER as low, or are those of an alignment of
  least cost when a substitution costs one and a half insertions. Rules apply from left side to right side only, to consecutive reference words, are not
  applied to the result of another rule, the first definition of a left side wins, and comment, blank and malformed lines
  have no effect.""",
  ["inputs", "programs"],
  "all synonym files (rules of any length, overlapping, conflicting, with irregular spacing) and all transcripts",
  FEW + "A handful of rule files is exercised; overlap, repetition, direction and chaining are not explored.",
  ["src/SynonymEngine.cpp", "src/AdaptedComposition.cpp"],
  [SYN, ("AdaptedCompositionFst::IsEntityReacheable", "src/AdaptedComposition.cpp")], [JSN, SBS])

p("C06", "Cut-off and hyphenated forms are accepted automatically, unless disabled",
  """Without any synonym file, a reference word ending in a hyphen also accepts the word without it, a hyphenated compound
  in the reference also accepts its parts as separate words, and consecutive reference words also accept the hyphenated
  compound when it occurs in either transcript. A rule for the same left side in the synonym file takes precedence, and each of
  the two behaviours can be switched off on its own, after which such pairs count as errors.""",
  ["inputs", "configurations"],
  "all transcripts containing cut-offs and compounds, inside and outside entities, both flags, both approaches",
  FEW + "The automatic rules depend on the whole vocabulary of both transcripts; tests sample four of them.",
  ["src/SynonymEngine.cpp", "src/main.cpp"],
  [SYN, ("--disable-cutoffs / --disable-hyphen-ignore", "src/main.cpp")], [JSN, SBS])

p("C07", "An entity accepts each of its normalizations, and its original words",
  """For an NLP reference with a normalization file, a hypothesis that spells each tagged span either as it stands or as any
  one of the normalizations listed for its identifier scores zero errors, and with the standard approach, the first pass off
  and enough alignments searched, the errors reported are the fewest over all choices (in the sense of C05). Normalizations of one identifier are never accepted for another, and synonyms apply inside a
  normalization.""",
  ["inputs", "configurations"],
  "all NLP references with any number and placement of entities and candidates, all hypotheses",
  FEW + "Choices multiply across spans; tests use fixed sidecars.",
  ["src/Nlp.cpp", "src/AdaptedComposition.cpp", "src/SynonymEngine.cpp"], [NLPF, ADA], [JSN, SBS])

p("C08", "Per-class error rates add up the rows of each class",
  """For every entity class, and every synonym class, present in the alignment the reported insertions, deletions,
  substitutions and reference words are the sums over the side-by-side rows labelled with that class, over all its
  occurrences; no other class is reported.""",
  ["inputs", "configurations"],
  "all alignments with any number of labelled spans, several with the same class, adjacent or at the ends",
  FEW + "Class totals are checked for a few files only.",
  ["src/wer.cpp", "src/Walker.cpp", "src/utilities.cpp"],
  [("RecordWer", "src/wer.cpp"), WALK, ("GetLabelNameFromClassLabel", "src/utilities.cpp")], [JSN, SBS])

p("C09", "Speaker and speaker-switch error rates partition the alignment",
  """Each reference word counts for the speaker of its NLP row and each inserted word for the speaker of the last reference word
  before it, so the speakers' counts add up to the totals. The speaker-switch figures count exactly the rows within the
  requested number of reference words before or after a change of speaker, and are absent when that number is
  zero or less.""",
  ["inputs", "configurations"],
  "all NLP references with any sequence of speakers, all hypotheses, all context sizes",
  FEW + "Speaker changes next to insertions, overlapping windows and speakers that return are not explored.",
  ["src/wer.cpp", "src/fstalign.cpp"],
  [("RecordSpeakerWer / GetSpeakerSwitchIndices / RecordSpeakerSwitchWer", "src/wer.cpp"), MKS], [JSN])

p("C10", "Sentence and tag error rates follow the reference's punctuation and tags",
  """The reference is cut into sentences after each word whose row ends in '.', '?' or '!', each sentence reporting the errors and
  words of its rows, in order, the last one without a stop included. For every identifier in the wer_tags column, the errors and
  words reported are those of exactly the rows carrying that identifier, and the side-by-side rows show each identifier with the
  entity type given in the sidecar.""",
  ["inputs", "configurations"],
  "all NLP references with any punctuation and any lists of tags, all sidecars, all hypotheses",
  FEW + "No test compares sentence figures with the alignment for arbitrary inputs.",
  ["src/wer.cpp", "src/Nlp.cpp", "src/fstalign.cpp"],
  [("RecordSentenceWer / RecordTagWer / WriteSbs", "src/wer.cpp"), ("NlpReader::GetWerTags", "src/Nlp.cpp"), MKS],
  [JSN, SBS])

p("C11", "The aligned NLP file keeps every reference word with its metadata",
  """The aligned NLP file has one row per reference-side word of the alignment, in order, each with the speaker, punctuation,
  pre-punctuation, case, labels, tags and old timings of the reference row it came from, the original spelling where it only
  differs by letter case, and a comment telling deletions and substitutions apart. When a span is replaced by a reading
  with another number of words, the first word keeps the first row's case and the last word the last row's punctuation;
  inserted words appear only with --add-inserts-nlp.""",
  ["inputs", "configurations"],
  "all NLP references and hypotheses, with entities and synonyms of equal and different lengths, both subcommands",
  FEW + "Stored outputs cover a few combinations of span lengths; misattached rows shift everything after them.",
  ["src/fstalign.cpp", "src/Nlp.cpp"], [MKS, ("NlpReader::read_from_disk", "src/Nlp.cpp")], [NLPO])

p("C12", "Timings come from the aligned hypothesis word",
  """In the aligned NLP file every matched or substituted word carries the start time and the end time (start plus duration) of
  the CTM word it is aligned with, or the times of the NLP hypothesis row it is aligned with; a deleted word carries none.
  Hence timings never go backwards when the hypothesis' do not.""",
  ["inputs", "configurations"],
  "all NLP references against all CTM and NLP hypotheses, with insertions, deletions, entities and synonyms anywhere",
  FEW + "An off-by-one after an unusual row shifts all later timings and no test would see it.",
  ["src/fstalign.cpp", "src/Ctm.cpp"], [MKS, ("CtmReader::read_from_disk", "src/Ctm.cpp")], [NLPO])

p("C13", "The edit-distance routine is exact and marks only true matches",
  """For any two integer sequences the computed distance is their Levenshtein distance, independent of argument order, and equal
  to that of the map-less variant. The two match maps have the lengths of the sequences, mark equally many positions, at least
  the longer length minus the distance, and the k-th marked element of one sequence equals the k-th marked element of the
  other; the streak test reports exactly
  the maps in which more unmarked positions than the cutoff stand in a row before a marked one.""",
  ["inputs"], "all pairs of integer sequences, including empty and very unequal ones; all cutoffs",
  "The tests compare a few fixed pairs and a few random ones per run; a wrong backtrack needs particular repetitions.",
  ["src/fast-d.cpp", "src/fast-d.h"],
  [("GetEditDistance / GetEditDistanceOnly / MapContainsErrorStreaks", "src/fast-d.cpp")], ["return values and maps"])

p("C14", "The approximate first pass only speeds things up",
  """Turning the first pass on or off, or changing its error-streak limit, never makes a run fail and never loses a word.
  With the standard approach it leaves the number of errors of plain transcripts unchanged, and with the adapted
  approach it changes it by at most 2 plus an eighth of the minimum, unless the search gives up every minimal alignment (over 20 errors
  behind others of as many rows); where either side has at most 10 words the report is the same.""",
  ["inputs", "configurations"],
  "all pairs of transcripts, long and short, with long error streaks, repeated words and any streak limit",
  FEW + "Forced matches can contradict the best path only for particular repetitions; two configurations are compared nowhere.",
  ["src/fstalign.cpp", "src/fast-d.cpp", "src/AdaptedComposition.cpp", "src/Nlp.cpp", "src/Ctm.cpp",
   "src/OneBestFstLoader.cpp"],
  [("Fstalign: map relaxation and streak test", "src/fstalign.cpp"),
   ("convertToFst(symbol, map)", "src/OneBestFstLoader.cpp, src/Ctm.cpp, src/Nlp.cpp"), ADA], [JSN, SBS])

p("C15", "Unigram and bigram statistics count the alignment's words and word pairs",
  """For every word the JSON log gives how often it was matched, inserted, deleted, wrongly substituted in (hypothesis side) and
  substituted away (reference side) in the alignment, and the precision and recall (in percent) those counts imply; likewise for
  every pair of neighbouring words. Words and pairs are listed exactly when their counts add up to at least the
  --pr_threshold.""",
  ["inputs", "configurations"], "all alignments, including labelled spans, and all thresholds",
  FEW + "The statistics are not compared with the alignment anywhere.",
  ["src/wer.cpp", "src/utilities.cpp"],
  [("CalculatePrecisionRecall / UpdateHypCorrectAndAllwords / JsonLogUnigramBigramStats", "src/wer.cpp"),
   ("get_bigrams / isValidNgram", "src/utilities.cpp")], [JSN, SBS])

p("C16", "The side-by-side file groups each run of errors with its line number",
  """Below the rows, the side-by-side file lists every maximal run of consecutive error rows once, in order: the number of the
  line on which the run starts in that same file, the run's reference words, and its hypothesis words, with '***' for an empty
  side. Nothing else is listed, and a run that ends the file is included.""",
  ["inputs"], "all alignments, with runs at the start, at the end, adjacent to or inside labelled spans",
  FEW + "Groups are not compared with the rows.",
  ["src/wer.cpp"], [("WriteSbs / AddErrorGroup", "src/wer.cpp")], [SBS])

p("C17", "Letter case is ignored by default and decides with --use-case",
  """Without --use-case, changing the case of any letters (including non-ASCII ones) in either transcript or in a normalization
  changes nothing in the alignment; with it, two words match only if they are spelled identically. With --record-case-stats the
  reported true positives, false positives and false negatives count the aligned word pairs by comparing the number of capitals in
  the hypothesis word with the reference word's, separately for matches and for all pairs.""",
  ["inputs", "configurations"], "all transcripts in mixed case, ASCII and not, all formats, both settings",
  FEW + "Two fixed transcripts differ in case; letters outside ASCII and mixed formats are not covered.",
  ["src/utilities.cpp", "src/Nlp.cpp", "src/Ctm.cpp", "src/OneBestFstLoader.cpp", "src/wer.cpp"],
  [("UnicodeLowercase", "src/utilities.cpp"), ("mUseCase in the loaders", "src/Nlp.cpp, src/Ctm.cpp, src/OneBestFstLoader.cpp"),
   ("RecordCaseWer", "src/wer.cpp")], [SBS, JSN])

p("C18", "The same words in another input format give the same alignment problem",
  """A transcript given as plain text with any white space, as a CTM with or without the confidence column, or as an NLP file
  presents the same words; channel, times and confidences never influence the alignment, and the formats' error counts
  agree wherever the number of errors is determined (see C04). With --use-punctuation each punctuation mark of an NLP row is a word of its own directly after the row's word, as if it stood
  in the plain text.""",
  ["inputs", "configurations"], "all word sequences rendered in all supported formats and layouts, for either side",
  FEW + "No test renders one transcript in several formats.",
  ["src/Ctm.cpp", "src/Nlp.cpp", "src/OneBestFstLoader.cpp", "src/main.cpp"],
  [("CtmReader / NlpReader / OneBestFstLoader::LoadTextFile", "src/Ctm.cpp, src/Nlp.cpp, src/OneBestFstLoader.cpp"),
   ("MakeReferenceLoader / MakeHypothesisLoader", "src/main.cpp")], [SBS, JSN])

p("C19", "Against a lattice, the best path through it is scored",
  """With an unweighted FST as hypothesis and the standard approach, without the first pass, the hypothesis words in the alignment spell one complete path of the
  lattice, and the errors reported are the fewest any path has against any accepted reading of the reference, in the sense of C05.""",
  ["inputs"], "all acyclic word lattices with a symbol table, all references",
  "No test that can be built here reads an FST; the upstream suite has a single lattice.",
  ["src/FstFileLoader.cpp", "src/StandardComposition.cpp", "src/fstalign.cpp", "src/Walker.cpp"],
  [("FstFileLoader::convertToFst", "src/FstFileLoader.cpp"), STD, WALK], [SBS, JSN])

p("C20", "Asking for more output never changes the result; runs are repeatable",
  """Two runs with the same inputs produce identical reports. Requesting or leaving out any of the outputs, statistics,
  thresholds, tag sidecar or log file leaves the alignment and all other figures as they are, and the align subcommand writes the
  same aligned NLP file as the wer subcommand.""",
  ["inputs", "configurations", "histories"], "all inputs and all subsets of the output options, repeated runs",
  FEW + "Each test runs one configuration once.",
  ["src/main.cpp", "src/fstalign.cpp", "src/wer.cpp", "src/PathHeap.h"],
  [("HandleWer / HandleAlign", "src/fstalign.cpp"), ("shortlistComparatorSharedPtr", "src/PathHeap.h")],
  [SBS, JSN, NLPO, OUT])

p("C21", "Every well-formed input gets a complete report",
  """Whatever the sizes of the transcripts, including empty ones and one-word ones, and whatever valid combination of options,
  formats, synonyms and normalizations, the program ends normally with exit status 0, writes every requested file
  completely, the JSON log being well-formed, and says so on standard output.""",
  ["inputs", "configurations"], "all well-formed inputs, in particular empty and minimal ones, and all option combinations",
  FEW + "Boundary sizes times formats times options is a large product, sampled nowhere.",
  ["src/main.cpp", "src/fstalign.cpp", "src/utilities.cpp", "src/wer.cpp", "src/Walker.cpp"],
  [("main", "src/main.cpp"), ("get_bigrams", "src/utilities.cpp"), WALK], ["exit status", SBS, JSN, NLPO, OUT])

p("C22", "The composed graph offers exactly the edits of the two transcripts",
  """Every complete path of the lazily composed graph spells, on its input side, one reading of the reference and, on its output side, the
  hypothesis, and its weight is the sum of its edit costs, with matches and labels free. The graph always has a complete
  path. Its cheapest path costs what the cheapest edits over all readings cost; in the adapted graph, with alternatives, at
  most 2 plus an eighth more edits than over the readings whose rules match exactly, and nothing when a reading is the hypothesis.""",
  ["inputs", "programs"], "all pairs of small reference graphs (with entities and synonyms) and linear hypotheses, both compositions",
  "Four fixed compositions are built and a few arcs of them compared.",
  ["src/AdaptedComposition.cpp", "src/StandardComposition.cpp", "src/IComposition.h"], [ADA, STD],
  ["arcs returned for each state of the composed graph"])

with open("/verif/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
