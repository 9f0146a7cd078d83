#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A command that reports success has written all of its output",
 "If any command-line tool exits with status 0, then every output it was asked to produce (model, converted model, result report, per-token probability stream, counts file, vocabulary file), through whichever channel (plain file, standard output, .gz or .bz2 file, shell pipe), is complete and byte-for-byte what a run on a healthy system produces. Whenever writing, flushing, compressing or closing any output fails at any point (disk full, I/O error, short write, broken pipe, compressor dying or failing to start), the tool ends with a non-zero status.",
 ["fault_sequences", "inputs"],
 "every tool x output channel x write/flush/close/child-exit fault at every output event",
 "The tests write tiny files to a healthy disk; a failing write, close or compressor exit status never happens in them, and it can happen at any of the thousands of write events of a run.",
 ["src/io.cc","src/TreeGramArpaReader.cc","src/TreeGram.cc","src/HashGram_tmpl.hh","src/InterKn_tmpl.hh","src/Vocabulary.cc","src/PerplexityFuncs.cc","app/counts2kn.cc","app/varigram_kn.cc","app/perplexity.cc","app/arpa2arpa.cc","app/arpa2bin.cc","app/bin2arpa.cc","app/arpasize.cc","app/add_zeroprob_grams.cc","app/simpleinterpolate2arpa.cc"],
 [("stdio buffer and error flag of the output handle","data accepted by fprintf/fwrite but not yet delivered to the file or child","src/io.cc Stream::file"),
  ("exit status of the compressor or pipe child","whether the data handed to the child reached the disk","src/io.cc Stream::close")],
 [("closing and checking an output stream","src/io.cc Stream::close"),("model writers","src/TreeGram.cc write_real; src/TreeGramArpaReader.cc write; src/HashGram_tmpl.hh write_real; src/InterKn_tmpl.hh counts2ascii")],
 ["exit status of each command","bytes of every output file, of stdout and of what a pipe child received"])

prop("C02", "A failed read of any input never passes for success",
 "If any input of a command-line tool (training text, development text, vocabulary, counts file, model, test text, symbol list; plain, standard input, .gz, .bz2 or shell pipe) cannot be read to its end, because a read fails, the decompressor or pipe child fails, or the compressed file is cut short, the tool ends with a non-zero status, unless everything it needed had already been read, in which case its outputs are exactly those of an undisturbed run.",
 ["fault_sequences","inputs"],
 "every tool x input channel x read fault (EIO, EINTR, failing or killed child, truncated archive, missing archive, directory) at every input event",
 "End-of-data and failed-read look alike to the scanning calls, so a run on part of the data looks like a normal run; the tests only read healthy local files.",
 ["src/io.cc","src/NgramCounts_tmpl.hh","src/Storage_tmpl.hh","src/ArpaReader.cc","src/TreeGram.cc","src/Vocabulary.cc","src/PerplexityFuncs.cc","src/InterKn_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/InterTreeGram.cc","app/*.cc"],
 [("error/eof indicator of the input handle","whether the scan stopped at the true end of the data","src/io.cc Stream::file"),
  ("exit status of the decompressor or pipe child","whether the child delivered all of the data","src/io.cc Stream::close")],
 [("checking an input stream when it is closed","src/io.cc Stream::close"),("token and line scanners","src/NgramCounts_tmpl.hh; src/Storage_tmpl.hh; src/str.cc read_line")],
 ["exit status of each command","bytes of every output, compared with the undisturbed run"])

prop("C03", "A half-written model is never accepted, and rerunning repairs it",
 "If a tool that writes a model (binary, ARPA or interpolated ARPA; plain or compressed) is killed at any instant, then no tool or library reader accepts what is left under the model's name as a model, unless it loads to exactly the complete model. Running the same command again afterwards, over whatever was left behind, produces exactly the files an uninterrupted run produces.",
 ["crash_points","histories"],
 "every crash instant of every model-writing tool (any flushed prefix of each output, compressor surviving or dying with its parent) x every reader of that format x one or more crash/rerun rounds",
 "Needs a process death between two particular writes and then a second program reading the remains; the tests never interrupt a writer.",
 ["src/ArpaReader.cc","src/TreeGram.cc","src/TreeGramArpaReader.cc","src/HashGram_tmpl.hh","src/InterKn_tmpl.hh","src/io.cc","app/*.cc"],
 [("declared n-gram counts and section markers","what a complete text model must contain","src/ArpaReader.cc counts"),
  ("declared word, order and node counts","what a complete binary model must contain","src/TreeGram.cc read")],
 [("text model completeness checks","src/ArpaReader.cc read_header, next_gram"),("binary model completeness checks","src/TreeGram.cc read"),("truncating open of the output","src/io.cc Stream::open")],
 ["exit status of each reader run on the remains","files left after the rerun"])

prop("C04", "Results do not depend on how the data arrives or where it lies in memory",
 "For the same command, options and input contents, the outputs are byte-for-byte the same regardless of the input channel (plain file, gzip, bzip2, pipe, standard input where allowed), of how the operating system splits reads and writes, of the reserved hash size option and the wide-counter option, and of the contents of freshly allocated memory; and the output contents are the same through every output channel.",
 ["schedules","inputs","configurations"],
 "all splittings of reads and writes x channels x hash-size values x prior heap contents x option mixes",
 "A unit test sees one buffer size, one default hash size and one heap state; boundary bugs need a line, token or record to straddle a particular boundary, or a matrix to grow or shrink at a particular entry.",
 ["src/str.cc","src/io.cc","src/sparse_matrix.c","src/sikMatrix.hh","src/NgramCounts_tmpl.hh","src/Storage_tmpl.hh","src/InterKn_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/PerplexityFuncs.cc"],
 [("line and token buffers","partially delivered line or token","src/str.cc read_line"),
  ("hash chains, datasize and hashsize of each count matrix","physical layout of the counts","src/sparse_matrix.c")],
 [("chunked line reader","src/str.cc read_line, read_string"),("hash matrix growth and shrinking","src/sparse_matrix.c NewEntry")],
 ["bytes of all outputs of a perturbed run against the reference run"])

prop("C05", "A command touches nothing but the outputs named on its command line",
 "Running any tool, whether it succeeds, fails or is killed, creates or changes only the files named as its outputs: inputs are left byte-for-byte as they were, no temporary or extra files remain, and no file other than the named one is created even when a name contains blanks, quotes or other characters special to a shell.",
 ["fault_sequences","crash_points","inputs"],
 "all tools x channels x file names including shell-special characters x faults and crashes",
 "The tests use fixed plain names on a healthy system and do not look at the rest of the file system, least of all after a failure.",
 ["src/io.cc","app/*.cc"],
 [("file name handed to the shell of the compressor","which file the child opens","src/io.cc Stream::open")],
 [("opening named streams","src/io.cc Stream::open")],
 ["full contents of the simulated file system before and after each command"])

prop("C06", "Interleaved scoring sessions do not disturb each other",
 "Any number of scoring sessions, over the same loaded model or over different ones (tree or hash representation, back-off or interpolated, weighted mixtures), may be advanced in any order: each session's per-token log-probabilities, hit orders and totals are exactly those it produces when run alone, and agree with the standard back-off or interpolation recursion over the model's entries. Sessions that share no objects remain undisturbed even when switched between in the middle of a call.",
 ["schedules","histories","inputs"],
 "all interleavings of sessions at call boundaries (shared model) and at arbitrary instruction blocks (disjoint objects), for all models and texts",
 "The unit tests score one text with one object at a time.",
 ["src/PerplexityFuncs.cc","src/TreeGram.cc","src/HashGram_tmpl.hh","src/InterTreeGram.cc","src/NGram.hh","src/sparse_matrix.c"],
 [("session history, unknown/word-boundary flags and accumulators","where a session stands in its text","src/PerplexityFuncs.hh members of Perplexity"),
  ("lookup stack and last hit order of a model","scratch state of the latest query","src/TreeGram.hh m_fetch_stack; src/NGram.hh m_last_order")],
 [("per-token scoring","src/PerplexityFuncs.cc logprob, sentence_logprob"),("model lookups","src/TreeGram.cc log_prob_bo/log_prob_i; src/HashGram_tmpl.hh log_prob_*_helper; src/InterTreeGram.cc log_prob")],
 ["return values of the library scoring calls and Perplexity counters"])

prop("C07", "A saved, converted and reloaded model scores like the original",
 "A model that is written out (binary, ARPA, interpolated ARPA), possibly converted between these formats any number of times, and read back by a fresh process assigns every word sequence the probability the original assigned, up to the precision of the text format used, and keeps its vocabulary, its order and its n-gram set (an interpolated model may be written as the equivalent back-off model); scoring text with the tree representation and with the hash representation of one model agrees. Every reader assigns the probabilities that the standard back-off or interpolation recursion gives for the entries in the file.",
 ["histories","inputs"],
 "all models the trainers or other toolkits produce x all save/convert/restart/load histories x all word sequences",
 "The tests round-trip one toy model of two letters; errors tied to order, vocabulary size, missing back-offs, special words, sentinel nodes or line length need other models and multi-step histories.",
 ["src/TreeGram.cc","src/TreeGramArpaReader.cc","src/GramSorter.cc","src/ArpaReader.cc","src/HashGram_tmpl.hh","src/InterKn_tmpl.hh","src/Endian.cc","src/Vocabulary.cc","app/arpa2arpa.cc","app/arpa2bin.cc","app/bin2arpa.cc","app/add_zeroprob_grams.cc"],
 [("node array, child ranges and order counts","the prefix tree holding the model","src/TreeGram.hh m_nodes, m_order_count"),
  ("hash matrices of probabilities and back-offs","the free-form representation","src/HashGram.hh probs, backoffs")],
 [("binary save/load","src/TreeGram.cc write_real, read"),("text save/load","src/TreeGramArpaReader.cc; src/ArpaReader.cc; src/HashGram_tmpl.hh"),("interpolated to back-off conversion","src/TreeGram.cc convert_to_backoff; src/TreeGramArpaReader.cc write_interpolated")],
 ["model files after each step","per-token probabilities reported by perplexity runs in fresh processes"])

prop("C08", "Running out of memory never yields a wrong result",
 "If an allocation fails at any point of any tool's run, the tool ends with a non-zero status (or a defined abort), without touching memory it does not own; it never reports success with output that differs from that of a run with enough memory.",
 ["fault_sequences","inputs"],
 "allocation failure at every allocation event of every tool, single or persistent, and size-limited memory",
 "Allocations never fail in the tests, and there are thousands of allocation sites/instants per run.",
 ["src/sparse_matrix.c","src/sikMatrix.hh","src/Storage_tmpl.hh","src/NgramCounts_tmpl.hh","src/PerplexityFuncs.cc","src/TreeGram.cc","src/io.cc"],
 [("hash matrix arrays","pointers returned by malloc/realloc","src/sparse_matrix.c CreateMatrix, NewEntry, OrderedStepThrough")],
 [("checked allocation","src/sparse_matrix.c check_malloc")],
 ["exit status or signal of the command","outputs of commands that report success"])

prop("C09", "Count matrices stay exact through growing, pruning and undone trials",
 "After any sequence of insertions, increments, trial increments that are kept or undone, removals, removals while stepping through, clears and table growth or shrinkage, the hash-matrix count store holds exactly the entries and values a plain map would hold, steps through each entry exactly once (in key order when ordered stepping is asked for), and the per-context totals equal what recounting the kept n-grams gives; undoing a trial restores the state before it exactly.",
 ["histories","schedules"],
 "all operation histories over all key dimensions, value types, initial table sizes, with interleaved step-through and deletion",
 "The tests drive a handful of operations through one training run; chain relinking, moved last entries and shrink/grow boundaries only meet in particular multi-step histories.",
 ["src/sparse_matrix.c","src/sparse_matrix_pinline.h","src/sikMatrix.hh","src/MultiOrderCounts_tmpl.hh","src/MultiOrderCounts.hh","src/VarigramFuncs_tmpl.hh"],
 [("hash chains and entry arrays","contents of the sparse matrix","src/sparse_matrix.h struct matrix"),
  ("trial caches","changes of the current trial that may have to be undone","src/MultiOrderCounts.hh c_cache/bo_cache/bb_cache/min_cache")],
 [("entry creation, removal and relinking","src/sparse_matrix.c FindEntry, NewEntry, RemoveEntryIdx"),("trial rollback","src/MultiOrderCounts_tmpl.hh UndoCached, ResetCaches")],
 ["values returned by the matrix and count-store calls"])

prop("C10", "Training counts every token of the training text exactly once",
 "However the training text is delivered (any chunking, channel, line lengths, blank lines, missing final newline) and whichever memory options are used, an unpruned model contains exactly the n-grams over the kept vocabulary that occur in the text, up to the requested order and respecting the clear-history option, no more and no fewer, and the written vocabulary is exactly the kept vocabulary, which is the one the vocabulary options (word list, number of most common words, smallest count) ask for; a counts file equals a recount of the text.",
 ["schedules","inputs","configurations"],
 "all texts x deliveries x orders x vocabulary restrictions x memory options",
 "A lost or doubled token at a buffer boundary, window start or restart of the scan shows only for particular text/boundary alignments; the tests use one repetitive two-letter text.",
 ["src/NgramCounts_tmpl.hh","src/Storage_tmpl.hh","src/InterKn_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/Vocabulary.cc","app/counts2kn.cc","app/varigram_kn.cc"],
 [("sliding n-gram window","the last tokens read","src/NgramCounts_tmpl.hh; src/MultiOrderCounts_tmpl.hh InitializeCountsFromText"),
  ("count matrices","occurrences per n-gram","src/MultiOrderCounts.hh m_counts")],
 [("text scanner","src/MultiOrderCounts_tmpl.hh InitializeCountsFromText; src/NgramCounts_tmpl.hh count")],
 ["n-gram sets of written models","counts and vocabulary files"])

prop("C11", "Perplexity accounts for every test token exactly once",
 "However the test text is delivered, the scorer consumes each token exactly once and in order: the per-token stream has one record per token carrying the probability of that token given its history, the reported numbers of words, tokens, unknowns and context cues add up to the text, the reported log-probability and perplexity are those of the summed records, and hit rates match the n-gram orders used. This holds for every setting of unknown-word handling, context cues, word-break or morph-boundary lists, initial-history skipping and model interpolation.",
 ["schedules","inputs","configurations"],
 "all texts x deliveries (chunking, channel, line layout) x option settings x models",
 "Tests check one number on one short text; token loss or duplication at delivery boundaries and bookkeeping slips in option combinations need many texts and splits.",
 ["src/PerplexityFuncs.cc","src/PerplexityFuncs.hh","app/perplexity.cc","src/InterTreeGram.cc"],
 [("history window and counters","words, tokens, unknowns, cues, sentence ends, log-prob sums","src/PerplexityFuncs.hh")],
 [("token loop","src/PerplexityFuncs.cc logprob_file, logprob"),("report","src/PerplexityFuncs.cc print_results, print_hitrates")],
 ["results report","per-token probability stream"])

prop("C12", "Streams release what they open and open exactly what they are given",
 "Over any history of opening, reopening, reading, writing, closing and destroying streams, with any of these failing, each file handle or child process that was opened is closed exactly once (standard input and output never), a failed open raises an error and leaves the stream closed and reusable, reopening closes the previous stream first, and reading or writing reaches exactly the named file, pipe command or standard stream.",
 ["histories","fault_sequences"],
 "all operation histories over several streams x channels x modes x failing opens, writes, closes and child exits",
 "The tests open a few plain files once; leaks, double closes and stale handles depend on sequences of reopen and failure.",
 ["src/io.cc","src/io.hh"],
 [("handle, is-pipe flag and close-allowed flag","what has to be released and how","src/io.hh Stream::file, is_pipe, close_allowed")],
 [("open/close","src/io.cc Stream::open, Stream::close, Stream::~Stream")],
 ["simulated handle and child tables","contents transferred"])

prop("C13", "Every command ends in bounded time, whatever fails",
 "For every input, option setting and sequence of read, write, child-process and allocation failures or truncated inputs, every tool terminates by itself within a number of steps bounded by the size of its work; in particular a failing, empty or exhausted stream never makes a reading, writing, growing or pruning loop repeat forever, and once faults stop, running the command again completes normally.",
 ["fault_sequences","inputs","configurations"],
 "all tools x faults x truncated, empty or odd inputs x reachable and unreachable size targets",
 "A test can only show that its own inputs terminate; endless loops hide behind a failing stream or an unreachable target.",
 ["src/str.cc","src/ArpaReader.cc","src/NgramCounts_tmpl.hh","src/Storage_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/QFit.cc","src/InterKn_tmpl.hh","src/PerplexityFuncs.cc","app/*.cc"],
 [("loop progress of readers and of growing/pruning","whether each round consumes input or shrinks the model","src/VarigramFuncs_tmpl.hh prune, grow; src/ArpaReader.cc next_gram")],
 [("size-target pruning loop","src/VarigramFuncs_tmpl.hh prune"),("read loops","src/str.cc read_line; src/ArpaReader.cc")],
 ["deterministic step counter of each simulated process","exit status"])

prop("C14", "A damaged model or counts file is rejected or loaded, never corrupts memory",
 "Reading a model file, or a counts or vocabulary file given to a training tool, in which stored bytes were changed, lost, duplicated or reordered (text or binary, any size of damage) and then using it for scoring, converting, measuring or training either stops with an error (at worst an abort after an uncaught exception) or completes on the values actually stored; it never reads or writes outside the memory the program owns, never crashes otherwise and never loops forever.",
 ["fault_sequences","inputs"],
 "all models and counts files x storage damage (bit flips, overwritten, missing, repeated or swapped blocks, lines or fields) x all readers",
 "The space of damaged files is unbounded and the tests only read files just written.",
 ["src/TreeGram.cc","src/ArpaReader.cc","src/TreeGramArpaReader.cc","src/HashGram_tmpl.hh","src/GramSorter.cc","src/InterTreeGram.cc","src/Vocabulary.cc","src/MultiOrderCounts_tmpl.hh","src/NgramCounts_tmpl.hh"],
 [("child ranges and word indices of tree nodes","array positions taken from the file","src/TreeGram.hh Node"),
  ("declared counts","sizes taken from the file","src/ArpaReader.cc counts")],
 [("binary reader","src/TreeGram.cc read"),("text reader","src/ArpaReader.cc; src/TreeGramArpaReader.cc"),("counts readers","src/MultiOrderCounts_tmpl.hh ReadCounts; src/NgramCounts_tmpl.hh read")],
 ["exit status or signal under an address-checking build","step counter"])

prop("C15", "Memory and output-form options leave the trained model and the scores unchanged",
 "The options documented as only trading memory for speed or capacity (16-bit keys -s, reserved hash size -H, long counts -L, and not caching the data, -S, where no pruning is asked for) give, for every text, delivery and combination with the other options, the same model, vocabulary and counts, and perplexity -s the same report, as the run without them; the ARPA (-a) and nonstandard interpolated (-x) forms of one training give every n-gram the same probability. Under faults such a variant may end with an error, but it never ends well with a different result.",
 ["configurations","schedules","fault_sequences"],
 "all training and scoring commands x memory options x output forms x deliveries x memory layouts x input and output faults",
 "Key width, table growth, rereading instead of caching and the order of iteration each give a different execution over the same data; the tests run one configuration of each.",
 ["src/InterKn_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/Storage_tmpl.hh","src/sparse_matrix.c","src/sikMatrix.hh","src/HashGram_tmpl.hh","app/counts2kn.cc","app/varigram_kn.cc","app/perplexity.cc"],
 [("count matrices","entries, hash chains and reserved sizes","src/sparse_matrix.c; src/sikMatrix.hh"),
  ("training data, cached or read again","word indices and the lists of following words","src/Storage_tmpl.hh")],
 [("choice of instantiation","app/counts2kn.cc; app/varigram_kn.cc"),("text lookup while growing","src/Storage_tmpl.hh initialize_fast_search_lists, init_fsl_file"),("model writers","src/InterKn_tmpl.hh counts2asciilm, counts2lm")],
 ["models, vocabularies and counts written by variants of one command","exit status"])

prop("C16", "Trained, converted and mixed models spread a probability mass of one",
 "However a model came about - training with any combination of smoothing, pruning, growing, cutoff and vocabulary options, conversion between formats, adding zero-probability n-grams, mixing of several models, or any sequence of these in separate processes, some of them after a failed attempt - the probabilities of all words of its vocabulary sum to one after every history it lists and after the empty history, up to the precision of the file format; a mixture lists every n-gram of the models mixed and gives it the weighted sum of their probabilities. Such a command, given sound inputs while nothing fails, succeeds (it may refuse a text or vocabulary without the sentence start its options need).",
 ["histories","inputs","configurations","fault_sequences"],
 "all texts x training options x sequences of conversions and mixtures x faults in one of them",
 "Mass is lost or doubled where a context loses its last n-gram, a back-off is missing, a word belongs to one part only or a count class changes; the tests score one text with one unpruned model and never add anything up.",
 ["src/InterKn_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/HashGram_tmpl.hh","src/TreeGram.cc","src/TreeGramArpaReader.cc","app/simpleinterpolate2arpa.cc","app/add_zeroprob_grams.cc"],
 [("totals, numbers of followers and pruned mass per context","mass left for backing off","src/MultiOrderCounts.hh bo_c, bo_3c"),
  ("probabilities and back-offs of a model being mixed","mass of each history","src/HashGram.hh probs, backoffs")],
 [("removal of an n-gram with its mass","src/InterKn_tmpl.hh prune_gram"),("mixing and renormalising","src/HashGram_tmpl.hh fake_interpolate, renormalize_backoffs")],
 ["contents of every model written","exit status"])

prop("C17", "A trained model has the smoothed probabilities its counts define",
 "For every text, order, option (one or three discounts, Kneser-Ney or absolute, pruning, cutoffs, growing, cleared histories, development text), delivery and sequence of trainings in separate processes, the probability a written model gives any n-gram is the one defined by the counts written with it: interpolated with the lower orders down to a uniform distribution over the vocabulary, each count less the discount of its class, the mass of discounts and removed n-grams going to the lower order. Without development text the discounts are the leave-one-out estimates from the counts of the text (or of the counts file given); with one they lie within their documented range and are the same for all n-grams of an order. What holds for a training from text holds for training again from the counts it wrote.",
 ["inputs","configurations","histories","fault_sequences"],
 "all texts x training options x second trainings from written counts x faults on inputs, outputs and memory",
 "Classes of counts, contexts that lost n-grams, cleared histories and text starts each take another path through the arithmetic, and what was written in one process is the input of the next; the tests look at two models of one text.",
 ["src/InterKn_tmpl.hh","src/InterKn.hh","src/MultiOrderCounts_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/QFit.cc","app/counts2kn.cc","app/varigram_kn.cc"],
 [("discounts per order","estimated or optimised, range","src/InterKn.hh m_discount, m_minvals, m_maxvals"),
  ("totals, numbers of followers and pruned mass per context","mass left for backing off","src/MultiOrderCounts.hh bo_c, bo_3c")],
 [("leave-one-out estimates","src/InterKn_tmpl.hh calculate_leaveoneout_discounts"),("probability and interpolation weight","src/InterKn_tmpl.hh kn_prob, kn_coeff, tableprob"),("model writers","src/InterKn_tmpl.hh counts2lm_fbase, counts2asciilm")],
 ["models written, read back by an independent reader","counts files and vocabularies written with them"])

prop("C18", "Pruning, growing and cutoffs obey their criterion and keep counts consistent",
 "Whatever n-grams are left out by cutoffs, -N, a pruning threshold or the growing criterion, every n-gram kept occurs in the training text (or counts file), every unigram stays, nothing at or below its cutoff and with -N nothing with an unknown word is kept, without any of these options nothing is left out, and each count kept is the one its context defines: what longer n-grams that were left out had taken from a shorter one has been given back, and nothing else. With absolute discounting, where removals do not influence each other, an n-gram stays exactly if its occurrences times the gain in log-probability exceed the threshold scaled by the documented model cost. This holds for every delivery, key and count width, memory option and for training again from written counts; a command disturbed by faults fails or obeys it.",
 ["inputs","configurations","histories","fault_sequences"],
 "all texts x pruning, growing, cutoff and vocabulary options x second trainings from written counts x faults on inputs, outputs and memory",
 "Trial removals change and undo several tables while they are being iterated; which of them stay depends on the order of iteration and the history of earlier trials. The tests use one text and one threshold.",
 ["src/InterKn_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/Storage_tmpl.hh","src/sparse_matrix.c","app/counts2kn.cc","app/varigram_kn.cc"],
 [("count matrices per order","n-grams kept and their counts","src/MultiOrderCounts.hh m_counts"),
  ("caches of changes on trial","what UndoCached restores","src/MultiOrderCounts.hh m_uglydangling, c_cache")],
 [("removal and its undoing","src/InterKn_tmpl.hh prune_model_fbase, prune_gram"),("growing","src/VarigramFuncs_tmpl.hh reestimate_with_history, modify_model")],
 ["counts files and vocabularies written","exit status"])

prop("C19", "Reports about a model say what the model holds",
 "What arpasize and check_model report is true of the model read: arpasize counts, per order and in total, the n-grams that say something (those kept only for bookkeeping are not counted; with -S the counts the file declares), and check_model prints for each history asked for the probabilities of all words, the order used, their sum and the most probable words, or with -d how many histories of a text have probabilities that do not sum to one. This holds for both formats and the free variant, for every delivery and compression, and a command disturbed by faults either fails or reports the same.",
 ["inputs","configurations","fault_sequences"],
 "all models x histories x formats, deliveries and compression x faults on inputs, output and memory",
 "The reports are used to choose pruning thresholds and to trust models; they are printed by code no test runs, from state shared with the scorer (history, last order) that earlier queries leave behind.",
 ["app/arpasize.cc","app/check_model.cc","src/TreeGram.cc","src/InterTreeGram.cc"],
 [("scoring history","words before the current one","app/check_model.cc vit"),("n-gram counts","per order and total","app/arpasize.cc counts")],
 [("n-gram iteration and comparison with the shorter context","app/arpasize.cc"),("enumeration of all words after a history","app/check_model.cc")],
 ["standard output and error","exit status"])

prop("C20", "A command line means the same however it is spelled, and a wrong one is refused",
 "For every tool, the order of options, grouping of short options, long names with or without an equals sign, positional arguments in between, an end-of-options mark, and repeated options (the last value counts) do not change what the command does: same files, same output, same status. A command line with an unknown option, a wrong number of arguments or an option without its value is refused with a failing status before any file is created or changed, and a value that is not a number (or does not fit the integers) where one is needed is refused with a failing status. This holds under every delivery of input and output, and with faults the command may fail but not do something else.",
 ["inputs","configurations","fault_sequences"],
 "all tools x command lines x spellings x wrong command lines x faults",
 "The parser keeps options pending for their values while it goes on reading; whether a given spelling works depends on the whole line. Tests use one spelling. A wrong command that ends well makes the script around it continue with an old model.",
 ["src/conf.cc","src/conf.hh","src/str.hh","app/counts2kn.cc","app/varigram_kn.cc","app/perplexity.cc","app/arpa2arpa.cc","app/arpasize.cc","app/check_model.cc","app/add_zeroprob_grams.cc"],
 [("options and their values","value, specified","src/conf.hh Config::options"),("options waiting for a value","in order","src/conf.cc parse_aux options_pending")],
 [("parsing","src/conf.cc Config::parse_aux, parse"),("conversion of values","src/conf.cc get_int, get_double; src/str.hh long_vec")],
 ["files left behind, standard output, exit status"])

prop("C21", "Models trained side by side in one process are those trained alone",
 "Training sessions through the library (the Python module's VarigramTrainer, and the training class of counts2kn) do not influence each other: whatever the order in which the calls of several sessions in one process are interleaved, every model, vocabulary and counts file a session writes is the one it writes alone, and the one the tool with the same settings writes. Writing does not change a model: written again, in the same or after another form, it is the same, and it scores the same when loaded. A call that fails (disk full, read or write error) is reported as an error, leaves other sessions undisturbed, and what is written afterwards is right.",
 ["inputs","configurations","schedules","fault_sequences"],
 "all sets of sessions x interleavings of their calls x faults on their files",
 "The count tables are walked with static iterators and written models are completed in place; whether state leaks depends on what other sessions did in between. The test trains one model per process.",
 ["src/VarigramFuncs.hh","src/VarigramFuncs_tmpl.hh","src/InterKn_tmpl.hh","src/sparse_matrix.c","src/io.cc","src/QFit.cc","python-wrapper/VariKN.i"],
 [("count tables and discounts","per session","src/InterKn.hh moc, m_discount"),("iterators","static, shared by all","src/sparse_matrix.c sm_STm, sm_STidx")],
 [("growing","src/VarigramFuncs_tmpl.hh grow"),("completion of the tables before writing","src/InterKn_tmpl.hh counts2lm, counts2asciilm")],
 ["files written","errors thrown","scores of written models"])

NA = [
("N02","Discount optimisation finds the best discounts for the development text",
 "Given a development text, training ends with the discounts that give it the highest probability, up to the documented precision of the line search."),
]
for i,t,s in NA:
    prop(i,t,s,["inputs"],"all inputs","Holds for every input, the tests sample one.",
     ["src/InterKn_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/NgramCounts_tmpl.hh","src/InterTreeGram.cc","src/HashGram_tmpl.hh"],
     [],[],["model contents and scores"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
