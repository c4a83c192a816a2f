"""The properties, and for each claimed one how its check decides it (tools/mkmeta.py writes the two interface files)."""


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, "technique": technique, "note": note, "na": na}
    if observe:
        d["anchors"]["observe_at"] = observe
    return d


PROPS = [
    P("C01", "Phrase tables answer every query from the exact counts of their history",
      "After any sequence of count increments, entry insertions, clears, reopenings and queries, every phrase table (in-memory map, HAT-trie, LevelDB and the two Berkeley DB tables) "
      "answers count, probability, translation-option and n-best queries exactly as the mathematical count map of that history does. "
      "Queries never change the table, and persistent tables give the same answers after being closed and reopened.",
      ["histories", "inputs"],
      "all interleavings of updates (incl. counts going back to zero, enabling fast search, clear, reload) and queries; phrases of any length and word index, incl. phrases that are prefixes of each other",
      "The unit tests replay about ten fixed insert-then-query scripts with one or two phrases per table; they do not mix queries with updates, use large word indices, zero counts, reloads or the Berkeley DB tables.",
      ["src/phrase_models/StlPhraseTable.cc", "src/phrase_models/HatTriePhraseTable.cc", "src/phrase_models/LevelDbPhraseTable.cc", "src/phrase_models/BdbPhraseTable.cc", "src/phrase_models/FastBdbPhraseTable.cc", "src/nlp_common/NbestTableNode.h"],
      [("key encoding and range queries", "LevelDbPhraseTable::vectorToString/getEntriesForTarget, HatTriePhraseTable::getEntriesForTarget"), ("count update", "incrCountsOfEntry/addTableEntry of each table"), ("fast search flag", "FastBdbPhraseTable::enableFastSearch")],
      "TLA+ count-map specification (TLC exhaustive, small constants); conformance by TLC trace validation of histories generated from the specification's state graph and at random",
      "Every recorded history (all transitions of a small instance sampled, plus seeded random histories with up to 6x6 phrases) of the five real tables is a behaviour of the specification, which TLC checks exhaustively for 2x2 phrases. Integral counts; word indices >= 3."),
]
TODO = "planned; its specification and conformance check are not built yet"
PROPS += [
    P("C02", "Incremental n-gram counts and LM probabilities follow the training text",
      "After any sequence of training calls, every n-gram count table and every language model (in memory or in a LevelDB data base) reports exactly the counts, vocabulary and (interpolated) probabilities determined by the sentences it was trained on, with unknown words and sentence marks, for all orders, weights and buckets; probabilities of sentences and corpora are the products of those of their words; and it reports the same after being stored and loaded again. The counting programs write the counts of the corpus, whether they count it at once or in fragments, and converting them to a data base keeps them. Fitting the weights does not make the corpus less likely.",
      ["histories", "inputs"], "all training histories, n-gram orders, weights and query orders, including unknown words, sentence begin/end, and words with large numbers", "Tests exercise only single insertions in the LevelDB n-gram table.",
      ["src/incr_models/_incrNgramLM.h", "src/incr_models/_incrJelMerNgramLM.h", "src/incr_models/vecx_x_incr_cptable.h", "src/incr_models/LevelDbNgramTable.cc", "src/incr_models/IncrJelMerLevelDbNgramLM.cc", "src/incr_models/IncrNgramLM.cc", "src/nlp_common/BaseIncrNgramLM.h", "src/nlp_common/BaseNgramLM.h", "src/incr_models/thot_ilm_perp.cc", "src/incr_models/thot_ngram_to_leveldb.cc", "utils/incr_models/thot_get_ngram_counts.sh", "utils/incr_models/thot_get_ngram_counts_mr.sh", "utils/incr_models/thot_merge_ngram_counts.sh"],
      [("training", "BaseIncrNgramLM::trainSentence, collectNgramCounts"), ("probabilities", "_incrJelMerNgramLM::pTrgGivenSrcRec, getJelMerWeight, BaseNgramLM::perplexity"), ("files", "load_ngrams, loadWeights, print"), ("tables", "incrCountsOfEntryLog, getEntriesForSource, cTrg")],
      "TLA+ specification of n-gram counts, models, weights, files and data bases (TLC: counts are those of the corpus in any order, files and programs agree with training, probabilities sum to one) and of the tables below them; conformance by TLC trace validation of generated and random histories of the real models, tables and programs",
      "Negative counts, LM descriptors, thot_lm_weight_upd as a program and the PBS variants of the counting scripts are not covered; probabilities are compared up to 25 millionths."),
    P("C03", "Incremental lexical tables keep numerators and denominators consistent",
      "After any history of updates, clears, prints and loads, the lexical tables (in memory and LevelDB), the alignment tables and the matrices of expected values return exactly the last value stored for each pair and key that has not been cleared or given way to newer training pairs; no query alters them; and the programs that sort, merge, filter, prune and convert table files keep every count and make the denominators agree with them.",
      ["histories", "inputs"], "all interleavings of set, query, clear, size restriction, print and load; all sets of table files", "Tests set and read two or three entries.",
      ["src/sw_models/IncrLexTable.cc", "src/sw_models/IncrLexLevelDbTable.cc", "src/sw_models/IncrHmmAligTable.cc", "src/sw_models/IncrIbm2AligTable.cc", "src/sw_models/anjiMatrix.cc", "src/sw_models/anjm1ip_anjiMatrix.cc", "src/sw_models/thot_merge_bin_ilextable.cc"],
      [("set/get", "setLexNumDen, getTransForTarget"), ("ring of expected values", "anjiMatrix::map_n_in_matrix, load, print"), ("programs", "thot_sort_bin_*, thot_merge_bin_*, thot_prune_bin_ilextable, thot_filter_bin_ilextable, thot_lextable_to_leveldb")],
      "TLA+ specification of tables, files, programs and of the ring of expected values (TLC: refinement of the ring to first-in first-out eviction, restore and merge laws); conformance by TLC trace validation of model-generated and random histories",
      "Histories of the real tables (two files, two databases, boundary values of word indices and float values compared bit by bit), of the matrices and of the real programs are behaviours of the specification."),
    P("C04", "Vocabulary coding is a bijection that survives storage",
      "After any history of insertions, loads, prints and clears, the vocabularies of translation, alignment, phrase and language models and the incremental encoders are bijections between words and indices: a new word gets an index that is not in use, a known word keeps its own, decoding inverts coding, unknown words and indices are reported as such, and print followed by load restores the same entries.",
      ["histories"], "all insertion and load orders, all vocabulary files", "No test covers the vocabulary.",
      ["src/nlp_common/SingleWordVocab.cc", "src/incr_models/vecx_x_incr_enc.h", "src/incr_models/lm_ienc.cc", "src/incr_models/_incrNgramLM.h"],
      [("coding", "addSrcSymbol, HighSrc_to_Src, genHSrcCode"), ("files", "loadGIZASrcVocab, vecx_x_incr_enc::load")],
      "TLA+ specification of vocabularies as sets of entries (TLC: bijection, stability, restore from file over all short histories and files); conformance by TLC trace validation of model-generated and random histories",
      "Histories of the real classes (SingleWordVocab, WbaIncrPhraseModel, IncrIbm1AligModel, IncrJelMerNgramLM, lm_ienc, vecx_x_incr_enc) are behaviours of the specification. Words are not empty and have no blanks."),
    P("C05", "Word-alignment matrices and alignment operations obey their set semantics",
      "Union, intersection, sum, difference, transposition and symmetrisation (incl. grow-diag and its final step) of word alignments, the queries on them, the alignment vectors, and reading, writing and combining alignment files give the alignment set their definition gives, for all matrices of every shape, and leave their operands unchanged.",
      ["inputs", "histories"], "all pairs of alignments, all sequences of operations, all alignment files", "There are no unit tests for alignment matrices.",
      ["src/nlp_common/WordAligMatrix.cc", "src/nlp_common/AwkInputStream.cc", "src/phrase_models/AlignmentContainer.cc", "src/phrase_models/AlignmentExtractor.cc", "src/phrase_models/thot_alig_op.cc"],
      [("symmetrisation", "WordAligMatrix::symmetr1/symmetr2/growDiagFinal"), ("files", "AlignmentExtractor::getNextAlignment, thot_alig_op")],
      "TLA+ specification of alignments as link matrices (TLC: laws of the operations on all pairs of small matrices); conformance by TLC trace validation of model-generated and random histories of the real classes and of runs of thot_alig_op",
      "Recorded histories on matrices of up to 7 by 7 words and files of up to 4 sentence pairs are behaviours of the specification. The files are well-formed GIZA files."),
    P("C06", "Phrase extraction yields exactly the consistent phrase pairs",
      "For every sentence pair, word alignment and extraction limits (length, monotonicity, source limit, unlinked words), phrase extraction yields exactly the phrase pairs consistent with the alignment within those limits, once each with the weight of their links; segmentation-based estimation gives each pair its share of the segmentations; and the trained model, its printed table and thot_gen_phr_model hold the corresponding counts.",
      ["inputs", "histories"], "all alignments and limits, all training sequences", "No test covers extraction.",
      ["src/phrase_models/PhraseExtractionTable.cc", "src/phrase_models/BpSet.cc", "src/phrase_models/SrfNodeInfoMap.cc", "src/phrase_models/_wbaIncrPhraseModel.cc", "src/phrase_models/_incrPhraseModel.cc", "src/phrase_models/CategPhrasePairFilter.cc", "src/phrase_models/thot_gen_phr_model.cc"],
      [("extraction", "PhraseExtractionTable::extractConsistentPhrases, validCoverageForCell"), ("segmentations", "fillSrfNodeInfoMapRec, obtainPhrPairVecFromBpSet"), ("counts", "extendModelFromPairPlusAlig, storePhrasePairs")],
      "TLA+ specification of extraction and segmentations (TLC: extracted pairs against the textbook definition on all small alignments); conformance by TLC trace validation of one test per model state and of random training histories and runs of thot_gen_phr_model",
      "Recorded calls on sentence pairs of up to 7 words (5 with segmentations) are behaviours of the specification. Unlinked source words join a phrase all or none on each side, as the program's manual settings have it; weights by random walks (sentences over the exact limit) are not claimed, except that sentences of 101 words or more are left out."),
    P("C07", "The decoder returns a legal derivation with its exact score",
      "For every input sentence, model, weights and decoder settings, the decoder's output is a concatenation of translation options covering each source word exactly once within the phrase-length and reordering limits; its score and its score components are exactly those of that derivation under the feature models; "
      "and when nothing is pruned no legal derivation scores higher, further requested translations follow in order of score without repetition, and the recorded word graph holds exactly the legal derivations. The answer depends on the request and the models only, never on earlier requests.",
      ["inputs", "histories"], "all sentences (incl. empty, over-long, unknown words), option tables, weights (incl. per-sentence ones), standard, custom and per-sentence features, search settings (stack size, granularity, breadth- or best-first, phrase/jump/option limits), partial translations given by the caller, and sequences of requests",
      "The tests run one end-to-end decode with one tiny model.",
      ["src/stack_dec/multi_stack_decoder_rec.h", "src/stack_dec/_stackDecoderRec.h", "src/stack_dec/_stackDecoder.h", "src/stack_dec/PbTransModel.h", "src/stack_dec/_pbTransModel.h", "src/stack_dec/PhraseBasedTmHypRec.h", "src/stack_dec/PhrHypState.cc", "src/stack_dec/LangModelFeat.h", "src/stack_dec/SrcPosJumpFeat.h", "src/stack_dec/SrcPhraseLenFeat.h", "src/stack_dec/TrgPhraseLenFeat.h", "src/stack_dec/WordPenaltyFeat.h", "src/stack_dec/OnTheFlyDictFeat.h"],
      [("hypothesis expansion and options", "_pbTransModel::expand, getHypDataVecForGap, getNbestTransForSrcPhrase"), ("incremental scoring", "PbTransModel::incrScore, extensionScore of each feature"), ("recombination and word graph", "_stackDecoderRec::addHyp..., PhrHypState::operator<")],
      "TLA+ decoding specification (derivations, scores, dynamic-programming optimum; TLC: scores are those of the whole derivation, bounds attained); conformance by TLC trace validation of random decoding sessions of the real model, features and decoder over integer component models",
      "Recorded sessions (sentences up to 4 words, 5 word types, 8 features, up to 6 requests) of the real PbTransModel, feature classes and multi_stack_decoder_rec are behaviours of the specification, which TLC checks for 2352 partial derivations. Component models return integers; optimality is claimed where nothing can be lost (granularity 1, stack at least the number of states, no ties cut by the option limit, breadth-first or uninformed best-first)."),
    P("C08", "Constrained decoding respects references, prefixes and translation constraints",
      "Decoding with a reference or for verification returns only derivations of exactly that reference, decoding with a prefix only translations that extend the prefix (completing a partially typed last word), and decoding with annotated translation constraints only translations that use the given target for exactly the annotated source span; "
      "each result has its exact score, and when nothing is pruned it is the best such derivation, or none is reported if none exists.",
      ["inputs", "histories"], "all references, prefixes (with or without trailing blank, with words unknown to the model), constraints, models and settings, and sequences of mixed requests", "Only the metadata parser is tested.",
      ["src/stack_dec/_stackDecoderRec.h", "src/stack_dec/_pbTransModel.h", "src/stack_dec/PbTransModel.h", "src/stack_dec/TranslationMetadata.h", "src/stack_dec/PhrNbestTransTableRefKey.cc", "src/stack_dec/PhrNbestTransTablePrefKey.cc"],
      [("modes", "expand_ref, expand_ver, expand_prefix, transUncovGapRefNoLastGapCached, transUncovGapPrefNoGen"), ("constraints", "TranslationMetadata::srcPhrAffectedByConstraint, translationSatisfiesConstraints")],
      "the decoding specification of C07 with the guided modes (TLC: every derivation keeps the promise of its mode); conformance by TLC trace validation of random sessions of the real decoder",
      "Recorded sessions (as for C07, references and prefixes up to 6 words) are behaviours of the specification, which TLC checks for 16083 partial derivations. Same bounds as C07; best-first search is claimed exact for verification only."),
    P("C09", "Hypothesis stacks keep the best hypothesis per state, within their size",
      "The multi-stack container keeps at most one hypothesis per recombination state and at most the configured number per equivalence class, always the highest-scored ones, and pops in the documented order.",
      ["histories"], "all push/pop histories", "No test covers the container.", ["src/stack_dec/SmtMultiStackRec.h", "src/stack_dec/_smtMultiStack.h", "src/stack_dec/SmtStack.h", "src/stack_dec/HypStateDict.h"], [("push/pop", "SmtMultiStackRec::push, pushOnSmtStackIdx, pop"), ("recombination records", "recInfoMap, eraseRecInfo")],
      "TLA+ specification of the container with its state dictionary (TLC exhaustive); conformance by TLC trace validation of one test per model transition and of random histories",
      "Recorded histories (up to 60 operations, 14 states, 4 classes, changing size limits and search modes) of the real templates, instantiated with a minimal hypothesis type, are behaviours of the specification, which TLC checks for 3 states in 2 classes, a state's class free to change. Integer scores."),
    P("C10", "Word graph algorithms agree with the set of the graph's paths and scores",
      "For every acyclic word graph, best-path search (also from an inner state, with excluded arcs or alternative weights), n-best lists, previous/rest scores, pruning, restriction to useful states, topological reordering, rescoring and saving/loading give exactly what the graph's set of complete paths with their scores, words and score components defines. "
      "Pruning keeps every path within the threshold; reordering, saving and useful-state restriction change no path.",
      ["inputs", "histories"], "all graphs whose final states are sinks and every sequence of operations on them, incl. dead ends, parallel arcs, empty arcs, positive scores, a non-zero initial score, pruned arcs and files listing arcs in any order",
      "No test constructs a word graph.",
      ["src/error_correction/WordGraph.cc", "src/error_correction/WordGraph.h", "src/error_correction/NbSearchStack.cc"],
      [("path search", "WordGraph::calcPrevScoresWeights, bestPathFromFinalStateToIdx"), ("A* n-best search", "WordGraph::nbSearch"), ("transformations", "prune, obtainWgComposedOfUsefulStates, orderArcsTopol, print, load")],
      "TLA+ word-graph specification by path sets (TLC: equal to the dynamic programmes, transformations preserve paths, over all graphs of 4 states); conformance by TLC trace validation of one test per model transition and of random histories",
      "Recorded histories of the real WordGraph (graphs up to 9 states, 40 complete paths, 6 operations, integer scores) are behaviours of the specification, which TLC checks for all graphs of up to 3 (thorough 4) arcs over 4 states."),
    P("C11", "Interactive translation depends only on the current prefix and graph",
      "However the user arrived at the current prefix (typing, deleting or editing anywhere, starting on a new graph), the suggested completions are the ones computed from scratch for that prefix: every one extends the prefix (completing a partially typed last word), they are ordered by score, "
      "their score is the best combination of word-graph score and error-correction score over the places of the graph where the prefix may end, words rejected by the user are not suggested next, and they continue with the best way to the end of the graph.",
      ["histories", "inputs"], "all word graphs (incl. empty arcs, arcs of several words, parallel arcs), prefixes, prefix edit histories, edit costs, weights, numbers of suggestions and sets of rejected words", "No test covers the assisted-translation processors.",
      ["src/error_correction/WgProcessorForAnlp.h", "src/error_correction/PfsmEcmForWg.cc", "src/error_correction/EditDistForVecString.cc"],
      [("reuse of the previous prefix", "getValidProcPrefixVec, updateSizeOfVars, removeLastPosFromEsi"), ("incremental processing", "procWgGivenPrefDiff, extendEsi, updateBestScoresForState"), ("suggestions", "obtainNbestHypStates, obtainNbestHypSubStates, obtainCorrForHypState")],
      "TLA+ specification that computes the suggestions from scratch for each prefix (TLC: equal to the optimum over paths where states keep one graph score, to the incremental computation column by column, suggestions extend the prefix); conformance by TLC trace validation of one test per model transition and of random editing sessions",
      "Recorded editing sessions (graphs up to 7 states, prefixes up to 6 words, up to 9 edits) of the real processor with the edit-distance error model are behaviours of the specification, which TLC checks for three graphs and all prefixes of up to three words. The processor keeps one graph score per state, as documented in its code, which is the exact optimum for graphs where this loses nothing. Integer scores and costs; where different arcs tie only extension and order are claimed; arcs in topological order."),
    P("C12", "Concurrent decoder use is serialisable and never deadlocks",
      "Requests of several users to the translation engine, processed concurrently, never run while a model is being trained, are mutually exclusive per user and without data races, always complete, and give the results of some sequential order that respects the order in which they were issued and answered, where each request is a function of what was learnt before it and of its user's session - also after failed requests. What was printed is what the engine knows when started again.",
      ["schedules", "histories"], "all interleavings of the requests of several users and threads (translation, coverage, online training, assisted translation with prefixes, initialisation and release of users, printing of models and weights)", "Tests are single-threaded.",
      ["src/stack_dec/ThotDecoder.cc", "src/stack_dec/ThotDecoder.h", "src/stack_dec/WgUncoupledAssistedTrans.h"],
      [("locking", "ThotDecoder: atomic_op_mut, non_atomic_op_mut, wait_on_non_atomic_op_cond, per_user_mut"), ("users", "get_user_id_idx, initUserPars, release_user_data"), ("sessions", "startCat, addStrToPref, setPref, resetPrefix"), ("learning", "onlineTrainSentPair, printModels")],
      "TLA+ specification of the locking protocol (TLC: exclusion of training, one request per user, every request ends, under weak fairness) and of the effect of each request; the real engine is run under a deterministic scheduler (programs and schedules generated from the specification, and random ones) and TLC searches each recorded history for a sequential explanation; a race detector watches the runs",
      "Scheduling points are the operations on mutexes and condition variables and the points where the plug-ins yield. Online training with language or translation model NONE is not covered."),
    P("C13", "The translation server answers each request by the protocol",
      "Every complete request that reaches the translation server before it is asked to end gets exactly one well-formed reply, which is what the engine answers for that user in some sequential order of all requests, over every interleaving of connections, however the bytes are fragmented and whoever disconnects, sends unknown requests or impossible lengths; incomplete requests have no effect; the server runs until it is asked to end, then completes the running requests and exits without error, and what it printed is known after a restart. The client program sends the request it was asked for and prints the reply.",
      ["schedules", "histories", "inputs"], "all request sequences over several connections, orders in which clients connect, send parts of requests, leave or read", "One install check runs one client at a time.",
      ["src/stack_dec/thot_server.cc", "src/stack_dec/thot_client.cc", "src/stack_dec/ThotDecoderClient.cc", "src/nlp_common/BasicSocketUtils.cc"],
      [("dispatch", "process_request, process_request_switch"), ("end of the server", "start_server, wait_on_num_threads_var_cond"), ("messages", "BasicSocketUtils::recvStlStr, writeStr"), ("client", "ThotDecoderClient")],
      "TLA+ specification of the server (TLC: every accepted request is answered exactly once, the server ends if asked to, the models are not cleared while requests run) and of the engine behind it; clients generated from the specification and random concurrent ones play against the real server and TLC searches each recorded session for a sequential explanation",
      "Assumes that a client which connects sends the eight bytes of its header or leaves (otherwise the others wait: known finding)."),
    P("C14", "Translation metadata is parsed into exactly the constraints it states",
      "For every input line, in the annotation format or in JSON, well-formed or not, the sentence, the constrained spans and their translations are precisely those the annotations express (what is not an annotation stays in the sentence), every query about spans, and whether a partial or complete translation satisfies the constraints, is answered accordingly, and nothing of an earlier input remains.",
      ["inputs", "histories"], "all inputs, all spans and translations asked for, sequences of inputs", "A few fixed strings are tested.",
      ["src/stack_dec/TranslationMetadata.h", "src/stack_dec/JsonTranslationMetadata.h"],
      [("parser", "TranslationMetadata::obtainTransConstraints, tokenizeSrcSentence, constraintFound"), ("JSON", "JsonTranslationMetadata::addTranslations, isPhraseInSentence"), ("queries", "transViolatesSrcPhrConstraint, srcPhrAffectedByConstraint")],
      "TLA+ grammar of annotated input and of its constraints (TLC: annotate and parse round trip on all small sentences and constraint sets, and with one token changed); conformance by TLC trace validation of model-generated and random inputs and queries",
      "Recorded parses and queries (sentences up to about 12 words, both formats, malformed input, glued tags, odd characters) of the real classes are behaviours of the specification. JSON texts are located in order, and what follows one that cannot be located is dropped, as the code does. A partial translation that covers only a later part of a constrained phrase may be answered either way."),
    P("C15", "Edit distances and error-correcting automata agree with their recurrence",
      "Edit distance, its prefix variants (with and without free deletion of what follows the prefix) over characters and over words, and the incremental error-correcting automaton give the cost of the cheapest edit script, report a script of exactly that cost that turns one string into the other, "
      "and do not depend on how the strings were fed or what was computed before.",
      ["inputs", "histories"], "all strings and word sequences (incl. empty ones, a last word with or without trailing blank), all operation costs, all ways to feed and shorten the prefix", "No test covers edit distances or error-correction models.",
      ["src/error_correction/EditDistForStr.cc", "src/error_correction/EditDistForVec.h", "src/error_correction/EditDistForVecString.cc", "src/error_correction/_editDistBasedEcm.cc", "src/error_correction/PfsmEcm.cc", "src/error_correction/PfsmEcmForWg.cc"],
      [("recurrence", "calculateEditDist*, processMatrixCell*"), ("incremental rows", "incrEditDistPrefix, incrEditDistPrefixFirstRow, extendEsi, removeLastPosFromEsi"), ("automaton", "PfsmEcm::estimatePosInPrefix..., correctStrGivenPref")],
      "TLA+ specification of the recurrences (TLC: the recurrence is the minimum over all edit scripts; incremental rows equal the table); conformance by TLC trace validation of one test per model transition and of random inputs and histories",
      "Recorded calls and histories (strings up to 8 characters, up to 6 words) of the real classes are behaviours of the specification, which TLC checks for all strings of up to 3 characters and word sequences of up to 2 words. Integer operation costs, positive for insertions, deletions and substitutions; words are not empty."),
    P("C16", "Weight tuning by simplex search can be resumed without changing the search",
      "The step-wise downhill simplex search, restarted with the values recorded so far, goes on from the same point in the same state for any interruption point: the sequence of points asked for, and the solution, depend only on the values. The best point seen is never lost and is the solution. Fixed variables keep their values; the tuning program and script ask for each point once, also across failures of the target function and resumption.",
      ["histories", "crash_points"], "all value sequences and interruption points", "Not tested.",
      ["src/downhill_simplex/step_by_step_dhs.c", "src/downhill_simplex/thot_dhs_step_by_step_min.cc", "utils/downhill_simplex/thot_dhs_min.sh"],
      [("search", "step_by_step_simplex"), ("program", "genFixedVarsBoolVector, xToVarVec, gen_init_sol"), ("resumption", "the loop of thot_dhs_min.sh")],
      "TLA+ specification of the search as a state machine driven by values (TLC: the best point is kept and returned, the simplex does not collapse, for all short value sequences); conformance by TLC trace validation of restarts, program runs, and script runs with failures",
      "Between 1 and 6 variables, integer values of the target function. All variables fixed and constraint functions are not covered."),
    P("C18", "Sentence handlers and training ranges process each pair exactly once",
      "The sentence handler delivers the n'th pair and its count for any order of access, from files and added pairs, and printing keeps them, also over the files read; files with fewer target sentences or counts than source sentences are refused. Training over ranges adds each pair with its count exactly once per range containing it and takes back what it contributed before as long as its expected values are retained: expected counts of words, alignments and sentence lengths are those of the pairs, and no parameter is undefined, for all models and modes of the estimation program (batch, incremental, interlaced, mini-batches).",
      ["histories"], "all ranges, orders of access and training histories", "Not tested.",
      ["src/sw_models/LightSentenceHandler.cc", "src/sw_models/IncrIbm1AligModel.cc", "src/sw_models/IncrIbm2AligModel.cc", "src/sw_models/_incrHmmAligModel.cc", "src/sw_models/WeightedIncrNormSlm.cc", "src/sw_models/thot_gen_sw_model.cc"],
      [("access", "nthSentPair, nthSentPairFromFiles, printSentPairs"), ("training", "trainSentPairRange, efficientBatchTrainingForRange, updatePars, fillEmAuxVars"), ("lengths", "WeightedIncrNormSlm::trainSentPair"), ("orders", "emIters")],
      "TLA+ specification of the sentence pairs and of training as conservation of expected counts (TLC: each pair counts once for all training histories with all values retained; every schedule of the program trains every pair as often as asked for); conformance by TLC trace validation of six models and of thot_gen_sw_model",
      "How the count of a pair is divided among its alignments (the E step itself) is left open. thot_gen_sw_model with both -l and -s is not covered."),
    P("C19", "Scores and weight updates follow their definitions",
      "The quality of translations as reported by the BLEU, WER, GTM and chrF scorers and by thot_scorer and thot_calc_bleu is what the definition of each measure gives for any translations and references, including empty and very short ones: n-gram matches are counted at most as often as they occur in the reference, scores are finite, at most one, and one for perfect translations, the score of a corpus adds up the counts of its sentences (chrF averages), background corpora decay as configured and are forgotten when reset; corpora of different sizes are refused. The k-best MIRA weight updater performs the steps of its algorithm for any n-best lists, scores and initial weights, and returns the average weights of the epoch with the greatest quality, also if no quality is positive or a list is empty; thot_ll_weight_upd_nblist passes it exactly the included variables and prints the new weights at their positions.",
      ["inputs", "histories"], "all translations, references, n-best lists, weights and sequences of updates", "The tests score eight pairs with chrF and run one update.",
      ["src/stack_dec/MiraBleu.cc", "src/stack_dec/bleu.cc", "src/stack_dec/MiraWer.cc", "src/stack_dec/MiraGtm.cc", "src/stack_dec/MiraChrF.cc", "src/stack_dec/chrf.cc", "src/stack_dec/KbMiraLlWu.cc", "src/stack_dec/thot_scorer.cc", "src/stack_dec/thot_calc_bleu.cc", "src/stack_dec/thot_ll_weight_upd_nblist.cc"],
      [("n-grams", "prec_n, count_ngrams, MiraGtm::sorted_common_ngrams"), ("scores", "scoreFromStats, MiraWer::ed, calculate_chrf, calc_bleuf"), ("weights", "KbMiraLlWu::update, updateClosedCorpus, HopeFear, MaxTranslation")],
      "TLA+ definitions of the measures and of MIRA as nondeterministic transitions (TLC: bounds, identity, symmetry, edit-distance laws for all pairs of short sentences; margin steps and the choice of the result for all small problems); conformance by TLC trace validation of the real scorers, updater and programs on generated and random histories",
      "Logarithms come from a table (1e-5). chrF is over bytes (as tested). Updates whose step is not an exact binary fraction are not determined."),
    P("C20", "Pre- and post-processing restore the text",
      "For any text, with or without XML annotations (phrase pairs, length limits, forbidden words): thot_tokenize only inserts spaces (every character is kept, no token crosses white space or the limits of an annotation, annotation tags are tokens, numbers with a decimal point or comma, words and punctuation are separated); thot_lowercase changes only the case of letters; thot_remove_xml_annotations leaves exactly the plain text and the source side of phrase pairs; thot_categorize replaces exactly the numbers, digits and alphanumeric words, not those of length limits and forbidden words, and both sides of a phrase pair or, if their categories differ, none. thot_decategorize replaces each category of a translation by the word of that category and order in the aligned source segment, and changes nothing else, whatever the segmentation. The models trained for the detokenizer and the recaser hold exactly the counts of the text, in one pass or in merged chunks, printing and loading them keeps the counts and the probabilities, and these are proper (never above one). thot_detok_translator and thot_rec_translator (thot_detokenize, thot_recase) only join tokens (up to seven) or change the case as trained, and their output has the best score of all under the models and the weights. thot_clean_corpus_ln keeps exactly the pairs within the limits of length and deviation, and thot_calc_wer gives the edit distance over the words of the references.",
      ["inputs", "histories"], "all texts and annotations, segmentations, training texts, model orders, interpolation and score weights, corpora", "The tests run thot_tokenize on one file.",
      ["utils/smt_preproc/thot_smt_preproc.py", "utils/smt_preproc/thot_clean_corpus_ln.py", "utils/smt_preproc/thot_train_rec_lm_mr.sh", "utils/smt_preproc/thot_detokenize.sh", "utils/smt_preproc/thot_recase.sh", "utils/smt_preproc/thot_decategorize.py", "utils/stack_dec/thot_calc_wer.py"],
      [("text", "Tokenizer, lowercase, categorize, annotated_string_to_xml_skeleton, remove_xml_annotations"), ("categories", "decategorize, decategorize_word"), ("models", "TransModel, LangModel"), ("search", "Decoder.best_first_search, StateInfoDict, PriorityQueue"), ("corpus", "thot_clean_corpus_ln, thot_calc_wer")],
      "TLA+ specification of the text operations, the models and the search (TLC: categorizing, translating by segments in any order and decategorizing gives back every word; counts by sentence or by chunk agree and give proper distributions; best-first search with recombination finds the best output); conformance by TLC trace validation of the real programs on generated and random texts, annotations, corpora and sentences, and of their models",
      "Logarithms are computed with 4 decimals in the specification: outputs within 0.03 of the best score are accepted."),
]
