#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A training batch applies every example exactly once, as some serial order",
 "However the training worker threads interleave, after one batch iteration the model weights equal the result of applying, one after another in some order, exactly one weight update per example of the batch, each with the loss and feature difference computed for that example; no update is lost, duplicated, torn or taken from another example. The batch loss that is reported is the sum of the losses of exactly those examples. This holds for every batch size, thread count and number of batch iterations.",
 ["schedules", "configurations", "inputs"],
 "every interleaving of 1..8 workers with the coordinating thread, every batch size including ones larger than the job queue, every corpus",
 "The training tests run one trainer at a time or a fixed corpus under whatever interleaving the OS happens to choose; nothing compares the weights against a serial order of updates.",
 ["src/core/training/training_env.cc", "src/core/training/training_executor.cc", "src/util/bounded_queue.h", "src/core/training/scw.cc", "src/core/training/trainer.cc"],
 [("batch loop submitting trainers and consuming results", "TrainingEnv::trainOneBatch"), ("update from a finished trainer", "TrainingEnv::handleProcessedTrainer"), ("SCW update", "SoftConfidenceWeighted::update")],
 observe=["TrainingEnv::batchLoss", "TrainingEnv::exportScwParams", "ITrainer::loss", "ITrainer::featureDiff"])

prop("C02", "The work queue delivers every accepted item exactly once, bounded and in order",
 "Concurrent use of the bounded work queue is linearizable to a bounded FIFO: every accepted item is handed to exactly one receiver, in acceptance order, unchanged; the queue never holds more than its capacity; an offer is refused only when the free space does not exceed the requested reserve, and a non-blocking receive comes back empty only when the queue is empty. Likewise the training executor turns every accepted job into exactly one result that carries that job and that job's own outcome.",
 ["schedules", "histories", "configurations"],
 "every interleaving of any number of producers, blocking and non-blocking consumers, every capacity and reserve, with and without spurious wake-ups",
 "There is no concurrent test of the queue or of the executor; correctness depends on the interleaving.",
 ["src/util/bounded_queue.h", "src/core/training/training_executor.cc", "src/core/training/training_executor.h"],
 [("ring buffer under a mutex with a condition variable", "util::bounded_queue"), ("worker loop", "TrainingExecutorThread::run")],
 observe=["bounded_queue::offer/recieve/waitFor", "TrainingExecutor::submitNext/waitOne/resultWithoutWait"])

prop("C03", "Training workers always make progress and always shut down",
 "Under every schedule, including spurious condition-variable wake-ups, a thread blocked on the queue or executor is released once an item or result for it exists, and every training call returns. Destroying the executor or the training environment at any moment (right after start, while jobs are queued or running, or while results have not been collected, for example after training stopped early because of an error) stops and joins all worker threads in a bounded number of steps.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving and every moment of shutdown relative to queued, running and finished jobs",
 "The tests always drain the executor before destroying it, and a lost wake-up needs a specific interleaving.",
 ["src/core/training/training_executor.cc", "src/util/bounded_queue.h", "src/core/training/training_env.cc"],
 [("executor destructor / poison jobs", "TrainingExecutor::~TrainingExecutor"), ("blocking receive", "bounded_queue::waitFor"), ("result hand-over spin", "TrainingExecutorThread::run")],
 observe=["return of TrainingEnv::trainOneBatch, TrainingExecutor::waitOne and the destructors"])

prop("C04", "A failing training example is reported and named, and contaminates nothing",
 "If processing one example of a batch fails, by an error status, by any standard exception or by running out of memory, the training call returns an error which names that example's file, line and comment, and the process neither crashes nor hangs. Results of the other examples that were in flight are not applied to the model as part of any later batch, and training can be continued on the same environment with the accounting of later batches unaffected.",
 ["fault_sequences", "schedules", "inputs"],
 "every position of the failing example(s) in the batch, every kind of failure, every interleaving of the other workers",
 "No test makes an example fail inside a worker thread, nor continues after a failure.",
 ["src/core/training/training_executor.cc", "src/core/training/training_env.cc", "src/util/memory.cpp", "src/core/training/trainer.cc"],
 [("exception and status translation", "TrainingExecutorThread::run"), ("early return from the batch loop", "TrainingEnv::trainOneBatch"), ("allocator failure", "util::memory::PoolAlloc")],
 observe=["Status of TrainingEnv::trainOneBatch/trainOneEpoch", "TrainingExecutor::waitOne"])

prop("C05", "Training covers the corpus once per epoch and does not depend on scheduling",
 "Each epoch processes every fully annotated example of the corpus exactly once per batch iteration and nothing else besides the loaded partially annotated examples, which join every batch except during the first epoch, where they are absent; this holds across any number of epochs, batch sizes and thread counts. With a batch size of one and no partial corpus the trained weights are identical for every thread count and every schedule, and equal to training serially.",
 ["schedules", "configurations", "histories"],
 "every schedule, thread count, batch size and number of epochs, with corpora whose size is not a multiple of the batch size",
 "Tests train single examples or one fixed configuration and look at the loss falling; they cannot compare schedules.",
 ["src/core/training/training_env.cc", "src/core/training/trainer.cc", "src/core/training/full_example.cc", "src/core/training/scw.cc"],
 [("epoch loop", "TrainingEnv::trainOneEpoch"), ("batch assembly and shuffling", "TrainerBatch::readFullBatch, TrainerBatch::shuffleData"), ("corpus reader", "FullExampleReader")],
 observe=["TrainingEnv::trainer(i)->exampleInfo()", "TrainingEnv::exportScwParams"])

prop("C06", "Analysing a sentence does not depend on what the analyzer did before",
 "The result of analysing an input with a given model and configuration, in every output format, is the same whether the analyzer (and the output formatter) is fresh or has already processed any sequence of other inputs, including empty, very long, malformed, partially annotated and rejected ones, and whatever stale bytes its recycled memory holds. An input that is rejected is rejected by a fresh analyzer too.",
 ["histories", "inputs", "configurations"],
 "every history of earlier inputs and errors on the same analyzer object, every content of recycled or uninitialised memory, all output formats and beam configurations",
 "Tests build a fresh analyzer per case or analyse one or two sentences; leftover state needs a particular earlier history, and recycled memory is usually benign.",
 ["src/core/analysis/analyzer_impl.cc", "src/core/analysis/lattice_builder.cc", "src/core/analysis/score_processor.cc", "src/core/analysis/extra_nodes.cc", "src/core/analysis/analysis_result.cc", "src/util/memory.cpp", "src/core/analysis/output.cc", "src/jumandic/shared"],
 [("per-sentence reset", "AnalyzerImpl::reset/resetForInput"), ("page recycling", "util::memory::PoolAlloc::reset"), ("formatters", "JumanFormat, MorphemeFormat, LatticeFormat, SubsetFormat")],
 observe=["JumanppExec formatted output", "StreamReader::analyzeWith"])

prop("C07", "Analyzers sharing one model in different threads do not disturb each other",
 "Several analyzers built from one loaded model and used concurrently, one per thread, each produce exactly the output they produce alone, under every interleaving. They share no mutable state: no unsynchronised conflicting accesses occur between them.",
 ["schedules", "inputs", "histories"],
 "every interleaving, at memory-access granularity, of 2..4 threads analysing different inputs, including creation and destruction of analyzers while others run",
 "All analysis tests are single threaded.",
 ["src/core/analysis/analyzer.cc", "src/core/analysis/analyzer_impl.cc", "src/core/dic/dictionary.cc", "src/core/env.cc", "src/core/core.cc", "src/core/impl/feature_computer.cc", "src/jumandic/shared/jumandic_env.cc"],
 [("shared immutable core", "CoreHolder, DictionaryHolder, FeatureHolder, ScorerDef"), ("per-thread analyzer", "AnalyzerImpl")],
 observe=["formatted output per thread", "conflicting accesses at the memory level"])

prop("C08", "Running out of memory during analysis is a clean, recoverable error",
 "If a memory allocation fails while an analyzer is being created or while a sentence is analysed or formatted, the library reports it as an error status or as a standard out-of-memory exception; it does not crash, terminate, hang or corrupt memory. After the failure the same analyzer, or a new one if creation failed, produces the normal result for any further input once memory is available.",
 ["fault_sequences", "inputs", "histories"],
 "failure of every single allocation, or of all allocations from one point on, at every position in a sequence of analyses",
 "No test injects allocation failure.",
 ["src/util/memory.cpp", "src/util/memory.hpp", "src/core/analysis/analyzer_impl.cc", "src/core/analysis/analyzer.cc"],
 [("page allocation failure", "util::memory::PoolAlloc page switch"), ("reset after failure", "AnalyzerImpl::reset")],
 observe=["Status / exception type of Analyzer::analyze", "output of following analyses"])

prop("C09", "A model that was saved loads back identical, and survives a crash once saved",
 "When saving a model reports success, loading the file gives back the same parts in the same order, with the same kinds, comments and byte-identical data blocks, whatever was in the file before. This still holds if the machine crashes at any moment after the save reported success: everything that was acknowledged is durable.",
 ["crash_points", "inputs", "histories"],
 "every model shape, every previous content of the output file, every subset of not yet synchronised pages lost at a crash after the acknowledgement",
 "Tests save and load one small model through the page cache; they cannot lose unsynchronised pages.",
 ["src/core/impl/model_io.cc", "src/util/mmap_impl_unix.h", "src/core/impl/model_format.h", "src/util/serialization.h"],
 [("block layout and header", "ModelSaver::save"), ("reading back", "FilesystemModel::open/load"), ("synchronisation", "MappedFileFragment::flush")],
 observe=["FilesystemModel::load", "file bytes after a simulated power loss"])

prop("C10", "A crash while saving never leaves a file that loads as a wrong model",
 "If the machine or process stops at any point during saving a model, over a new or an existing file, then afterwards the output file either is refused by the loader with an error, or loads as exactly the complete new model or exactly the complete old one. It never loads as a mixture, as truncated or zero-filled data, and loading it never crashes.",
 ["crash_points", "fault_sequences", "histories"],
 "a crash between any two system calls of the save, any subset of dirty pages (or parts of pages) having reached the disk in any order, new file or overwrite of a larger, smaller or similar model",
 "A unit test cannot crash between two writes or control which pages reach the disk.",
 ["src/core/impl/model_io.cc", "src/util/mmap_impl_unix.h"],
 [("order of data and header writes", "ModelSaver::save"), ("extension and mapping of the file", "MappedFile::map")],
 observe=["FilesystemModel::open/load after simulated crash"])

prop("C11", "A failure to write a model is reported, never announced as success",
 "If writing a model fails in any system call (opening, extending, mapping or synchronising the file, a full disk, a short write or an I/O error), the library's save returns an error, and each command-line tool that saves a model (dictionary bootstrap, dictionary indexing, training, RNN embedding) exits with a non-zero status and prints no success message. The process is not killed by a signal in the attempt.",
 ["fault_sequences", "configurations"],
 "a failure of every system call of the save, alone or from some point on, with every errno that call can give, for every tool",
 "No test makes a system call fail, and none runs the tools' main functions.",
 ["src/core/impl/model_io.cc", "src/util/mmap_impl_unix.h", "src/core/tool/train_cmd.cc", "src/core/tool/index_cmd.cc", "src/core/tool/jumanpp_tool.cc", "src/jumandic/main/bootstrap.cc", "src/jumandic/main/jumanpp_train.cc"],
 [("save error propagation", "saveModel, ModelSaver::save, MappedFile::map")],
 observe=["Status of ModelSaver::save", "exit status and messages of the tools"])

prop("C12", "A damaged or unreadable model file is rejected cleanly",
 "Loading a model file that is missing, empty, truncated at any byte, not a model, or that cannot be opened, inspected or mapped, returns an error and leaves nothing open or mapped; it never crashes, reads outside the file, hangs, or yields a model. After a rejected load the environment can load a good model and works normally.",
 ["fault_sequences", "inputs", "histories"],
 "every truncation length, every failing system call, every corrupted header byte, followed by loading a good model",
 "Tests only load intact models.",
 ["src/core/impl/model_io.cc", "src/util/mmap_impl_unix.h", "src/core/env.cc", "src/util/serialization.h", "src/util/coded_io.h"],
 [("header checks", "FilesystemModel::open"), ("block bounds", "FilesystemModel::load"), ("model loading", "JumanppEnv::loadModel")],
 observe=["Status of FilesystemModel::open/load and JumanppEnv::loadModel", "open descriptors and mappings"])

prop("C13", "The analyzer command answers every sentence in order, however input arrives",
 "For an input stream read to its end, the jumanpp command writes exactly one result block per input sentence, in input order, each equal to the result for that sentence alone; the output does not depend on how the bytes are split into reads, on interrupted reads, or on a missing final newline. A sentence that cannot be analysed gets the empty result in its place, and the sentences after it are unaffected.",
 ["inputs", "fault_sequences", "configurations"],
 "every sentence sequence, every partition of the byte stream into short reads with interrupts in between, standard input and files, raw and partially annotated input",
 "No test runs the command's main loop; tests of the readers use in-memory streams that deliver everything at once.",
 ["src/jumandic/main/jumanpp.cc", "src/core/input/stream_reader.cc", "src/core/input/pex_stream_reader.cc", "src/jumandic/shared/jumandic_env.cc"],
 [("main loop", "main, InputOutput::hasNext/nextInput"), ("readers", "PlainStreamReader, PexStreamReader")],
 observe=["standard output and exit status of jumanpp"])

prop("C14", "The analyzer command processes all input files and reports unreadable input",
 "Given several input files the jumanpp command produces the concatenation of what it produces for each file alone, in order. If an input file cannot be opened or a read fails, the command terminates in bounded time with a non-zero exit status and an error message, and the results for the sentences read before the failure and for the other readable files are not lost.",
 ["fault_sequences", "inputs", "configurations"],
 "every list of input files (empty ones, ones without final newline, missing ones, directories, failing in the middle)",
 "No test runs the command with several files or with failing reads.",
 ["src/jumandic/main/jumanpp.cc"],
 [("file switching", "InputOutput::hasNext/moveToNextFile"), ("read failure", "InputOutput::nextInput")],
 observe=["output and exit status of jumanpp"])

prop("C15", "The analyzer command reports output that could not be written",
 "If any part of the jumanpp command's output cannot be written (the output file cannot be created, the disk is full, or a write to a file or to standard output fails), the command exits with a non-zero status; it exits with zero only when all results have been handed to the operating system completely. Interrupted and short writes lose, duplicate or reorder nothing.",
 ["fault_sequences", "configurations"],
 "a failure of every single write, open or close of the output, any splitting of the output into short writes",
 "No test runs the command with a failing output.",
 ["src/jumandic/main/jumanpp.cc"],
 [("output stream", "InputOutput::initialize and the main loop")],
 observe=["exit status of jumanpp", "bytes that reached the output"])

prop("C16", "Corpus and sentence readers give the same examples however the data arrives",
 "Reading sentences or annotated examples from a stream, a memory block or a file gives the same sequence of examples, comments and errors for every way of splitting the bytes into reads, for every reuse of the same reader and example objects, and whether or not something terminates the last example. A malformed example is reported as an error and is never skipped or taken for the end of the data. On a stream an error concerns only the example it is reported for, and the reader continues at the next example. A comment or annotation of one example is never attached to another, and examples stay intact while later ones are read.",
 ["inputs", "fault_sequences", "histories"],
 "every chunking of the stream, every sequence of good and malformed examples, every reuse of the readers and of the example objects",
 "Reader tests use one well-formed in-memory document per case.",
 ["src/core/input/stream_reader.cc", "src/core/input/pex_stream_reader.cc", "src/core/input/partial_example_io.cc", "src/core/training/full_example.cc", "src/util/csv_reader.cc"],
 [("stream readers", "PlainStreamReader::readExample, PexStreamReader::readExample"), ("corpus readers", "PartialExampleReader, FullExampleReader"), ("row parser", "CsvReader::nextLine")],
 observe=["sequence of (status, surface, comment, annotations)"])

prop("C17", "Memory-mapped files expose exact contents, fail cleanly and leak nothing",
 "A mapped region always shows exactly the bytes of the file at that range, writes through a writable mapping reach exactly that range of the file and change no other byte, and a successful flush makes them durable. Any failing system call surfaces as an error and leaves the object reusable; opening, closing, moving, remapping and destroying mapped files in any order leaks no descriptor or mapping and never touches memory or descriptors the object does not own.",
 ["histories", "fault_sequences", "crash_points"],
 "every sequence of open, map, write, flush, move, unmap and close on several objects, with every system call able to fail",
 "The mmap tests map one file once and never see a failing call.",
 ["src/util/mmap.cc", "src/util/mmap.h", "src/util/mmap_impl_unix.h"],
 [("mapped file and fragments", "MappedFile, MappedFileFragment, FullyMappedFile")],
 observe=["bytes, Status values, and the live descriptors and mappings"])

prop("C18", "Building and training a model gives the same bytes every time",
 "Building a dictionary model, and training with one example per batch, from the same inputs and settings produces the same model bytes and the same diagnostics apart from the recorded build time, regardless of the wall clock and its jumps, uninitialised or recycled memory contents, memory layout, and thread schedule. Progress reporting neither changes the result nor depends on the clock moving forward.",
 ["schedules", "configurations", "fault_sequences"],
 "every clock behaviour (jumps backwards and forwards, standing still), every content of fresh memory, every thread schedule",
 "Tests check single builds for content; they never compare two builds under different environments.",
 ["src/core/dic/dic_builder.cc", "src/core/tool/index_cmd.cc", "src/core/tool/jumanpp_tool.cc", "src/core/training/scw.cc", "src/util/logging.cpp"],
 [("dictionary build with timestamp", "DictionaryBuilder::importCsv"), ("progress callback with clock", "jumanpp_tool index progress")],
 observe=["bytes of the saved model"])

prop("C19", "Configuration and auxiliary inputs that cannot be read are reported, not ignored",
 "When a file the user names (model, RNN model, dictionary, specification, corpus, partial corpus or configuration file) cannot be opened, mapped or read, is empty where content is required, or is malformed, every tool exits with a non-zero status and an error message within bounded time, and produces no output file that a later step would accept as complete. It never continues as if the file had been empty or absent.",
 ["fault_sequences", "configurations"],
 "a failure of every open, stat, map or read on every named input of every tool",
 "The tools' main functions are not tested, and no test makes opening a file fail.",
 ["src/core/tool/train_cmd.cc", "src/core/tool/jumanpp_tool.cc", "src/jumandic/main/jumanpp_train.cc", "src/jumandic/main/bootstrap.cc", "src/jumandic/shared/jumanpp_args.cc", "src/rnn/mikolov_rnn.cc"],
 [("input loading in the tools", "doTrainJpp, importDictionary, IndexTool::indexDictionary, parseArgs")],
 observe=["exit status and messages of the tools", "presence of an acceptable output file"])

prop("C20", "A stored model analyses as the parts and settings it was made from",
 "Analysing with a model file into which a recurrent language model was embedded gives exactly the results, scores included, of analysing with the original model and the same language model given separately with the same settings. A setting given when analysing replaces only that stored setting, and switching the language model off gives exactly the results of the model without it. The model file it was made from is left as it was.",
 ["configurations", "inputs", "fault_sequences"],
 "every shape of language model, every combination of stored and overriding settings, every sentence",
 "The tests load a language model either from separate files or from a model, never compare the two, and use default settings.",
 ["src/core/analysis/rnn_scorer_gbeam.cc", "src/core/analysis/rnn_id_resolver.cc", "src/core/env.cc", "src/jumandic/main/jumanpp_train.cc", "src/jumandic/shared/jumandic_env.cc", "src/rnn/mikolov_rnn.cc"],
 [("storing and loading the language model", "RnnScorerGbeamFactory::makeInfo/load"), ("choice of weights", "JumanppEnv::setRnnHolder/setRnnConfig")],
 observe=["output of jumanpp with both models"])

prop("C21", "Running out of memory is never taken for success",
 "When an allocation fails while a tool or the library loads a model, builds a dictionary, trains, saves or analyses, the failure is reported (an error status, a message with a non-zero exit status, or std::bad_alloc) or has no effect at all: exit status zero is only ever given together with the complete, normal result, no tool announces success after it failed, and no output file is left that is accepted as a model but is not the complete old or new one. Once memory is available again the same operation gives the normal result.",
 ["fault_sequences", "inputs"],
 "the failure of every single allocation, and of every group of allocations, of every tool and library entry point",
 "No test makes an allocation fail.",
 ["src/core/env.cc", "src/core/dic/dic_builder.cc", "src/core/dic/entry_builder.cc", "src/core/impl/model_io.cc", "src/core/tool/jumanpp_tool.cc", "src/jumandic/main/jumanpp.cc", "src/jumandic/main/jumanpp_train.cc", "src/jumandic/main/bootstrap.cc"],
 [("loading", "JumanppEnv::loadModel/initFeatures"), ("building and saving", "DictionaryBuilder::importCsv, ModelSaver::save"), ("tools", "main functions")],
 observe=["exit status, messages and output files of the tools; Status values and exceptions of the library"])

prop("C22", "A saved dictionary answers with exactly the rows it was built from",
 "For every specification and dictionary data that are accepted, the model that was built, saved and loaded again finds exactly the words of the data: for each word exactly the entries its rows form (rows with the same values of the deduplicated fields merged into one, in which every row keeps its own data values), each with exactly the field values and conditional features of its row whatever the order of columns, quoting, separators, storage or alignment, and the template rows unknown words are made from. No other string is a word, and a text is given exactly the dictionary words that occur in it. Data with a line that cannot be understood is refused with the number of the line.",
 ["inputs", "configurations", "crash_points", "fault_sequences"],
 "every specification, every dictionary, and every failed or interrupted attempt before the final build",
 "Tests build a few dictionaries of a few rows, mostly with fields in the order of the columns, and check single lookups.",
 ["src/core/dic/dic_builder.cc", "src/core/dic/dic_build_detail.cc", "src/core/dic/entry_builder.cc", "src/core/dic/field_import.cc", "src/core/dic/dic_feature_impl.cc", "src/core/dic/dic_entries.cc", "src/core/dic/darts_trie.h", "src/core/dic/field_reader.h", "src/core/spec/spec_compiler.cc", "src/util/coded_io.h", "src/util/csv_reader.cc"],
 [("building", "DictionaryBuilder::importCsv, EntryTableBuilder"), ("reading", "DictionaryEntries, OutputManager, field accessors")],
 observe=["entries, field values and condition bits read through the public API", "nodes seeded for a text", "status and message of the build"])

prop("C23", "Scores are the sums of their parts, and the beams keep the best paths",
 "In every analysis the score of each connection is the sum of the weights which the model has for the features of its words (whether they are computed by the generated or by the interpreted code), plus the penalty of a partial annotation it contradicts, plus the contribution of the recurrent language model for that word after exactly the words before it on its path; the total score of a path is the weighted sum of its connections. At every word the beam holds the best continuations in order of their score, up to the configured size, out of all paths (or, with a global beam, out of the best ones ending there and, if asked for, with the right-hand cut), and the best paths through the sentence cover it from its beginning to its end. None of this depends on what was analysed before, on recycled memory, on earlier failed allocations, or on which other paths were kept.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every sentence and partial annotation, every combination of beam sizes, weights and language models, every history of the analyzer",
 "Tests compare a few scores for sentences of a few words with toy weights; none recomputes the score of a path independently, or checks a global beam or the language model along a path.",
 ["src/core/analysis/score_processor.cc", "src/core/analysis/analyzer_impl.cc", "src/core/analysis/rnn_scorer_gbeam.cc", "src/core/analysis/rnn_id_resolver.cc", "src/core/impl/feature_impl_combine.h", "src/core/codegen", "src/core/input/partial_example_io.cc", "src/rnn/mikolov_rnn.cc", "src/rnn/mikolov_rnn_impl.h"],
 [("local scores and beams", "ScoreProcessor, AnalyzerImpl::computeScoresFull/computeScoresGbeam"), ("language model", "RnnScorerGbeam, RnnIdContainer, MikolovRnnImplParallel"), ("annotations", "PartialExample::doesBreak.., TrainFieldsIndex, ScorePlugin")],
 observe=["lattice of the analyzer: scores of connections, beams, global beams, totals"])

prop("C24", "Every output format tells the same analysis, completely and truthfully",
 "For every analysed sentence, whatever its words, comment, dictionary and settings, each output format presents the same analysis: the best path is the same sequence of words in Juman, morph, full-morph, segmentation, dictionary-subset and protobuf output, in order and covering the input; the lattice formats tell exactly the words on the requested number of best paths, with positions, links to the previous words, ranks and scores as they are in the lattice; the lattice dump contains every candidate with its fields, paths and feature weights. Every field told for a word (surface, part of speech and conjugation with their Juman numbers, base form, reading, canonic form, features, and all alternative meanings) is that of a dictionary row of that word or of the template it was made from, escaped as the format prescribes. Formatting does not change the analysis, and can be repeated, mixed with other formats, or redone after an allocation failed in it.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every sentence and annotation, every dictionary content, every combination of formats, beams and numbers of paths, in every order and with failed attempts in between",
 "Tests compare the output of a few formats for a few sentences with words that need no escaping; none compares formats with each other, or fields with the dictionary for every word.",
 ["src/jumandic/shared/juman_format.cc", "src/jumandic/shared/morph_format.cc", "src/jumandic/shared/lattice_format.cc", "src/jumandic/shared/subset_format.cc", "src/jumandic/shared/juman_pb_format.cc", "src/jumandic/shared/jumanpp_pb_format.cc", "src/jumandic/shared/jumandic_id_resolver.cc", "src/core/analysis/output.cc", "src/core/proto/lattice_dump_output.cc", "src/core/analysis/analysis_result.cc", "src/core/impl/segmented_format.cc", "src/core/impl/global_beam_position_fmt.cc"],
 [("formats", "OutputFormat implementations"), ("fields of words", "OutputManager::locate, NodeWalker, field accessors"), ("best paths", "AnalysisPath, AnalysisResult")],
 observe=["bytes and protobuf objects of the formats", "lattice of the analyzer", "rows of the dictionary"])

prop("C25", "Every sentence is given exactly the candidate words that the dictionary and the rules for unknown words prescribe",
 "For every sentence, dictionary and configuration, the words offered for choosing (the nodes of the lattice) are exactly: every dictionary row whose surface occurs at a place of the sentence; and what each rule of the model prescribes there: the unknown words made of single characters and of runs of characters of their class (with the mark telling whether the dictionary has longer words that begin with them), numbers with their separators, prefixes, suffixes and units up to their longest form, onomatopoeia of repeated halves, and dictionary words found under other spellings (lengthened, shortened, small or voiced letters) with the mark of the spelling rule; rules of the second stage add words only where the first ones leave the sentence unconnected. None is missing, none is extra or offered twice, each has the right place, surface, template and marks. It does not depend on sentences analysed before with the same analyzer, on recycled memory, or on allocations that failed earlier. The rules read nothing outside of the sentence.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every sentence of at most the longest supported length, every dictionary content, and every sequence of earlier analyses (completed, refused or failed) with the same analyzer",
 "Tests look for a few words in the candidates of a few sentences; none checks that nothing is missing or extra, nor analyses several sentences with the same analyzer.",
 ["src/core/analysis/unk_nodes_creator.cc", "src/core/analysis/numeric_creator.cc", "src/core/analysis/onomatopoeia_creator.cc", "src/core/analysis/charlattice.cc", "src/core/analysis/normalized_node_creator.cc", "src/core/analysis/dictionary_node_creator.cc", "src/core/analysis/lattice_builder.cc", "src/core/analysis/analyzer_impl.cc", "src/core/analysis/unk_nodes.cc", "src/util/characters.cc"],
 [("unknown word rules", "UnkMaker implementations"), ("dictionary lookup", "DictNodeCreator, DoubleArrayTraversal"), ("connectivity", "LatticeBuilder, checkConnectability")],
 observe=["nodes of the lattice: places, surfaces, rows or templates, placeholder marks"])

prop("C26", "The analyzer command answers a sentence before it waits for the next one",
 "A program (or a person) talking to the jumanpp command through pipes gets the complete answer to every sentence given so far before the command waits for more input: at every moment when the command tries to read input that has not been given yet, everything it has to say about the sentences already given completely has left the process, in order. So a client which gives one sentence (or several) and waits for its answer before giving the next never waits forever, whatever the sentence, its comment, the output format, and the way bytes are split into reads and writes; sentences that cannot be analysed are answered as well.",
 ["schedules", "inputs", "configurations"],
 "every conversation of a client with the command: how many sentences are given before which answers are awaited, and how the bytes are split",
 "Tests do not run the command at all; with whole files as input it can not be seen when an answer leaves the process.",
 ["src/jumandic/main/jumanpp.cc", "src/core/input/stream_reader.cc", "src/core/input/pex_stream_reader.cc"],
 [("conversation", "the loop of main(), StreamReader::readExample, hasNext")],
 observe=["bytes written to standard output at every attempt to read standard input", "exit status"])

prop("C27", "A training step moves the model toward the annotation and only where the analysis differs from it",
 "Training on a fully annotated sentence always works toward the annotated words: each word of the path trained towards spans exactly its annotated text and is the dictionary entry with the annotated values if there is one, otherwise an unknown word of the analysis that the specification accepts for it, otherwise a word made with exactly the annotated values (so a sentence with any segmentation, any values and unknown strings can be trained on). The loss is the weighted share of annotated and proposed words that disagree; the change asked for is exactly the features of the annotated path minus those of the best path at the words that disagree (or are outscored), up to the word set by the training mode, gains and losses balanced. For a partially annotated sentence exactly the words that contradict a constraint count, and what is gained are features of the best alternatives that satisfy all constraints. The update changes exactly the weights of those features by the soft-confidence-weighted rule (and by nothing if there is no loss), and taking away the initial random values only removes weights no larger than those values. All this holds whatever was trained on before, for every beam and global beam, training mode, model size and specification (also one whose columns are in another order than its fields), and after earlier steps failed for lack of memory.",
 ["inputs", "histories", "faults", "configurations"],
 "every sequence of fully and partially annotated sentences, every specification of training fields, every training mode and beam",
 "Tests train on single sentences of one specification, look at a few scores, and do not compare a difference or an update with what it should be; the sign of a difference, a wrong column or a wrong surface of an added word only shows as a model that is slightly worse.",
 ["src/core/training/trainer.cc", "src/core/training/loss.cc", "src/core/training/gold_example.cc", "src/core/training/full_example.cc", "src/core/training/partial_trainer.cc", "src/core/training/scw.cc", "src/core/input/partial_example.cc"],
 [("path trained towards", "TrainingExampleAdapter::ensureNodes, Trainer::prepare"), ("loss and difference", "LossCalculator::computeComparison, computeLoss, computeFeatureDiff"), ("partial annotation", "PartialTrainer::compute, PartialExample::checkViolation"), ("update", "SoftConfidenceWeighted::update, substractInitValues")],
 observe=["the nodes trained towards", "loss", "feature difference", "weights before and after an update"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
