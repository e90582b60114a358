"""Per-property configuration of the checks."""
SCHED = ["Scheduling is sequentially consistent: one thread runs at a time and can be preempted at synchronisation calls, atomics and conflicting plain memory accesses; hardware reordering of relaxed atomics is not simulated (a race detector covers unsynchronised accesses instead).",
         "A clean batch of seeds is evidence, not proof."]
STUB_THREADS = ["pthread mutex/condition/create/join, sleep and clock: simulator", "malloc/operator new: simulated heap with access checking"]
CHECKS = {}
def check(id, **k):
    k.setdefault("level", "exploration")
    CHECKS[id] = k

check("C02", quick=36000,
      rule="Seeded scenarios: 2-4 threads with up to 26 offer/recieve/waitFor/unblock operations on one queue (capacity 1-6, reserve 0-3), or 1-14 scripted jobs on an executor of 1-5 workers; random-walk, PCT, few-preemption and round-robin schedules, spurious wake-ups.",
      real=["util::bounded_queue", "TrainingExecutor", "TrainingExecutorThread", "libstdc++ thread/mutex/condition_variable"],
      stub=STUB_THREADS + ["ITrainer: scripted jobs"], assumptions=SCHED + ["queue indices below 2^32"])
check("C03", quick=30000,
      rule="Seeded scenarios: queue histories with blocking receivers, executors destroyed after a random number of submissions, collections and scheduling points, with failing jobs and failing thread creation.",
      real=["util::bounded_queue", "TrainingExecutor", "TrainingExecutorThread", "TrainingEnv (subset of the runs)"],
      stub=STUB_THREADS + ["ITrainer: scripted jobs"], assumptions=SCHED)
TRAIN_REAL = ["TrainingEnv", "TrainingExecutor and its threads", "TrainerBatch, OwningFullTrainer, OwningPartialTrainer", "FullExampleReader, PartialExampleReader", "SoftConfidenceWeighted", "AnalyzerImpl (lattice, beam, features)", "util::bounded_queue", "libstdc++ thread/mutex/condition_variable"]
TRAIN_STUB = STUB_THREADS + ["the dispatch-table entries prepare()/compute() of the trainers pass through a recorder which calls the original and can make it fail"]
TRAIN_ASSUME = SCHED + ["three-field test specification with a 25-word ambiguous dictionary; 128-1024 weights", "reads of the weight vector by workers while it is updated are deliberate in jumanpp and are exempt from the race detector"]
check("C01", quick=9000,
      rule="Seeded scenarios: corpus of 1-10 fully annotated examples (CSV or morph format) and 0-3 partial ones, batch size 1-6, 1-4 threads, 1-3 batch iterations, all training modes, beams, global beam; the recorded per-example losses and feature differences are replayed in every serial order until one gives the observed weights bit by bit.",
      real=TRAIN_REAL, stub=TRAIN_STUB, assumptions=TRAIN_ASSUME)
check("C04", quick=9000,
      rule="Seeded scenarios: as C01, with examples failing by status, standard exception, bad_alloc, a failing allocation at a random point of the real prepare/compute, an over-long sentence or a lattice too big for a page; afterwards training stops, goes on, repeats the batch or starts over.",
      real=TRAIN_REAL, stub=TRAIN_STUB, assumptions=TRAIN_ASSUME)
check("C05", quick=9000,
      rule="Seeded scenarios: 1-3 epochs; coverage counted per example, iteration and epoch; with batch size one weights and losses are compared bit by bit with training done serially by hand with a fresh trainer per example.",
      real=TRAIN_REAL, stub=TRAIN_STUB, assumptions=TRAIN_ASSUME)
AN_REAL = ["JumanppEnv, JumanppExec", "Analyzer/AnalyzerImpl, lattice, score processor, global beam", "RnnScorerGbeam", "all ten output formats", "PexStreamReader and partial analysis", "memory pools, FlatMap/FlatSet, printers", "libprotobuf"]
AN_STUB = ["malloc/operator new: simulated heap with access checking, poisoning, seeded layout and failing allocations", "files: simulated file system (model loaded in memory)"]
AN_ASSUME = ["Model trained at start on the minimal jumandic dictionary of the repository (plus a small RNN), sentences of at most ~40 characters.", "A clean batch of seeds is evidence, not proof."]
check("C06", quick=6000,
      rule="Seeded scenarios: an analyzer is given 1-8 inputs (valid, empty, invalid UTF-8, over-long, partially annotated, rejected ones), with random output format, beam sizes and RNN; each result is compared byte by byte with the one of a new analyzer, formatting is repeated, heap layout and contents of recycled memory are varied.",
      real=AN_REAL, stub=AN_STUB, assumptions=AN_ASSUME)
check("C07", quick=3000,
      rule="Seeded scenarios: 2-4 threads with analyzers and formatters of their own share one loaded model under a seeded scheduler and a race detector; each result is compared byte by byte with the one computed alone.",
      real=AN_REAL + ["libstdc++ thread/mutex"], stub=AN_STUB + STUB_THREADS, assumptions=AN_ASSUME + SCHED[:1])
check("C08", quick=16000,
      rule="Seeded scenarios: allocations fail (once, several times, or from then on) at a random point of the creation of an analyzer, of an analysis or of formatting; the failure must surface as std::bad_alloc or an error status, and then the same analyzer must give exactly the normal results.",
      real=AN_REAL, stub=AN_STUB, assumptions=AN_ASSUME + ["formats built on libprotobuf are left out: the library gives no guarantee about its objects after an allocation failed"])
FS_ASSUME = ["The simulated disk keeps any subset of unflushed pages, and torn pages, when power fails; flushed bytes and the metadata of completed calls survive.", "A clean batch of seeds is evidence, not proof."]
FS_STUB = ["open/stat/mmap/msync/munmap/write/posix_fallocate: simulated file system over real files in a scratch directory, with seeded errors, capacity and power failure", "malloc/operator new: simulated heap with access checking"]
check("C17", quick=40000,
      rule="Seeded histories of 2-30 open/map/write/flush/unmap/close/move operations on two MappedFiles, three fragments and two FullyMappedFiles over two files, with failing system calls, a full disk, closed standard input and a power failure at the end; an independent model of the files says what each operation may return and what every mapping and file must contain after each step.",
      real=["util::MappedFile", "util::MappedFileFragment", "util::FullyMappedFile"], stub=FS_STUB, assumptions=FS_ASSUME)
MODEL_REAL = ["ModelSaver, FilesystemModel, serialization", "util::MappedFile and fragments"]
check("C09", quick=24000,
      rule="Seeded models (0-5 parts, 0-5 blocks each, sizes 0-60000 bytes around page boundaries, comments up to 2500 bytes) saved over nothing, an old model, an old model with trailing bytes, garbage or an empty file, with random background write-back; the file is loaded and compared block by block, then power fails (all, none or a random subset of unflushed pages kept, torn pages) and it is loaded again.",
      real=MODEL_REAL, stub=FS_STUB, assumptions=FS_ASSUME)
check("C10", quick=30000,
      rule="Seeded models as in C09 (often an old and a new one of the same shape which differ in contents); the process stops at a random system call of the save, or a call fails and then the process ends; then power fails with a random subset of unflushed pages kept or torn, and the file must be refused or be exactly the old or the new model.",
      real=MODEL_REAL, stub=FS_STUB, assumptions=FS_ASSUME)
check("C12", quick=24000,
      rule="Seeded files: missing, empty, a real dictionary model, trained model or random container cut at a random byte (often inside the header or just before the end), garbage, magic with garbage, flipped header bytes, containers without dictionary, and failing open/stat/mmap calls; opened 1-3 times, then a good model is loaded by the same environment and compared with a new one.",
      real=MODEL_REAL + ["JumanppEnv", "BuiltDictionary, DictionaryHolder, perceptron and RNN loading"], stub=FS_STUB, assumptions=FS_ASSUME)
CMD_REAL = ["main() of jumanpp with its argument parsing", "InputOutput, PlainStreamReader, PexStreamReader", "JumanppEnv, JumanppExec, analysis and output formats", "libstdc++ file streams"]
CMD_STUB = ["read/write/open/close/stat/mmap: simulated files and standard streams with seeded short transfers, interrupts and errors", "malloc/operator new: simulated heap with access checking"]
CMD_ASSUME = ["The command runs inside the simulator process; exit() ends the run. Command-line logging goes to simulated standard error.", "Model trained at start on the minimal jumandic dictionary of the repository.", "A clean batch of seeds is evidence, not proof."]
check("C13", quick=5000,
      rule="Seeded sentence streams (valid, empty, comments, invalid UTF-8, over-long, partially annotated, unanalysable) given on standard input or in files in chunks of 1 byte up to everything, with interrupted reads and without final newline; output is compared with the one computed sentence by sentence with new analyzers.",
      real=CMD_REAL, stub=CMD_STUB, assumptions=CMD_ASSUME)
check("C14", quick=6000,
      rule="Seeded lists of 1-5 input files: readable, empty, missing, not permitted, directories, no descriptors left, read errors at a random byte (also of standard input); output must be the concatenation of the results of all readable sentences, exit status and message must tell of the failure, and the run must end within a step budget.",
      real=CMD_REAL, stub=CMD_STUB, assumptions=CMD_ASSUME)
check("C15", quick=8000,
      rule="Seeded runs writing to standard output, a file, a full disk, or a file which cannot be created: one or all writes fail from a random byte on, close fails, writes are short or interrupted; exit status zero only with complete output.",
      real=CMD_REAL, stub=CMD_STUB, assumptions=CMD_ASSUME)
check("C16", quick=60000,
      rule="Seeded documents of 0-7 examples in five formats (sentences, partially annotated stream, partially annotated corpus, CSV and morph corpus) with quotes, escapes, CRLF, comments, malformed rows, missing terminators; 1-3 documents per reader object, abandoned part way, in chunks of 1 byte up to everything, in recycled memory of random contents; up to 5 example objects live at once; compared with an independent parser.",
      real=["PlainStreamReader, PexStreamReader", "PartialExampleReader, FullExampleReader, TrainFieldsIndex", "util::CsvReader, CharBuffer, FullyMappedFile"], stub=["malloc/operator new: simulated heap with access checking", "files and stream buffers: simulated"],
      assumptions=["Streams have LF line ends; comment lines of corpora have LF line ends.", "A clean batch of seeds is evidence, not proof."])
TOOL_STUB = CMD_STUB + STUB_THREADS
TOOL_ASSUME = SCHED[:1] + ["The tools run inside the simulator process with the repository's minimal dictionaries and corpora of a few sentences.", "A clean batch of seeds is evidence, not proof."]
check("C11", quick=10000,
      rule="Seeded runs of ModelSaver and of every tool which saves a model: one call (open, write, fallocate, fsync, mmap, msync, rename, close ...) fails with a random error once or from then on, or the disk is full; the save must be reported as failed, exit status and messages must say so, and what is left must not load as something else.",
      real=["ModelSaver", "main() of jumanpp_tool, jpp_jumandic_bootstrap, jumanpp_v2_train with all they call"], stub=TOOL_STUB, assumptions=TOOL_ASSUME)
check("C18", quick=4000,
      rule="Seeded pairs of runs of the same tool (bootstrap, index, train) under different clocks (steady, jumping, frozen, backwards), heap contents and layouts, schedules and short transfers; model bytes and messages are compared.",
      real=["main() of jumanpp_tool, jpp_jumandic_bootstrap, jumanpp_v2_train with all they call", "training threads"], stub=TOOL_STUB + ["clock: simulator"], assumptions=TOOL_ASSUME)
check("C19", quick=12000,
      rule="Seeded runs of every tool with one of its named inputs missing, not permitted, unreadable, empty, a directory, not mappable, or malformed; the exit status, message, time and outputs left behind are checked.",
      real=["main() of jumanpp, jumanpp_tool, jpp_jumandic_bootstrap, jumanpp_v2_train with all they call"], stub=TOOL_STUB, assumptions=TOOL_ASSUME)
check("C20", quick=5000,
      rule="Seeded language models (layer 1-96, vocabulary from two words up, context order 1-3, symbols) and settings are embedded by the training tool; the jumanpp command analyses the same 1-6 sentences with the stored model and with separate files, with random overriding settings, beams, formats, chunked input and memory contents; outputs are compared byte by byte.",
      real=["main() of jumanpp_v2_train and jumanpp with all they call", "RnnScorerGbeam, mikolov RNN"], stub=CMD_STUB, assumptions=CMD_ASSUME)
check("C21", quick=5000,
      rule="Seeded runs of every tool (bootstrap, index, train, embedding, analysis, model information) and of loading and building a model by the library, where one allocation (any, an early or a late one), several, or all later ones fail; exit status, messages, outputs left behind and results are compared with a run that has memory, then the same is done again with memory.",
      real=["main() of jumanpp, jumanpp_tool, jpp_jumandic_bootstrap, jumanpp_v2_train with all they call", "JumanppEnv, DictionaryBuilder, ModelSaver"], stub=TOOL_STUB, assumptions=TOOL_ASSUME + ["generation of static features and the pathie-based file listing are left out: the library used there gives no guarantee after an allocation failed"])
check("C22", quick=4000,
      rule="Seeded specifications (1-9 fields in any column, all field types, empty markers, separators, shared storage, alignment, conditions, training loss, template rows) and dictionaries (1-2500 rows, quoting, line ends, merged rows, huge values, an ill-formed line) are built by the library or by jumanpp_tool, after an attempt that failed or crashed, with write-back and short transfers; then power fails, the model is loaded (maybe after a failed attempt) and every word, non-word, template row and the words found in texts are compared with an independent model of the rows.",
      real=["spec parser and compiler", "DictionaryBuilder, field importers, entry builder, double array", "ModelSaver, FilesystemModel", "DictionaryHolder, DictionaryEntries, OutputManager and field readers", "lattice seeds from the dictionary", "main() of jumanpp_tool"], stub=TOOL_STUB, assumptions=["Spec fields at most 12, rows at most 2500.", "A clean batch of seeds is evidence, not proof."])
check("C23", quick=30000,
      rule="Seeded histories of raw and partially annotated sentences are analysed with random beam, global beam and right-check sizes (or automatic beams) in ten environments (generated or interpreted features; no language model, or one of n-gram order 1-4) with random weights, small pages, recycled and poisoned memory and failing allocations in earlier analyses. Afterwards every connection, beam, global beam and total in the lattice is compared with an independent computation: the interpreted feature code applied to one triple of words at a time in another analyzer, and the language model evaluated in double precision along each path.",
      real=["Analyzer, lattice builder, score processor, beams", "generated and interpreted features", "RNN scorer, id resolver and MikolovRnn", "partial examples and the score plugin", "model loading"], stub=["heap (simulated allocator with failures)"], assumptions=["Scores are compared with a tolerance of 1e-3 + 4e-7 of their size, totals with 5e-3 + 2e-6.", "The interpreted feature code is the reference for single triples.", "A clean batch of seeds is evidence, not proof."])
check("C24", quick=14000,
      rule="Seeded sentences, annotations and comments are analysed with six models (three with dictionaries of words that are hard to print, random features and templates) and random beams, global beams and numbers of paths. Every candidate's fields are compared with the dictionary rows, then all eleven formats are run in random order, twice, with the same or a new object, after failed allocations, with small pages and poisoned memory; their text or objects are compared with what an independent formatter makes of the lattice and the rows.",
      real=["all output formats, OutputManager and field readers", "JumandicIdResolver", "Analyzer and lattice", "dictionary and model loading"], stub=["heap (simulated allocator with failures; not inside protobuf, which ends the process)"], assumptions=["The lattice of the analyzer is taken as the analysis (C23 decides its scores).", "A clean batch of seeds is evidence, not proof."])
check("C25", quick=24000,
      rule="Seeded histories of sentences made of dictionary words, their other spellings, numbers with separators and units, repetitions and every class of characters are analysed by one analyzer, with five dictionaries and models, random page sizes, poisoned recycled memory, refused inputs and failed allocations in between. All nodes of each lattice are compared with those an independent reference model of the rules makes from the rows of the dictionary.",
      real=["all makers of unknown words, dictionary lookup, character lattice, character classes", "LatticeBuilder, Lattice, Analyzer", "dictionary and model loading"], stub=["heap (simulated allocator with failures, page sizes and poisoning)"], assumptions=["The rules of the reference model are those of the code's documentation and of the unmodified rules of the character tables.", "A clean batch of seeds is evidence, not proof."])
check("C26", quick=5000,
      rule="Seeded conversations with the command: 1-8 sentences (comments, partial annotation, ones that cannot be analysed) of which none to three are given ahead and one to three at a time; the simulated standard input holds back what follows until the command asks for it, and at that moment the bytes written to standard output must be exactly the answers to all sentences given; reads and writes are split at random.",
      real=["main() of jumanpp with all it calls", "the C++ and C standard streams"], stub=CMD_STUB, assumptions=CMD_ASSUME)


check("C27", quick=10000,
      rule="Seeded training histories in one process: one of three specifications (a small one; Jumandic; one whose columns, fields and stored columns are all in different orders and which has training fields without weight), 1-6 fully and 0-3 partially annotated sentences built from dictionary words, changed values, unknown strings, katakana, joined words and constraints with and without tags, three training modes, beams, changing global beams, model sizes, batch sizes, 1-3 rounds with shuffling and removal of the initial values in between; allocation failures while a step is prepared or computed, after which the step is repeated. Every step is compared with a reference written from the property: path trained towards, loss, feature difference (also of partial annotations, with all beams of candidates), the update in double precision with its own confidence matrix, and the values taken away.",
      real=["TrainerBatch, OwningFullTrainer, OwningPartialTrainer, LossCalculator, TrainingExampleAdapter, PartialTrainer, SoftConfidenceWeighted", "readers of annotated corpora", "lattice construction and scoring"],
      stub=["heap (layout, contents and failures chosen by the seed)", "threads: the trainers of a batch are driven one after another in the order of the batch (C04 covers concurrent batches)"],
      assumptions=["n-gram features of three given nodes are taken from the feature computer (C25 and C23 check what a feature is made of)", "a difference which hangs on two scores closer than rounding is not compared (probe.threshold, probe.tie count them); the loss and the path still are"])
