From 8733ef87e583e6e88594d5896f5b3e4b8e208e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 01/74] fix: stop already started training threads when a later
 one can't be created

The queues were initialized after the threads, so if creating a thread failed
the destructor could not send the stop marker to the started ones
and waited for them forever.
---
 src/core/training/training_executor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index f627f31..f065d44 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -59,12 +59,13 @@ Status TrainingExecutor::initialize(const analysis::ScorerDef* sconf,
                                     u32 nthreads) {
   threads_.clear();
   try {
+    // queues must be usable even if only a part of threads was started
+    trainers_.initialize(nthreads * 2);
+    results_.initialize(nthreads * 2);
     for (u32 i = 0; i < nthreads; ++i) {
       threads_.emplace_back(
           new TrainingExecutorThread{sconf, &trainers_, &results_});
     }
-    trainers_.initialize(nthreads * 2);
-    results_.initialize(nthreads * 2);
   } catch (std::system_error& e) {
     return JPPS_INVALID_STATE << "failed to initialize executor: " << e.code()
                               << " msg: " << e.what();
-- 
2.43.0


From b387c5107ed5c71485fde49fbc3a1f1f5974aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 02/74] fix: training executor could not be destroyed with
 unfinished work

The destructor waited forever if jobs filled the queue (there was no space for
stop markers) or results filled theirs (workers could not hand over).
---
 src/core/training/training_executor.cc | 14 ++++++++++++--
 src/core/training/training_executor.h  |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index f065d44..5918ff0 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -11,10 +11,12 @@ namespace training {
 
 TrainingExecutorThread::TrainingExecutorThread(
     const analysis::ScorerDef* conf, util::bounded_queue<ITrainer*>* trainers,
-    util::bounded_queue<TrainingExecutionResult>* results)
+    util::bounded_queue<TrainingExecutionResult>* results,
+    const std::atomic<bool>* stopping)
     : scoreConf_{conf},
       trainers_{trainers},
       results_{results},
+      stopping_{stopping},
       thread_{TrainingExecutorThread::runMain, this} {}
 
 void TrainingExecutorThread::run() {
@@ -48,6 +50,9 @@ void TrainingExecutorThread::run() {
     }
     TrainingExecutionResult result{trainer, std::move(status)};
     while (!results_->offer(std::move(result))) {
+      if (stopping_->load()) {
+        return;  // nobody is going to collect the results
+      }
       std::this_thread::yield();
     }
   }
@@ -64,7 +69,7 @@ Status TrainingExecutor::initialize(const analysis::ScorerDef* sconf,
     results_.initialize(nthreads * 2);
     for (u32 i = 0; i < nthreads; ++i) {
       threads_.emplace_back(
-          new TrainingExecutorThread{sconf, &trainers_, &results_});
+          new TrainingExecutorThread{sconf, &trainers_, &results_, &stopping_});
     }
   } catch (std::system_error& e) {
     return JPPS_INVALID_STATE << "failed to initialize executor: " << e.code()
@@ -78,6 +83,11 @@ TrainingExecutionResult TrainingExecutor::waitOne() {
 }
 
 TrainingExecutor::~TrainingExecutor() {
+  stopping_.store(true);
+  // drop jobs which are not started yet to have space for stop markers
+  ITrainer* pending = nullptr;
+  while (trainers_.recieve(&pending))
+    ;  // do nothing
   while (trainers_.offer(nullptr))
     ;  // do nothing
   trainers_.unblock_all();
diff --git a/src/core/training/training_executor.h b/src/core/training/training_executor.h
index 9a6913d..10c16dc 100644
--- a/src/core/training/training_executor.h
+++ b/src/core/training/training_executor.h
@@ -31,6 +31,7 @@ class TrainingExecutorThread {
   const analysis::ScorerDef* scoreConf_;
   util::bounded_queue<ITrainer*>* trainers_;
   util::bounded_queue<TrainingExecutionResult>* results_;
+  const std::atomic<bool>* stopping_;
   std::thread thread_;
 
   void run();
@@ -41,7 +42,8 @@ class TrainingExecutorThread {
  public:
   explicit TrainingExecutorThread(
       const analysis::ScorerDef* conf, util::bounded_queue<ITrainer*>* trainers,
-      util::bounded_queue<TrainingExecutionResult>* results);
+      util::bounded_queue<TrainingExecutionResult>* results,
+      const std::atomic<bool>* stopping);
   void finish();
 };
 
@@ -49,6 +51,7 @@ class TrainingExecutor {
   std::vector<std::unique_ptr<TrainingExecutorThread>> threads_;
   util::bounded_queue<ITrainer*> trainers_;
   util::bounded_queue<TrainingExecutionResult> results_;
+  std::atomic<bool> stopping_{false};
 
  public:
   Status initialize(const analysis::ScorerDef* sconf, u32 nthreads);
-- 
2.43.0


From 58c701147da49e8ca58c0d3e6f95e419eda81db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 03/74] fix: refuse to train without threads instead of waiting
 forever

---
 src/core/training/training_executor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index 5918ff0..3a1894d 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -62,6 +62,9 @@ void TrainingExecutorThread::finish() { thread_.join(); }
 
 Status TrainingExecutor::initialize(const analysis::ScorerDef* sconf,
                                     u32 nthreads) {
+  if (nthreads == 0) {
+    return JPPS_INVALID_PARAMETER << "training needs at least one thread";
+  }
   threads_.clear();
   try {
     // queues must be usable even if only a part of threads was started
-- 
2.43.0


From de401d4ca2a2834e116c21578774f3b3f23b3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 04/74] fix: stop training threads before unmapping the corpus
 they read

---
 src/core/training/training_env.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/training/training_env.h b/src/core/training/training_env.h
index 85240cf..ad4a4d5 100644
--- a/src/core/training/training_env.h
+++ b/src/core/training/training_env.h
@@ -62,7 +62,6 @@ class TrainingEnv {
   input::PartialExampleReader partReader_;
   TrainerBatch trainers_;
   SoftConfidenceWeighted scw_;
-  TrainingExecutor executor_;
 
   StringPiece currentFilename_;
   util::FullyMappedFile currentFile_;
@@ -73,6 +72,10 @@ class TrainingEnv {
 
   GlobalBeamTrainConfig globalBeamCfg_;
 
+  // must be the last member: its threads use everything above (examples
+  // reference the contents of currentFile_) and are joined in its destructor
+  TrainingExecutor executor_;
+
  public:
   TrainingEnv(const TrainingArguments& args, JumanppEnv* env)
       : args_{args}, env_{env}, scw_{args.trainingConfig} {
-- 
2.43.0


From cd73e314193554b69254f18d8fcfa365c6d98cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 05/74] fix: collect in-flight examples before reporting a
 failed one

---
 src/core/training/training_env.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/training/training_env.cc b/src/core/training/training_env.cc
index 539ecda..190bb82 100644
--- a/src/core/training/training_env.cc
+++ b/src/core/training/training_env.cc
@@ -77,7 +77,15 @@ Status TrainingEnv::trainOneBatch(i32 iterNum) {
     }
 
     // step2: wait for ready trainers and process them
-    JPP_RETURN_IF_ERROR(handleProcessedTrainer(executor_.waitOne(), &curLoss));
+    Status s = handleProcessedTrainer(executor_.waitOne(), &curLoss);
+    if (!s) {
+      // other examples are still in flight: their results must not leak
+      // into the next batch and nothing may use their trainers until then
+      for (int done = processedTrainers + 1; done < submittedTrainers; ++done) {
+        executor_.waitOne();
+      }
+      JPP_RETURN_IF_ERROR(std::move(s));
+    }
   }
 
   JPP_DCHECK_EQ(executor_.nowReady(), 0);
-- 
2.43.0


From 720e9af878e7e5fc2c7db806b259b6a94ef572bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 06/74] fix: report an object larger than a memory page as
 std::bad_alloc

---
 src/util/assert.h   | 3 ++-
 src/util/memory.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/assert.h b/src/util/assert.h
index dc7c0ea..bdbdd35 100644
--- a/src/util/assert.h
+++ b/src/util/assert.h
@@ -23,7 +23,8 @@
 #elif defined(_WIN32_WINNT)
 #define JPP_BREAK_TO_DEBUGGER_IF_ATTACHED() __debugbreak()
 #else
-#define JPP_BREAK_TO_DEBUGGER_IF_ATTACHED() __builtin_trap()
+#define JPP_BREAK_TO_DEBUGGER_IF_ATTACHED() \
+  if (::jumanpp::util::asserts::isDebuggerAttached()) __builtin_trap()
 #endif
 
 namespace jumanpp {
diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index 440dab0..8291703 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -136,7 +136,7 @@ bool PoolAlloc::switchToNewPage(size_t size) {
     LOG_ERROR() << "page size (" << page.size << " is lesser than object size ("
                 << size << "), please increase page size";
     JPP_BREAK_TO_DEBUGGER_IF_ATTACHED();
-    throw new std::bad_alloc();
+    throw std::bad_alloc();
   }
   base_ = reinterpret_cast<char*>(page.base);
   offset_ = 0;
-- 
2.43.0


From ecbed34cfef9fb43d944bb60187282a24f6919d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 07/74] fix: reserve the protobuf output buffer before creating
 streams that write into it

---
 src/jumandic/shared/juman_pb_format.cc   | 5 +++--
 src/jumandic/shared/jumanpp_pb_format.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jumandic/shared/juman_pb_format.cc b/src/jumandic/shared/juman_pb_format.cc
index cb51ceb..4d78027 100644
--- a/src/jumandic/shared/juman_pb_format.cc
+++ b/src/jumandic/shared/juman_pb_format.cc
@@ -124,11 +124,12 @@ struct JumanPbFormatImpl {
 
     if (fillBuffer_) {
       buffer_.clear();
+      auto messageSize = obj_.ByteSizeLong();
+      // the stream writes directly to the buffer, don't resize it afterwards
+      buffer_.reserve(messageSize);
       google::protobuf::io::StringOutputStream os{&buffer_};
       google::protobuf::io::CodedOutputStream cos{&os};
-      auto messageSize = obj_.ByteSizeLong();
       cos.WriteVarint64(messageSize);
-      buffer_.reserve(messageSize);
       if (!obj_.SerializeToCodedStream(&cos)) {
         return JPPS_INVALID_STATE << "failed to serialize LatticeDump";
       }
diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 7f22ba9..a22ba77 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -213,11 +213,12 @@ struct JumanppProtobufOutputImpl {
 
     if (fillBuffer_) {
       buffer_.clear();
+      auto messageSize = object_.ByteSizeLong();
+      // the stream writes directly to the buffer, don't resize it afterwards
+      buffer_.reserve(messageSize);
       google::protobuf::io::StringOutputStream os{&buffer_};
       google::protobuf::io::CodedOutputStream cos{&os};
-      auto messageSize = object_.ByteSizeLong();
       cos.WriteVarint64(messageSize);
-      buffer_.reserve(messageSize);
       if (!object_.SerializeToCodedStream(&cos)) {
         return JPPS_INVALID_STATE << "failed to serialize LatticeDump";
       }
-- 
2.43.0


From 6596266c853c7d2d77a18476977b6380bdd763cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 08/74] fix: initialise the EOS beam for an empty input

---
 src/core/analysis/analyzer_impl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 323a3ec..541b38f 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -201,6 +201,9 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
 
   auto bndCount = lattice_.createdBoundaryCount();
   if (bndCount <= 3) {  // 2xBOS + EOS
+    // there are no paths, but formatters look at the EOS beam
+    EntryBeam::initializeBlock(
+        lattice_.boundary(bndCount - 1)->starts()->beamData().data());
     return Status::Ok();
   }
 
@@ -254,6 +257,9 @@ Status AnalyzerImpl::computeScoresGbeam(const ScorerDef* sconf) {
 
   auto bndCount = lattice_.createdBoundaryCount();
   if (bndCount <= 3) {  // 2xBOS + EOS
+    // there are no paths, but formatters look at the EOS beam
+    EntryBeam::initializeBlock(
+        lattice_.boundary(bndCount - 1)->starts()->beamData().data());
     return Status::Ok();
   }
 
-- 
2.43.0


From 1c303ae3a9f849f4a276c756fb2443145c07c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 09/74] fix: do not score an empty global beam

---
 src/core/analysis/score_processor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 6386666..e445770 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -350,8 +350,10 @@ void ScoreProcessor::computeGbeamScores(i32 bndIdx,
     for (auto t0idx = 0; t0idx < t0data.numRows(); ++t0idx) {
       JPP_CAPTURE(t0idx);
       auto t0 = t0data.row(t0idx);
-      ngramApply_->applyBiTri(&featureBuffer_, t0idx, t0, t1data, t2data,
-                              t1Ptrs, features, result);
+      if (gbeam.size() > 0) {  // nothing may end at this boundary
+        ngramApply_->applyBiTri(&featureBuffer_, t0idx, t0, t1data, t2data,
+                                t1Ptrs, features, result);
+      }
       auto t0Score = scores_.bufferT0().at(t0idx);
       applyPluginToGbeam(bndIdx, t0idx, gbeam, result);
       copyT0Scores(bndIdx, t0idx, gbeam, result, t0Score);
-- 
2.43.0


From b1f98a6f3791cf2bbd0b346a52e81892e3cf4ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 10/74] fix: lattice format header must not read past the EOS
 beam

---
 src/jumandic/shared/lattice_format.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 9937511..a5fd9e6 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -111,7 +111,8 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto eosBeam = eos->starts()->beamData();
 
-    for (int i = 0; i < outputN; ++i) {
+    auto maxN = std::min<i32>(eosBeam.size(), outputN);
+    for (int i = 0; i < maxN; ++i) {
       auto& bel = eosBeam.at(i);
       if (core::analysis::EntryBeam::isFake(bel)) {
         break;
-- 
2.43.0


From d64d8e594e40542e4ae72fdb9e9c2ea508f87d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:45 +0000
Subject: [PATCH 11/74] fix: clear scores of additional scorers for paths they
 do not look at

---
 src/core/analysis/score_processor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index e445770..c2c61f6 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -420,7 +420,12 @@ void ScoreProcessor::copyT0Scores(i32 bndIdx, i32 t0idx,
     auto &v = scores.at(i);
     v += t0Score;
     auto &gb = gbeam.at(i);
-    nscores.beamLeft(gb.beam(), gb.left()).at(0) = v;
+    auto stored = nscores.beamLeft(gb.beam(), gb.left());
+    stored.at(0) = v;
+    // other scorers look only at the paths which reach EOS
+    for (u32 scorer = 1; scorer < nscores.numScorers(); ++scorer) {
+      stored.at(scorer) = 0;
+    }
     v += gb.score();
   }
 }
-- 
2.43.0


From 363f32d589ec9ff2917d88bcd427de9513688bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:45 +0000
Subject: [PATCH 12/74] fix: reset the position of an analysis path for an
 empty input

---
 src/core/analysis/analysis_result.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/analysis_result.cc b/src/core/analysis/analysis_result.cc
index 1948017..48707ab 100644
--- a/src/core/analysis/analysis_result.cc
+++ b/src/core/analysis/analysis_result.cc
@@ -27,6 +27,8 @@ Status AnalysisPath::fillIn(const Lattice *l) {
   JPP_DCHECK_GE(bnds, 3);
   elems_.clear();
   offsets_.clear();
+  currentChunk_ = -1;
+  currentNode_ = -1;
   elems_.reserve(bnds * 2);
   offsets_.reserve(bnds);
   if (bnds == 3) {  // empty string
@@ -70,8 +72,6 @@ Status AnalysisPath::fillIn(const Lattice *l) {
     topPtr = topPtr->previous;
   }
 
-  currentChunk_ = -1;
-
   return Status::Ok();
 }
 }  // namespace analysis
-- 
2.43.0


From d8fd56c1fd434f0e33bc885b86b198d26487f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:24 +0000
Subject: [PATCH 13/74] fix: global beam position format must not follow a fake
 EOS path

---
 src/core/impl/global_beam_position_fmt.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/impl/global_beam_position_fmt.cc b/src/core/impl/global_beam_position_fmt.cc
index 38f7030..c6b035c 100644
--- a/src/core/impl/global_beam_position_fmt.cc
+++ b/src/core/impl/global_beam_position_fmt.cc
@@ -33,6 +33,10 @@ Status GlobalBeamPositionFormat::format(
   auto lat = analyzer.impl()->lattice();
   auto eosBnd = lat->boundary(lat->createdBoundaryCount() - 1);
   auto top1Eos = eosBnd->starts()->beamData().at(0);
+  if (analysis::EntryBeam::isFake(top1Eos)) {  // no paths: empty input
+    printer_ << '\n';
+    return Status::Ok();
+  }
 
   auto proc = analysis::ScoreProcessor::make(analyzer.impl());
   JPP_RETURN_IF_ERROR(std::move(proc.first));
-- 
2.43.0


From df27e11d7b6bd49bfd482de654d30d6ff333b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 14/74] fix: clear pattern features of the EOS node of an empty
 input

---
 src/core/analysis/analyzer_impl.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 541b38f..f857b64 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -201,9 +201,11 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
 
   auto bndCount = lattice_.createdBoundaryCount();
   if (bndCount <= 3) {  // 2xBOS + EOS
-    // there are no paths, but formatters look at the EOS beam
-    EntryBeam::initializeBlock(
-        lattice_.boundary(bndCount - 1)->starts()->beamData().data());
+    // there are no paths, but formatters look at the EOS node
+    auto eos = lattice_.boundary(bndCount - 1)->starts();
+    EntryBeam::initializeBlock(eos->beamData().data());
+    auto patterns = eos->patternFeatureData();
+    util::fill(patterns, 0);
     return Status::Ok();
   }
 
@@ -257,9 +259,11 @@ Status AnalyzerImpl::computeScoresGbeam(const ScorerDef* sconf) {
 
   auto bndCount = lattice_.createdBoundaryCount();
   if (bndCount <= 3) {  // 2xBOS + EOS
-    // there are no paths, but formatters look at the EOS beam
-    EntryBeam::initializeBlock(
-        lattice_.boundary(bndCount - 1)->starts()->beamData().data());
+    // there are no paths, but formatters look at the EOS node
+    auto eos = lattice_.boundary(bndCount - 1)->starts();
+    EntryBeam::initializeBlock(eos->beamData().data());
+    auto patterns = eos->patternFeatureData();
+    util::fill(patterns, 0);
     return Status::Ok();
   }
 
-- 
2.43.0


From aba3b20b74fd9fdc0713c1950dcf37f88c775420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 15/74] fix: RnnIdContainer constructor allocates memory and
 must not be noexcept

---
 src/core/analysis/rnn_id_resolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.h b/src/core/analysis/rnn_id_resolver.h
index 5d26829..f5d91fd 100644
--- a/src/core/analysis/rnn_id_resolver.h
+++ b/src/core/analysis/rnn_id_resolver.h
@@ -149,7 +149,7 @@ class RnnIdContainer {
                                 const BeamCandidate& cand);
 
  public:
-  RnnIdContainer(util::memory::PoolAlloc* alloc) noexcept : alloc_{alloc} {}
+  RnnIdContainer(util::memory::PoolAlloc* alloc) : alloc_{alloc} {}
   RnnIdContainer(const RnnIdContainer&) = delete;
   void reset(u32 numBoundaries, u32 beamSize);
   const RnnBoundary& rnnBoundary(u32 bndIdx) const {
-- 
2.43.0


From 1850892f5dcba57e2cc74abe7760d0462e85c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 16/74] fix: report failures to allocate the output of a
 Printer

---
 src/util/printer.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/printer.h b/src/util/printer.h
index 990baaa..f8a7f86 100644
--- a/src/util/printer.h
+++ b/src/util/printer.h
@@ -21,7 +21,10 @@ class PrinterBuffer final : public std::stringbuf {
 
 class PrinterStream final : public std::ostream {
  public:
-  PrinterStream(PrinterBuffer* ptr) : std::ostream(ptr) {}
+  PrinterStream(PrinterBuffer* ptr) : std::ostream(ptr) {
+    // do not lose the output silently when there is no memory for it
+    exceptions(std::ios_base::badbit);
+  }
 };
 }  // namespace impl
 
@@ -73,7 +76,10 @@ class Printer {
     data_ << o;
   }
 
-  void reset() { buf_.reset(); }
+  void reset() {
+    data_.clear();
+    buf_.reset();
+  }
 
   StringPiece result() const { return buf_.contents(); }
 
-- 
2.43.0


From d966a19707070b471562b16ea057450d549d03f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 17/74] fix: keep hash tables consistent when an entry can not
 be created

---
 src/util/flatmap.h | 19 ++++++++++++++++---
 src/util/flatrep.h | 26 +++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/util/flatmap.h b/src/util/flatmap.h
index d55d6cb..5a1c180 100644
--- a/src/util/flatmap.h
+++ b/src/util/flatmap.h
@@ -303,7 +303,7 @@ class FlatMap {
     auto t = rep_.FindOrInsert(k);
     auto& v = t.b->val(t.index);
     if (!t.found) {
-      new (&v) Val{f()};
+      initNewVal(t, [&]() { new (&v) Val{f()}; });
     }
     return v;
   }
@@ -356,6 +356,18 @@ class FlatMap {
         std::is_trivially_destructible<Val>::value;
   };
 
+  // An entry without a value must not stay in the table
+  template <typename Result, typename Fn>
+  void initNewVal(const Result& r, Fn fn) {
+    try {
+      fn();
+    } catch (...) {
+      r.b->key(r.index).Key::~Key();
+      rep_.Abandon(r.b, r.index);
+      throw;
+    }
+  }
+
   template <typename Pair>
   std::pair<iterator, bool> InsertPair(Pair&& p) {
     return Insert(std::forward<decltype(p.first)>(p.first),
@@ -368,7 +380,7 @@ class FlatMap {
     auto r = rep_.FindOrInsert(std::forward<K>(k));
     const bool inserted = !r.found;
     if (inserted) {
-      r.b->InitVal(r.index, std::forward<V>(v));
+      initNewVal(r, [&]() { r.b->InitVal(r.index, std::forward<V>(v)); });
     }
     return {iterator(r.b, rep_.limit(), r.index), inserted};
   }
@@ -379,7 +391,8 @@ class FlatMap {
     auto r = rep_.FindOrInsert(std::forward<K>(k));
     Val* vptr = &r.b->val(r.index);
     if (!r.found) {
-      new (vptr) Val();  // Initialize value in new slot.
+      // Initialize value in new slot.
+      initNewVal(r, [&]() { new (vptr) Val(); });
     }
     return *vptr;
   }
diff --git a/src/util/flatrep.h b/src/util/flatrep.h
index e8fcc86..2d3c20d 100644
--- a/src/util/flatrep.h
+++ b/src/util/flatrep.h
@@ -70,8 +70,9 @@ class FlatRep {
   void CopyFrom(const FlatRep& src) {
     if (this != &src) {
       clear_no_resize();
-      allocator_->Reclaim(array_);
+      Bucket* old = array_;
       Init(src.size());
+      allocator_->Reclaim(old);
       CopyEntries(src.array_, src.end_, CopyEntry());
     }
   }
@@ -186,6 +187,12 @@ class FlatRep {
 
   void Erase(Bucket* b, uint32 i) {
     b->Destroy(i);
+    Abandon(b, i);
+  }
+
+  // Remove an entry which contents are already destroyed
+  // (or were never created).
+  void Abandon(Bucket* b, uint32 i) {
     b->marker[i] = kDeleted;
     deleted_++;
     grow_ = 0;  // Consider shrinking on next insert
@@ -219,7 +226,20 @@ class FlatRep {
     Bucket* old = array_;
     Bucket* old_end = end_;
     Init(N);
-    CopyEntries(old, old_end, MoveEntry());
+    try {
+      CopyEntries(old, old_end, MoveEntry());
+    } catch (...) {
+      // entries which were not moved yet are lost
+      for (Bucket* b = old; b != old_end; ++b) {
+        for (uint32 i = 0; i < kWidth; ++i) {
+          if (b->marker[i] >= 2) {
+            b->Destroy(i);
+          }
+        }
+      }
+      allocator_->Reclaim(old);
+      throw;
+    }
     allocator_->Reclaim(old);
   }
 
@@ -313,9 +333,9 @@ class FlatRep {
       Bucket* b = &array_[index >> kBase];
       const uint32 x = b->marker[bi];
       if (x == 0) {
+        copier(b, bi, src, src_index);
         b->marker[bi] = marker;
         not_empty_++;
-        copier(b, bi, src, src_index);
         return;
       }
       index = NextIndex(index, num_probes);
-- 
2.43.0


From a83ea6f176221764251a0534ffdc23c26572f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:58 +0000
Subject: [PATCH 18/74] fix: hash of a ConnectionPtr must not depend on memory
 addresses

---
 src/core/analysis/lattice_config.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/lattice_config.h b/src/core/analysis/lattice_config.h
index 0fd443e..2a06593 100644
--- a/src/core/analysis/lattice_config.h
+++ b/src/core/analysis/lattice_config.h
@@ -118,7 +118,8 @@ struct hash<jumanpp::core::analysis::ConnectionPtr> {
     result += static_cast<u64>(ptr.left) * 0x1251'2512'5191'fa99ULL;
     result += static_cast<u64>(ptr.right) * 0x7612'51fa'6122'9887ULL;
     result += static_cast<u64>(ptr.beam) * 0x9212'2321'af22'246fULL;
-    result += reinterpret_cast<u64>(ptr.previous) * 0x4512'1221'5555'4121ULL;
+    // the address of the previous pointer must not influence the result: it is
+    // not a part of equality and differs from one execution to another
     u8 shift = static_cast<u8>(result >> 59);
     return static_cast<size_t>(result ^ (result >> shift));
   }
-- 
2.43.0


From df956661267ec4ca92dd3c2a2dd6271812d0d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 19/74] fix: do not write past the stored global beam when a
 bigger one is made for output

---
 src/core/analysis/score_processor.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index c2c61f6..a09990c 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -268,9 +268,10 @@ util::ArraySlice<BeamCandidate> ScoreProcessor::makeGlobalBeam(i32 bndIdx,
   // std::cerr << maxElems << ":" << VOut(slice) << "\n";
   auto gbptrs = ends->globalBeam();
   if (gbptrs.size() > 0) {
-    JPP_DCHECK_LE(res.size(), gbptrs.size());
-    ends->setGlobalBeamSize(res.size());
-    for (int i = 0; i < res.size(); ++i) {
+    // more elements than it was analysed with can be requested for output
+    auto published = std::min(res.size(), gbptrs.size());
+    ends->setGlobalBeamSize(published);
+    for (int i = 0; i < published; ++i) {
       auto beamEl = res.at(i);
       auto left = leftNodes.at(beamEl.left());
       auto nodeBnd = lattice_->boundary(left.boundary);
-- 
2.43.0


From 28d18781fa046c8a1c0de7f65a70478448a6d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 20/74] fix: a mapped file fragment that maps nothing is empty
 and can be unmapped

---
 src/util/mmap_impl_unix.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index a0b85a3..41acd3f 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -195,7 +195,11 @@ void MappedFile::close() {
   }
 }
 
-MappedFileFragment::MappedFileFragment() noexcept : address_{MAP_FAILED} {}
+MappedFileFragment::MappedFileFragment() noexcept
+    : baseAddress_{MAP_FAILED},
+      address_{MAP_FAILED},
+      alignedSize_{0},
+      size_{0} {}
 
 MappedFileFragment::~MappedFileFragment() {
   if (!isClean()) {
@@ -204,9 +208,14 @@ MappedFileFragment::~MappedFileFragment() {
 }
 
 void MappedFileFragment::unmap() {
+  if (isClean()) {
+    return;
+  }
   ::munmap(baseAddress_, alignedSize_);
   baseAddress_ = MAP_FAILED;
   address_ = MAP_FAILED;
+  alignedSize_ = 0;
+  size_ = 0;
 }
 
 bool MappedFileFragment::isClean() { return address_ == MAP_FAILED; }
@@ -221,6 +230,9 @@ Status MappedFileFragment::flush() {
 }
 
 StringPiece MappedFileFragment::asStringPiece() const {
+  if (address_ == MAP_FAILED) {
+    return StringPiece{};
+  }
   const auto *asChar = reinterpret_cast<StringPiece::pointer_t>(address_);
   return StringPiece(asChar, size_);
 }
-- 
2.43.0


From 7174ca081f714dc7652a87e6b7a93ed065f9cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 21/74] fix: moved file fragments must own the complete mapping

---
 src/util/mmap_impl_unix.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index 41acd3f..cec9554 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -238,15 +238,29 @@ StringPiece MappedFileFragment::asStringPiece() const {
 }
 
 MappedFileFragment::MappedFileFragment(MappedFileFragment &&o) noexcept
-    : address_{o.address_}, size_{o.size_} {
+    : baseAddress_{o.baseAddress_},
+      address_{o.address_},
+      alignedSize_{o.alignedSize_},
+      size_{o.size_} {
+  o.baseAddress_ = MAP_FAILED;
   o.address_ = MAP_FAILED;
+  o.alignedSize_ = 0;
+  o.size_ = 0;
 }
 
 MappedFileFragment &MappedFileFragment::operator=(
     MappedFileFragment &&o) noexcept {
-  address_ = o.address_;
-  size_ = o.size_;
-  o.address_ = MAP_FAILED;
+  if (this != &o) {
+    unmap();
+    baseAddress_ = o.baseAddress_;
+    address_ = o.address_;
+    alignedSize_ = o.alignedSize_;
+    size_ = o.size_;
+    o.baseAddress_ = MAP_FAILED;
+    o.address_ = MAP_FAILED;
+    o.alignedSize_ = 0;
+    o.size_ = 0;
+  }
   return *this;
 }
 
-- 
2.43.0


From 7b8e8eae27b687f3b3f9bd292a21f0576f4c4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 22/74] fix: flushing a file fragment which does not start at a
 page boundary

---
 src/util/mmap_impl_unix.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index cec9554..a3a260e 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -221,7 +221,11 @@ void MappedFileFragment::unmap() {
 bool MappedFileFragment::isClean() { return address_ == MAP_FAILED; }
 
 Status MappedFileFragment::flush() {
-  int status = ::msync(address_, size(), MS_SYNC);
+  if (isClean()) {
+    return JPPS_INVALID_STATE << "can't flush a fragment which is not mapped";
+  }
+  // msync needs an address which is aligned to pages
+  int status = ::msync(baseAddress_, alignedSize_, MS_SYNC);
   if (status != 0) {
     return Status::InvalidState()
            << "could not flush mapped contents, error: " << strerror(errno);
-- 
2.43.0


From e66ee69620398d32b7003363a550ef506fbc121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 23/74] fix: descriptor 0 is a valid descriptor of a mapped
 file

---
 src/util/mmap.h           |  5 ++++-
 src/util/mmap_impl_unix.h | 14 +++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/util/mmap.h b/src/util/mmap.h
index 927977d..8f3f250 100644
--- a/src/util/mmap.h
+++ b/src/util/mmap.h
@@ -53,12 +53,15 @@ class MappedFileFragment {
 
 #if defined(_WIN32_WINNT)
 typedef void *fd_t;
+#define JPP_CLOSED_FD nullptr
 #else
 typedef int fd_t;
+// 0 is a valid file descriptor
+#define JPP_CLOSED_FD -1
 #endif
 
 class MappedFile {
-  fd_t fd_ = 0;
+  fd_t fd_ = JPP_CLOSED_FD;
   std::string filename_;
   MMapType type_;
   size_t size_ = 0;
diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index a3a260e..641b383 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -14,23 +14,23 @@ MappedFile::MappedFile(MappedFile &&o) noexcept
       filename_{std::move(o.filename_)},
       type_{o.type_},
       size_{o.size_} {
-  o.fd_ = 0;
+  o.fd_ = JPP_CLOSED_FD;
 }
 
 MappedFile &MappedFile::operator=(MappedFile &&o) noexcept {
-  if (this->fd_ != 0) {
+  if (this->fd_ != JPP_CLOSED_FD) {
     ::close(fd_);
   }
   fd_ = o.fd_;
   filename_ = std::move(o.filename_);
   type_ = o.type_;
   size_ = o.size_;
-  o.fd_ = 0;
+  o.fd_ = JPP_CLOSED_FD;
   return *this;
 }
 
 MappedFile::~MappedFile() {
-  if (this->fd_ != 0) {
+  if (this->fd_ != JPP_CLOSED_FD) {
     ::close(fd_);
   }
 }
@@ -50,7 +50,7 @@ struct PageSizeInfo {
 };
 
 Status MappedFile::open(StringPiece filename, MMapType type) {
-  if (fd_ != 0) {
+  if (fd_ != JPP_CLOSED_FD) {
     return Status::InvalidState()
            << "mmap has already opened file " << this->filename_;
   }
@@ -187,9 +187,9 @@ Status MappedFile::map(MappedFileFragment *view, size_t offset, size_t size,
 }
 
 void MappedFile::close() {
-  if (fd_ != 0) {
+  if (fd_ != JPP_CLOSED_FD) {
     ::close(fd_);
-    fd_ = 0;
+    fd_ = JPP_CLOSED_FD;
     filename_.clear();
     size_ = 0;
   }
-- 
2.43.0


From ab8af386eb474d084a8f435e7b3745c3bd4e5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 24/74] fix: check parameters of file mappings

---
 src/util/mmap_impl_unix.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index 641b383..388ab23 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -109,6 +109,15 @@ Status MappedFile::map(MappedFileFragment *view, size_t offset, size_t size,
 
   auto endoffset = offset + size;
 
+  if (fd_ == JPP_CLOSED_FD) {
+    return JPPS_INVALID_STATE << "can't map a file which is not opened";
+  }
+
+  if (endoffset < offset) {
+    return JPPS_INVALID_PARAMETER << "offset=" << offset << " and size=" << size
+                                  << " are too large for file " << filename_;
+  }
+
   static PageSizeInfo psInfo{};
   size_t offsetPsAligned = (offset / psInfo.normalPage) * psInfo.normalPage;
   size_t sizePsAligned = endoffset - offsetPsAligned;
-- 
2.43.0


From cd3a7e33d7ae002bd7c619ca4acd273e265279a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 25/74] fix: extending a mapped file overwrote data and ignored
 a full disk

---
 src/util/mmap_impl_unix.h | 48 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index 388ab23..1360b49 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -5,6 +5,7 @@
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <unistd.h>
+#include <algorithm>
 
 namespace jumanpp {
 namespace util {
@@ -100,7 +101,28 @@ Status MappedFile::open(StringPiece filename, MMapType type) {
   return Status::Ok();
 }
 
-const char ZERO[] = {'\0'};
+// Makes the file contain the range and have disk space for it: it is not
+// possible to report a full disk when writing to mapped memory.
+// Existing contents of the file do not change.
+static int reserveSpace(int fd, off_t offset, off_t size) {
+#if defined(__APPLE__)
+  struct stat statResult;
+  if (::fstat(fd, &statResult) != 0) {
+    return errno;
+  }
+  if (statResult.st_size < offset + size &&
+      ::ftruncate(fd, offset + size) != 0) {
+    return errno;
+  }
+  return 0;
+#else
+  int error;
+  do {
+    error = ::posix_fallocate(fd, offset, size);
+  } while (error == EINTR);
+  return error;
+#endif
+}
 
 Status MappedFile::map(MappedFileFragment *view, size_t offset, size_t size,
                        bool useHuge) {
@@ -139,25 +161,19 @@ Status MappedFile::map(MappedFileFragment *view, size_t offset, size_t size,
       protection = PROT_READ;
       flags = MAP_PRIVATE;
       break;
-    case MMapType::ReadWrite:
-      if (endoffset > size_) {
-        off_t fileoffset = static_cast<off_t>(endoffset) - 1;
-        auto retval = ::lseek(fd_, fileoffset, SEEK_SET);
-        if (retval == -1) {
-          return JPPS_INVALID_STATE << "[seek] could not extend file "
-                                    << filename_ << " to " << endoffset
-                                    << "bytes";
-        }
-        auto write_ret = ::write(fd_, ZERO, 1);
-        if (write_ret == -1) {
-          return JPPS_INVALID_STATE << "[write] could not extend file "
-                                    << filename_ << " to " << endoffset
-                                    << "bytes";
-        }
+    case MMapType::ReadWrite: {
+      int error = reserveSpace(fd_, static_cast<off_t>(offset),
+                               static_cast<off_t>(size));
+      if (error != 0) {
+        return JPPS_INVALID_STATE << "could not extend file " << filename_
+                                  << " to " << endoffset
+                                  << " bytes: " << strerror(error);
       }
+      size_ = std::max(size_, endoffset);
       protection = PROT_READ | PROT_WRITE;
       flags = MAP_SHARED;
       break;
+    }
   }
 
   void *addr = MAP_FAILED;
-- 
2.43.0


From 9533e0a33b82aa39bfdbec7f2397f4bac5d4e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 26/74] fix: close a file which could not be mapped

---
 src/util/mmap.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/mmap.cc b/src/util/mmap.cc
index 40b6e32..054b7a0 100644
--- a/src/util/mmap.cc
+++ b/src/util/mmap.cc
@@ -27,7 +27,11 @@ Status FullyMappedFile::open(StringPiece filename, MMapType type) {
     this->close();
   }
   JPP_RETURN_IF_ERROR(file_.open(filename, type));
-  JPP_RETURN_IF_ERROR(file_.map(&fragment_, 0, file_.size()));
+  Status s = file_.map(&fragment_, 0, file_.size());
+  if (!s) {
+    file_.close();
+    return s;
+  }
   return Status::Ok();
 }
 
-- 
2.43.0


From 94167ab4971e3a15cd4cde6e1e8df47e237d0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 27/74] fix: a moved-from mapped file has no size

---
 src/util/mmap_impl_unix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index 1360b49..0ca616b 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -16,6 +16,7 @@ MappedFile::MappedFile(MappedFile &&o) noexcept
       type_{o.type_},
       size_{o.size_} {
   o.fd_ = JPP_CLOSED_FD;
+  o.size_ = 0;
 }
 
 MappedFile &MappedFile::operator=(MappedFile &&o) noexcept {
@@ -27,6 +28,7 @@ MappedFile &MappedFile::operator=(MappedFile &&o) noexcept {
   type_ = o.type_;
   size_ = o.size_;
   o.fd_ = JPP_CLOSED_FD;
+  o.size_ = 0;
   return *this;
 }
 
-- 
2.43.0


From a0cd9878c5fc2f4786b0721bf01b50a30e74a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 28/74] fix: deserialization of damaged data must fail

---
 src/util/serialization.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index 38429e3..944bc1e 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -72,10 +72,14 @@ class Loader {
 
   template <typename T>
   void operator&(T &o) {
-    status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
+    // a failure must not be hidden by fields which are read after it
+    status_ = status_ && SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
   }
 
-  void reset(StringPiece data) { parser_.reset(data); }
+  void reset(StringPiece data) {
+    parser_.reset(data);
+    status_ = true;
+  }
 
   bool status() const { return status_; }
 };
@@ -251,8 +255,10 @@ struct SerializeImpl<std::vector<T, A>> {
                                      util::CodedBufferParser &p) {
     u64 sz;
     JPP_RET_CHECK(p.readVarint64(&sz));
+    // each element occupies at least one byte
+    if (sz > p.remaining()) return false;
     o.reserve(sz);
-    for (int i = 0; i < sz; ++i) {
+    for (u64 i = 0; i < sz; ++i) {
       o.emplace_back();
       JPP_RET_CHECK(SerializeImpl<T>::DoSerializeLoad(o.back(), s, p));
     }
-- 
2.43.0


From f8fc808b26b52aeb5341f52db55eeb3dfb658319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 29/74] fix: reject damaged model files and stay usable after
 it

---
 src/core/impl/model_io.cc | 63 +++++++++++++++++++++++++++++----------
 src/core/impl/model_io.h  |  1 +
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index c1c3575..6e8fb36 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -21,9 +21,10 @@ namespace core {
 namespace model {
 
 static const char ModelMagic[] = "jp2Mdl!";
+static constexpr size_t ModelHeaderSize = 4096;
 
 struct ModelFile {
-  StringPiece name;
+  std::string name;
   util::MappedFile mmap;
   util::MappedFileFragment fragment;
   ModelInfoRaw rawModel;
@@ -38,9 +39,10 @@ Status ModelSaver::open(StringPiece name) {
     return Status::InvalidState()
            << "another file, " << file_->name << " is already opened";
   }
-  file_.reset(new ModelFile);
-  JPP_RETURN_IF_ERROR(file_->mmap.open(name, util::MMapType::ReadWrite));
-  file_->name = name;
+  std::unique_ptr<ModelFile> file{new ModelFile};
+  JPP_RETURN_IF_ERROR(file->mmap.open(name, util::MMapType::ReadWrite));
+  file->name = name.str();
+  file_ = std::move(file);
   return Status::Ok();
 }
 
@@ -107,35 +109,57 @@ Status FilesystemModel::open(StringPiece name) {
     return JPPS_INVALID_STATE << "another file, " << file_->name
                               << " is already opened";
   }
-  file_.reset(new ModelFile);
-  JPP_RETURN_IF_ERROR(file_->mmap.open(name, util::MMapType::ReadOnly));
-  file_->name = name;
+  // this object stays closed if anything goes wrong
+  std::unique_ptr<ModelFile> file{new ModelFile};
+  JPP_RETURN_IF_ERROR(file->mmap.open(name, util::MMapType::ReadOnly));
+  file->name = name.str();
+
+  auto fileSize = file->mmap.size();
+  if (fileSize < ModelHeaderSize) {
+    return JPPS_INVALID_STATE << "file " << file->name
+                              << " is too short to be a model";
+  }
 
-  auto& hdrFrag = file_->fragment;
-  JPP_RETURN_IF_ERROR(
-      file_->mmap.map(&file_->fragment, 0, file_->mmap.size(), true));
+  auto& hdrFrag = file->fragment;
+  JPP_RETURN_IF_ERROR(file->mmap.map(&hdrFrag, 0, fileSize, true));
   auto sp = hdrFrag.asStringPiece();
-  auto magicSp = StringPiece{ModelMagic};
+  auto magicSp = StringPiece{ModelMagic, ModelMagic + sizeof(ModelMagic)};
   if (sp.take(magicSp.size()) != magicSp) {
-    return JPPS_INVALID_STATE << "model file " << file_->name
+    return JPPS_INVALID_STATE << "model file " << file->name
                               << " has corrupted header";
   }
 
-  auto rest = sp.slice(sizeof(ModelMagic), 4096 - sizeof(ModelMagic));
+  auto rest = sp.slice(sizeof(ModelMagic), ModelHeaderSize);
   util::CodedBufferParser cbp{rest};
   u64 hdrSize = 0;
   if (!cbp.readVarint64(&hdrSize)) {
     return JPPS_INVALID_STATE << "could not read header size from "
-                              << file_->name;
+                              << file->name;
+  }
+
+  if (hdrSize > cbp.remaining()) {
+    return JPPS_INVALID_STATE << "model file " << file->name
+                              << " has too large model header";
   }
 
   util::serialization::Loader l{
       rest.slice(cbp.numReadBytes(), cbp.numReadBytes() + hdrSize)};
-  if (!l.load(&file_->rawModel)) {
-    return JPPS_INVALID_STATE << "model file " << file_->name
+  if (!l.load(&file->rawModel)) {
+    return JPPS_INVALID_STATE << "model file " << file->name
                               << " has corrupted model header";
   }
 
+  for (auto& part : file->rawModel.parts) {
+    for (auto& block : part.data) {
+      if (block.size != 0 &&
+          (block.offset > fileSize || block.size > fileSize - block.offset)) {
+        return JPPS_INVALID_STATE << "model file " << file->name
+                                  << " is truncated";
+      }
+    }
+  }
+
+  file_ = std::move(file);
   return Status::Ok();
 }
 
@@ -153,6 +177,11 @@ Status FilesystemModel::load(ModelInfo* info) {
     part.kind = p.kind;
     part.comment = p.comment;
     for (auto& raw : p.data) {
+      if (raw.size == 0) {
+        // there is nothing to point at in the file
+        part.data.emplace_back();
+        continue;
+      }
       ptrdiff_t start = static_cast<ptrdiff_t>(raw.offset);
       ptrdiff_t end = static_cast<ptrdiff_t>(start + raw.size);
       part.data.push_back(modelData.slice(start, end));
@@ -162,6 +191,8 @@ Status FilesystemModel::load(ModelInfo* info) {
   return Status::Ok();
 }
 
+void FilesystemModel::close() { file_.reset(); }
+
 StringPiece FilesystemModel::name() const {
   if (file_) {
     return file_->name;
diff --git a/src/core/impl/model_io.h b/src/core/impl/model_io.h
index 6931dfe..4a6acb1 100644
--- a/src/core/impl/model_io.h
+++ b/src/core/impl/model_io.h
@@ -37,6 +37,7 @@ class FilesystemModel {
   ~FilesystemModel();
   Status open(StringPiece name);
   Status load(ModelInfo* info);
+  void close();
   StringPiece name() const;
   void renderInfo();
 };
-- 
2.43.0


From e68c4e7974f6bff3f259aa4d2d916665978b57e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 30/74] fix: saving a model must be safe against crashes and
 write failures

---
 src/core/impl/model_io.cc | 49 +++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index 6e8fb36..6cd39c2 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -51,8 +51,10 @@ Status ModelSaver::save(const ModelInfo& info) {
     return Status::InvalidState() << "can't save model, file is not opened";
   }
 
+  // Compute the header first: a model which can not be saved must not destroy
+  // the previous contents of the file.
   ModelInfoRaw raw{};
-  size_t offset = 4096;
+  size_t offset = ModelHeaderSize;
   for (auto& part : info.parts) {
     ModelPartRaw rawPart;
     rawPart.kind = part.kind;
@@ -60,9 +62,6 @@ Status ModelSaver::save(const ModelInfo& info) {
     rawPart.comment = part.comment;
 
     for (auto& buf : part.data) {
-      util::MappedFileFragment frag;
-      JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, offset, buf.size()));
-      std::memcpy(frag.address(), buf.data(), buf.size());
       rawPart.data.push_back(BlockPtr{offset, buf.size()});
       offset = util::memory::Align(offset + buf.size(), 4096);
     }
@@ -84,18 +83,38 @@ Status ModelSaver::save(const ModelInfo& info) {
   util::CodedBuffer cb;
   cb.writeVarint(p1s);
 
-  util::MappedFileFragment frag;
-  JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, 0, 4096));
-  auto slice = frag.asMutableSlice();
-  char* begin = slice.begin();
-  std::memcpy(begin, ModelMagic, sizeof(ModelMagic));
-  begin += sizeof(ModelMagic);
-  std::memcpy(begin, cb.contents().begin(), cb.position());
-  begin += cb.position();
-  std::memcpy(begin, p1.data(), p1.size());
+  // There is a valid magic in the file only if everything else is on the disk
+  // as well, so a file which was written partially is never taken for a model.
+  util::MappedFileFragment header;
+  JPP_RETURN_IF_ERROR(file_->mmap.map(&header, 0, ModelHeaderSize));
+  char* begin = header.asMutableSlice().begin();
+  std::memset(begin, 0, sizeof(ModelMagic));
+  JPP_RETURN_IF_ERROR(header.flush());
+
+  for (size_t partNo = 0; partNo < info.parts.size(); ++partNo) {
+    auto& part = info.parts[partNo];
+    auto& rawPart = raw.parts[partNo];
+    for (size_t bufNo = 0; bufNo < part.data.size(); ++bufNo) {
+      auto& buf = part.data[bufNo];
+      if (buf.size() == 0) {
+        continue;
+      }
+      util::MappedFileFragment frag;
+      JPP_RETURN_IF_ERROR(
+          file_->mmap.map(&frag, rawPart.data[bufNo].offset, buf.size()));
+      std::memcpy(frag.address(), buf.data(), buf.size());
+      JPP_RETURN_IF_ERROR(frag.flush());
+    }
+  }
 
-  JPP_RETURN_IF_ERROR(frag.flush());
-  frag.unmap();
+  char* position = begin + sizeof(ModelMagic);
+  std::memcpy(position, cb.contents().begin(), cb.position());
+  position += cb.position();
+  std::memcpy(position, p1.data(), p1.size());
+  JPP_RETURN_IF_ERROR(header.flush());
+
+  std::memcpy(begin, ModelMagic, sizeof(ModelMagic));
+  JPP_RETURN_IF_ERROR(header.flush());
 
   return Status::Ok();
 }
-- 
2.43.0


From 47cb5395d8ee37e8d972d8cd86c932f2ec3fd9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 31/74] fix: the environment can load a model after it rejected
 another one

---
 src/core/dic/dictionary.cc |  1 +
 src/core/env.cc            | 16 ++++++++++++++++
 src/core/env.h             |  2 ++
 3 files changed, 19 insertions(+)

diff --git a/src/core/dic/dictionary.cc b/src/core/dic/dictionary.cc
index fae96f2..7419bfa 100644
--- a/src/core/dic/dictionary.cc
+++ b/src/core/dic/dictionary.cc
@@ -20,6 +20,7 @@ Status fillEntriesHolder(const BuiltDictionary& dic, EntriesHolder* result) {
 }
 
 Status FieldsHolder::load(const BuiltDictionary& dic) {
+  fields_.clear();
   for (i32 index = 0; index < dic.fieldData.size(); ++index) {
     auto& f = dic.fieldData[index];
     auto& sf = dic.spec.dictionary.fields[f.specIndex];
diff --git a/src/core/env.cc b/src/core/env.cc
index 569826d..0af7392 100644
--- a/src/core/env.cc
+++ b/src/core/env.cc
@@ -10,6 +10,22 @@ namespace core {
 
 Status JumanppEnv::loadModel(StringPiece filename) {
   JPP_RETURN_IF_ERROR(modelFile_.open(filename));
+  auto scorers = scorers_;
+  auto scoringConf = scoringConf_;
+  Status s = initializeFromModelFile();
+  if (!s) {
+    // it should be possible to load another model after this one
+    core_.reset();
+    dicBldr_ = dic::BuiltDictionary{};
+    modelInfo_ = model::ModelInfo{};
+    scorers_ = scorers;
+    scoringConf_ = scoringConf;
+    modelFile_.close();
+  }
+  return s;
+}
+
+Status JumanppEnv::initializeFromModelFile() {
   JPP_RETURN_IF_ERROR(modelFile_.load(&modelInfo_));
   JPP_RETURN_IF_ERROR(dicBldr_.restoreDictionary(modelInfo_));
   JPP_RETURN_IF_ERROR(dicHolder_.load(dicBldr_));
diff --git a/src/core/env.h b/src/core/env.h
index a765e85..aea7d1c 100644
--- a/src/core/env.h
+++ b/src/core/env.h
@@ -34,6 +34,8 @@ class JumanppEnv {
   analysis::RnnScorerGbeamFactory rnnHolder_;
   analysis::ScorerDef scorers_;
 
+  Status initializeFromModelFile();
+
  public:
   Status loadModel(StringPiece filename);
 
-- 
2.43.0


From bce9f1d6e9baa3c6b5b403c05ab5f3332406afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 32/74] fix: read all input files, report the ones which can
 not be read

---
 src/jumandic/main/jumanpp.cc | 69 +++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 77d9278..e2a5974 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -3,6 +3,7 @@
 //
 
 #include "jumanpp.h"
+#include <cstdio>
 #include <fstream>
 #include <iostream>
 #include "core/input/pex_stream_reader.h"
@@ -17,43 +18,34 @@ struct InputOutput {
   int currentInFile_ = 0;
   const std::vector<std::string>* inFiles_;
   StringPiece currentInputFilename_;
-  std::istream* input_;
+  std::istream* input_ = nullptr;
 
   std::unique_ptr<std::ofstream> fileOutput_;
   std::ostream* output_;
 
   Status moveToNextFile() {
     auto& fn = (*inFiles_)[currentInFile_];
+    currentInFile_ += 1;
+    currentInputFilename_ = fn;
     fileInput_.reset(new std::ifstream{fn});
-    if (fileInput_->bad()) {
-      return JPPS_INVALID_PARAMETER << "failed to open output file: " << fn;
-    }
     input_ = fileInput_.get();
-    currentInputFilename_ = fn;
-    currentInFile_ += 1;
+    if (!fileInput_->is_open()) {
+      return JPPS_INVALID_PARAMETER << "failed to open input file: " << fn;
+    }
     return Status::Ok();
   }
 
-  Status nextInput() {
-    if (*input_) {
-      JPP_RETURN_IF_ERROR(streamReader_->readExample(input_));
-      return Status::Ok();
-    }
-
-    if (input_->fail()) {
-      return JPPS_INVALID_STATE << "failed when reading from file: "
-                                << currentInputFilename_;
-    }
+  Status nextInput() { return streamReader_->readExample(input_); }
 
-    return JPPS_NOT_IMPLEMENTED << "should not reach here, it is a bug";
+  // std::cin does not tell read errors from the end of input, stdio does
+  bool readFailed() const {
+    return input_->bad() || (input_ == &std::cin && std::ferror(stdin) != 0);
   }
 
   Status initialize(const jumandic::JumanppConf& conf,
                     const core::CoreHolder& cholder) {
     inFiles_ = &conf.inputFiles.value();
-    if (!inFiles_->empty()) {
-      JPP_RETURN_IF_ERROR(moveToNextFile());
-    } else {
+    if (inFiles_->empty()) {
       input_ = &std::cin;
       currentInputFilename_ = "<stdin>";
     }
@@ -79,21 +71,29 @@ struct InputOutput {
     return Status::Ok();
   }
 
-  bool hasNext() {
-    if (input_->good()) {
-      auto ch = input_->peek();
-      if (ch == std::char_traits<char>::eof()) {
+  // Inputs which can not be read are reported and skipped.
+  bool hasNext(int* result) {
+    while (true) {
+      if (input_ != nullptr) {
+        if (input_->good() &&
+            input_->peek() != std::char_traits<char>::eof()) {
+          return true;
+        }
+        if (readFailed()) {
+          std::cerr << "failed when reading from file: "
+                    << currentInputFilename_ << "\n";
+          *result = 1;
+        }
+      }
+      if (currentInFile_ >= inFiles_->size()) {
         return false;
       }
-    }
-    while (input_->eof() && currentInFile_ < inFiles_->size()) {
       auto s = moveToNextFile();
       if (!s) {
-        LOG_ERROR() << s.message();
+        std::cerr << s << "\n";
+        *result = 1;
       }
     }
-    auto isOk = !input_->eof();
-    return isOk;
   }
 };
 
@@ -153,16 +153,20 @@ int main(int argc, const char** argv) {
 
   int result = 0;
 
-  while (io.hasNext()) {
+  while (io.hasNext(&result)) {
     s = io.nextInput();
+    if (io.readFailed()) {
+      // the input is incomplete, hasNext() reports it
+      continue;
+    }
+
     if (!s) {
       std::cerr << "failed to read an example: " << s;
+      *io.output_ << exec.emptyResult();
       result = 1;
       continue;
     }
 
-    result = 0;
-
     s = io.streamReader_->analyzeWith(exec.analyzerPtr());
     if (!s) {
       std::cerr << s;
@@ -173,6 +177,7 @@ int main(int argc, const char** argv) {
     s = exec.format()->format(*exec.analyzerPtr(), io.streamReader_->comment());
     if (!s) {
       std::cerr << s;
+      *io.output_ << exec.emptyResult();
     } else {
       *io.output_ << exec.format()->result();
     }
-- 
2.43.0


From 007c09a5714801f2950c84a89cd23a950d28f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 33/74] fix: a comment of a partial example was kept for the
 following ones

---
 src/core/input/partial_example_io.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index b72f2d1..d79981a 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -29,6 +29,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
   result->noBreak_.clear();
   result->surface_.clear();
   result->nodes_.clear();
+  result->comment_.clear();
   while (csv_.nextLine()) {
     if (firstLine) {
       result->line_ = csv_.lineNumber();
-- 
2.43.0


From 75b24baef965d37bcfae85fb467adb7f717d7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:01 +0000
Subject: [PATCH 34/74] fix: report output which could not be written

---
 src/jumandic/main/jumanpp.cc | 48 ++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index e2a5974..a4587be 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -12,6 +12,14 @@
 
 using namespace jumanpp;
 
+Status flushOutput(std::ostream& output) {
+  output.flush();
+  if (!output || (&output == &std::cout && std::ferror(stdout) != 0)) {
+    return JPPS_INVALID_STATE << "failed to write output";
+  }
+  return Status::Ok();
+}
+
 struct InputOutput {
   std::unique_ptr<core::input::StreamReader> streamReader_;
   std::unique_ptr<std::ifstream> fileInput_;
@@ -37,6 +45,17 @@ struct InputOutput {
 
   Status nextInput() { return streamReader_->readExample(input_); }
 
+  Status finishOutput() {
+    JPP_RETURN_IF_ERROR(flushOutput(*output_));
+    if (fileOutput_) {
+      fileOutput_->close();
+      if (!*fileOutput_) {
+        return JPPS_INVALID_STATE << "failed to close output file";
+      }
+    }
+    return Status::Ok();
+  }
+
   // std::cin does not tell read errors from the end of input, stdio does
   bool readFailed() const {
     return input_->bad() || (input_ == &std::cin && std::ferror(stdin) != 0);
@@ -54,6 +73,10 @@ struct InputOutput {
       output_ = &std::cout;
     } else {
       fileOutput_.reset(new std::ofstream{conf.outputFile});
+      if (!fileOutput_->is_open()) {
+        return JPPS_INVALID_PARAMETER << "failed to open output file: "
+                                      << conf.outputFile.value();
+      }
       output_ = fileOutput_.get();
     }
 
@@ -97,6 +120,15 @@ struct InputOutput {
   }
 };
 
+int finishStdout() {
+  Status s = flushOutput(std::cout);
+  if (!s) {
+    std::cerr << s << "\n";
+    return 1;
+  }
+  return 0;
+}
+
 int main(int argc, const char** argv) {
   std::unique_ptr<std::ifstream> filePtr;
 
@@ -116,7 +148,7 @@ int main(int argc, const char** argv) {
   if (!s.isOk()) {
     if (conf.outputType == jumandic::OutputType::Version) {
       exec.printFullVersion();
-      return 0;
+      return finishStdout();
     }
 
     if (conf.modelFile.isDefault()) {
@@ -126,7 +158,7 @@ int main(int argc, const char** argv) {
 
     if (conf.outputType == jumandic::OutputType::ModelInfo) {
       exec.printModelInfo();
-      return 0;
+      return finishStdout();
     }
 
     std::cerr << "failed to load model from disk: " << s;
@@ -135,12 +167,12 @@ int main(int argc, const char** argv) {
 
   if (conf.outputType == jumandic::OutputType::Version) {
     exec.printFullVersion();
-    return 0;
+    return finishStdout();
   }
 
   if (conf.outputType == jumandic::OutputType::ModelInfo) {
     exec.printModelInfo();
-    return 0;
+    return finishStdout();
   }
 
   InputOutput io;
@@ -153,7 +185,7 @@ int main(int argc, const char** argv) {
 
   int result = 0;
 
-  while (io.hasNext(&result)) {
+  while (*io.output_ && io.hasNext(&result)) {
     s = io.nextInput();
     if (io.readFailed()) {
       // the input is incomplete, hasNext() reports it
@@ -183,5 +215,11 @@ int main(int argc, const char** argv) {
     }
   }
 
+  s = io.finishOutput();
+  if (!s) {
+    std::cerr << s << "\n";
+    result = 1;
+  }
+
   return result;
 }
-- 
2.43.0


From 58c5a40d7b84098afb93ae4c143f0417dd659b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 35/74] fix: printing information of a model which can not be
 read is an error

---
 src/jumandic/main/jumanpp.cc        | 15 +++++++++++----
 src/jumandic/shared/jumandic_env.cc |  9 ++++-----
 src/jumandic/shared/jumandic_env.h  |  2 +-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index a4587be..a6faaa9 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -129,6 +129,15 @@ int finishStdout() {
   return 0;
 }
 
+int printModelInfo(const jumandic::JumanppExec& exec) {
+  Status s = exec.printModelInfo();
+  if (!s) {
+    std::cerr << "failed to load model from disk: " << s << "\n";
+    return 1;
+  }
+  return 0;
+}
+
 int main(int argc, const char** argv) {
   std::unique_ptr<std::ifstream> filePtr;
 
@@ -157,8 +166,7 @@ int main(int argc, const char** argv) {
     }
 
     if (conf.outputType == jumandic::OutputType::ModelInfo) {
-      exec.printModelInfo();
-      return finishStdout();
+      return printModelInfo(exec);
     }
 
     std::cerr << "failed to load model from disk: " << s;
@@ -171,8 +179,7 @@ int main(int argc, const char** argv) {
   }
 
   if (conf.outputType == jumandic::OutputType::ModelInfo) {
-    exec.printModelInfo();
-    return finishStdout();
+    return printModelInfo(exec);
   }
 
   InputOutput io;
diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index b6fe65f..edabc2c 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -173,12 +173,11 @@ Status JumanppExec::writeGraphviz() {
   return Status::Ok();
 }
 
-void JumanppExec::printModelInfo() const {
+Status JumanppExec::printModelInfo() const {
   core::model::FilesystemModel model;
-  Status s = model.open(this->conf.modelFile.value());
-  if (s) {
-    model.renderInfo();
-  }
+  JPP_RETURN_IF_ERROR(model.open(this->conf.modelFile.value()));
+  model.renderInfo();
+  return Status::Ok();
 }
 
 void JumanppExec::printFullVersion() const {
diff --git a/src/jumandic/shared/jumandic_env.h b/src/jumandic/shared/jumandic_env.h
index 7b6c73d..29c1816 100644
--- a/src/jumandic/shared/jumandic_env.h
+++ b/src/jumandic/shared/jumandic_env.h
@@ -67,7 +67,7 @@ class JumanppExec {
 
   virtual ~JumanppExec() = default;
 
-  void printModelInfo() const;
+  Status printModelInfo() const;
 
   void printFullVersion() const;
   StringPiece emptyResult() const;
-- 
2.43.0


From eba2d96527c11d8b2b9d81ece23cc7d66d48f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 36/74] fix: training tools report that the model could not be
 saved

---
 src/core/tool/train_cmd.cc         | 1 +
 src/jumandic/main/jumanpp_train.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/tool/train_cmd.cc b/src/core/tool/train_cmd.cc
index ab26c2b..1e4b8bb 100644
--- a/src/core/tool/train_cmd.cc
+++ b/src/core/tool/train_cmd.cc
@@ -59,6 +59,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index e862032..02b86a4 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -216,6 +216,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
-- 
2.43.0


From 4ca38c23234927f54625e8b663275229e91c4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 37/74] fix: training stops if the partially annotated corpus
 can not be loaded

---
 src/core/tool/train_cmd.cc         | 1 +
 src/jumandic/main/jumanpp_train.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/tool/train_cmd.cc b/src/core/tool/train_cmd.cc
index 1e4b8bb..0147c46 100644
--- a/src/core/tool/train_cmd.cc
+++ b/src/core/tool/train_cmd.cc
@@ -89,6 +89,7 @@ int doTrainJpp(const t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index 02b86a4..1c8ab94 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -246,6 +246,7 @@ int doTrainJpp(t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
-- 
2.43.0


From 2c19a975c83fc330088f51b7588991540fe0b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:16 +0000
Subject: [PATCH 38/74] fix: csv data which ends with a separator was read
 again and again

---
 src/util/csv_reader.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/util/csv_reader.cc b/src/util/csv_reader.cc
index 33c9cb7..52336ea 100644
--- a/src/util/csv_reader.cc
+++ b/src/util/csv_reader.cc
@@ -32,12 +32,10 @@ bool CsvReader::nextLine() {
   for (;; ++position) {
     // This block executes when end of file is reached
     if (position == end) {
-      if (field_start != position) {
-        if (shouldEmit) {
-          fields_.emplace_back(field_start, position);
-        }
-        position_ = position;
+      if (shouldEmit) {
+        fields_.emplace_back(field_start, position);
       }
+      position_ = position;
       break;
     }
 
-- 
2.43.0


From db85c7dec670365c199b983c8b175f1aafb7f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:30 +0000
Subject: [PATCH 39/74] fix: an ill-formed csv line is an error and not the end
 of the data

---
 src/core/dic/dic_build_detail.cc     |  5 +++++
 src/core/input/partial_example_io.cc |  4 ++++
 src/core/training/full_example.cc    | 12 ++++++++++--
 src/util/csv_reader.h                |  5 +++++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 7683a46..12d3eff 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -95,6 +95,11 @@ Status DictionaryBuilderStorage::computeStats(StringPiece name,
     }
     ++numLine;
   }
+  if (csv->hasError()) {
+    return Status::InvalidParameter()
+           << "dictionary file " << name << " has an ill-formed line "
+           << csv->lineNumber();
+  }
   return Status::Ok();
 }
 
diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index d79981a..c5d3cef 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -126,6 +126,10 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     result->nodes_.push_back(std::move(nc));
   }
+  if (csv_.hasError()) {
+    return JPPS_INVALID_PARAMETER << "ill-formed line at " << filename_ << ":"
+                                  << csv_.lineNumber();
+  }
   *eof = true;
   return Status::Ok();
 }
diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 1827166..ac8f763 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -71,13 +71,21 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
 
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
+  if (csv_.hasError()) {
+    return JPPS_INVALID_PARAMETER << "ill-formed line " << filename_ << ":"
+                                  << csv_.lineNumber();
+  }
   finished_ = true;
   return Status::Ok();
 }
 
 Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
-  finished_ = !csv_.nextLine();
-  if (finished_) {
+  if (!csv_.nextLine()) {
+    if (csv_.hasError()) {
+      return JPPS_INVALID_PARAMETER << "ill-formed line " << filename_ << ":"
+                                    << csv_.lineNumber();
+    }
+    finished_ = true;
     return Status::Ok();
   }
 
diff --git a/src/util/csv_reader.h b/src/util/csv_reader.h
index 297141c..cb9c2d9 100644
--- a/src/util/csv_reader.h
+++ b/src/util/csv_reader.h
@@ -81,6 +81,11 @@ class CsvReader {
   Status open(StringPiece filename);
   Status initFromMemory(StringPiece data);
   bool nextLine();
+  /**
+   * Tells whether nextLine() returned false because the line was ill-formed and
+   * not because there are no more lines.
+   */
+  bool hasError() const { return position_ != end_; }
   i32 numFields() const;
   StringPiece field(i32 idx) const;
   i64 lineNumber() const { return line_number_; }
-- 
2.43.0


From 5f488c0c25bebe64d015e191332e9dbfc83281c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:30 +0000
Subject: [PATCH 40/74] fix: a corpus line with too few fields was read out of
 bounds

---
 src/core/training/full_example.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index ac8f763..08d4c8c 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -120,12 +120,6 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
 
 Status FullExampleReader::readSingleExampleFragment(
     const util::CsvReader &csv, FullyAnnotatedExample *result) {
-  codepts_.clear();
-  auto surfFld = csv.field(tio_->surfaceFieldIdx());
-
-  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
-  result->lengths_.push_back(codepts_.size());
-
   auto fields = tio_->fields();
 
   if (csv.numFields() < fields.size()) {
@@ -133,6 +127,12 @@ Status FullExampleReader::readSingleExampleFragment(
            << "a word from the line #" << csv_.lineNumber() << " had "
            << csv.numFields() << " fields, expected " << fields.size();
   }
+
+  codepts_.clear();
+  auto surfFld = csv.field(tio_->surfaceFieldIdx());
+
+  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
+  result->lengths_.push_back(codepts_.size());
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
-- 
2.43.0


From 6106e0992848fcd199daba92fd715ed143e40fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:04 +0000
Subject: [PATCH 41/74] fix: the last example of a corpus was dropped if
 nothing terminated it

---
 src/core/training/full_example.cc | 3 ++-
 src/core/training/trainer.cc      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 08d4c8c..69d0617 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -75,7 +75,8 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
     return JPPS_INVALID_PARAMETER << "ill-formed line " << filename_ << ":"
                                   << csv_.lineNumber();
   }
-  finished_ = true;
+  // the last example may have no terminator
+  finished_ = result->lengths_.empty();
   return Status::Ok();
 }
 
diff --git a/src/core/training/trainer.cc b/src/core/training/trainer.cc
index 60d1f29..13068cd 100644
--- a/src/core/training/trainer.cc
+++ b/src/core/training/trainer.cc
@@ -144,7 +144,8 @@ Status TrainerBatch::readPartialExamples(input::PartialExampleReader *reader) {
     auto &partialTrainer = trainer->trainer_.value();
     JPP_RETURN_IF_ERROR(reader->readExample(&partialTrainer.example(), &eof));
     trainer->reset();
-    if (eof) {
+    // the last example may have no terminator
+    if (eof && partialTrainer.example().surface().empty()) {
       break;
     }
     JPP_DCHECK(scorerDef_);
-- 
2.43.0


From 6249f433a1b9241ee1d00281fe794a93bfa2fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:04 +0000
Subject: [PATCH 42/74] fix: code generation reports files which could not be
 written

---
 src/core/codegen/feature_codegen.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/codegen/feature_codegen.cc b/src/core/codegen/feature_codegen.cc
index 0ee180b..014a4e9 100644
--- a/src/core/codegen/feature_codegen.cc
+++ b/src/core/codegen/feature_codegen.cc
@@ -60,7 +60,10 @@ Status StaticFeatureCodegen::writeHeader(const std::string& filename) {
         << spec::hashSpec(this->spec_) << "ULL; }\n";
     ofs << "};\n"
         << "} //namespace jumanpp_generated\n";
-
+    ofs.close();
+    if (!ofs) {
+      return Status::InvalidState() << "failed to write " << filename;
+    }
   } catch (std::exception& e) {
     return Status::InvalidState()
            << "failed to generate " << filename << ": " << e.what();
@@ -230,6 +233,10 @@ Status StaticFeatureCodegen::writeSource(const std::string& filename) {
   try {
     std::ofstream ofs(filename);
     ofs << p.result();
+    ofs.close();
+    if (!ofs) {
+      return Status::InvalidState() << "failed to write " << filename;
+    }
   } catch (std::exception& e) {
     return Status::InvalidState()
            << "failed to generate " << filename << ": " << e.what();
-- 
2.43.0


From 26b6580a836f26f5753a498235bb57e4d1ded99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:03 +0000
Subject: [PATCH 43/74] fix: errors in command line arguments and configuration
 files were ignored

---
 src/jumandic/main/bootstrap.cc      | 2 +-
 src/jumandic/shared/jumanpp_args.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jumandic/main/bootstrap.cc b/src/jumandic/main/bootstrap.cc
index 007d333..d9a52e0 100644
--- a/src/jumandic/main/bootstrap.cc
+++ b/src/jumandic/main/bootstrap.cc
@@ -88,7 +88,7 @@ Status parseArgs(BootstrapArgs* bargs, int argc, const char* argv[]) {
     std::cout << parser;
     exit(1);
   } catch (args::ParseError& e) {
-    Status::InvalidParameter() << e.what() << "\n" << parser;
+    return Status::InvalidParameter() << e.what() << "\n" << parser;
   } catch (...) {
     return Status::InvalidParameter();
   }
diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index a03b5c9..8a3a85c 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -175,7 +175,7 @@ struct JppArgsParser {
       std::cerr << parser;
       exit(1);
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter() << "unknown exception happened";
     }
@@ -205,7 +205,7 @@ struct JppArgsParser {
     } catch (args::Help&) {
       return Status::InvalidParameter() << parser;
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter();
     }
-- 
2.43.0


From 70b6b3e2825ca8798c3feacba52bcea08c7e03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 44/74] fix: a truncated rnn model was read out of bounds

---
 src/rnn/mikolov_rnn.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 4d3c675..fbbe0bb 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -36,6 +36,17 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
                   size_t* offset) {
   PackedHeader packed;
 
+  constexpr size_t headerSize =
+      sizeof(packed.sizeVersion) + sizeof(packed.maxEntTableSize) +
+      sizeof(packed.maxentOrder) + sizeof(packed.useNce) +
+      sizeof(packed.nceLnz) + sizeof(packed.reversedSentence) +
+      sizeof(packed.layerType) + sizeof(packed.layerCount) +
+      sizeof(packed.hsArity);
+  if (data.size() < headerSize) {
+    return JPPS_INVALID_PARAMETER << "rnn model is too small: " << data.size()
+                                  << " bytes, the header has " << headerSize;
+  }
+
   std::memset(&packed, 0, sizeof(PackedHeader));
   size_t off = 0;
   off = toMember(&PackedHeader::sizeVersion, &packed, data.data(), off);
@@ -60,6 +71,8 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
            << "model was trained without nce, we support only nce models";
   }
 
+  // the name is not terminated in a damaged file
+  packed.layerType[LayerNameMaxSize - 1] = 0;
   auto piece = StringPiece::fromCString(packed.layerType);
   if (piece != "sigmoid") {
     return JPPS_INVALID_PARAMETER
@@ -174,6 +187,19 @@ Status MikolovModelReader::parse() {
   auto& hdr = data_->header;
 
   hdr.vocabSize = wdata.size();
+
+  // do not trust sizes from the header before allocating memory
+  const u64 numWeights = (contents.size() - start) / sizeof(float);
+  if (hdr.layerSize == 0 || hdr.maxentSize > numWeights ||
+      hdr.layerSize * hdr.vocabSize > numWeights ||
+      static_cast<u64>(hdr.layerSize) * hdr.layerSize > numWeights) {
+    return JPPS_INVALID_PARAMETER
+           << "rnn model has only " << numWeights
+           << " weights, header: layer size=" << hdr.layerSize
+           << " maxent size=" << hdr.maxentSize
+           << ", vocabulary size=" << hdr.vocabSize;
+  }
+
   auto maxBlock = std::max<u64>({hdr.layerSize * hdr.vocabSize, hdr.maxentSize,
                                  hdr.layerSize * hdr.layerSize});
   // 3 comes from rounding to next value + sizeof(float)
-- 
2.43.0


From ffdc0d245db1fdb17f5baf57d2cb33e0c1a20652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:35 +0000
Subject: [PATCH 45/74] fix: sizes of an embedded rnn were not checked, some
 could not be loaded

---
 src/core/analysis/rnn_scorer_gbeam.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 5fa9f32..2da4cac 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -400,7 +400,7 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
 
 Status arr2d(StringPiece data, size_t nrows, size_t ncols,
              util::ConstSliceable<float>* result) {
-  if (nrows * ncols * sizeof(float) < data.size()) {
+  if (nrows * ncols * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << nrows * ncols * sizeof(float);
@@ -413,7 +413,7 @@ Status arr2d(StringPiece data, size_t nrows, size_t ncols,
 
 Status arr1d(StringPiece data, size_t expected,
              util::ArraySlice<float>* result) {
-  if (expected * sizeof(float) < data.size()) {
+  if (expected * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << expected * sizeof(float);
@@ -430,6 +430,10 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
     return JPPS_INVALID_PARAMETER << "model file did not contain RNN";
   }
 
+  if (p->data.size() < 7) {
+    return JPPS_INVALID_PARAMETER << "RNN part of the model is incomplete";
+  }
+
   RnnModelHeader header{state_->config, {}, {}, {}};
 
   util::serialization::Loader l{p->data[0]};
@@ -449,7 +453,7 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
   util::ArraySlice<float> maxentWeights;
 
   JPP_RIE_MSG(
-      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.vocabSize, &rnnMatrix),
+      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.layerSize, &rnnMatrix),
       "failed to read matrix");
   JPP_RIE_MSG(arr2d(p->data[4], rnnhdr.vocabSize, rnnhdr.layerSize,
                     &state_->embeddings),
-- 
2.43.0


From 3a52b9aaed89c2e75d67b365f51d75c384478e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:35 +0000
Subject: [PATCH 46/74] fix: an embedded rnn used its weight instead of the nce
 bias

---
 src/core/analysis/rnn_scorer_gbeam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 2da4cac..d5563cb 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -466,8 +466,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
 
   JPP_RETURN_IF_ERROR(state_->rnn.init(rnnhdr, rnnMatrix, maxentWeights));
   state_->computeBosState(0);
-  if (config().rnnWeight.defined()) {
-    state_->rnn.setNceConstant(config().rnnWeight);
+  if (config().nceBias.defined()) {
+    state_->rnn.setNceConstant(config().nceBias);
   }
 
   return Status::Ok();
-- 
2.43.0


From 30c5be03496529c2bf12d92dfe4f7f4ff63f2154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:35 +0000
Subject: [PATCH 47/74] fix: overriding one setting of an embedded rnn lost the
 stored weights

---
 src/core/env.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/env.cc b/src/core/env.cc
index 0af7392..e4b7035 100644
--- a/src/core/env.cc
+++ b/src/core/env.cc
@@ -106,8 +106,10 @@ void JumanppEnv::setRnnConfig(
       scorers_.others.push_back(&rnnHolder_);
     }
     scorers_.scoreWeights.resize(2, 0);
-    scorers_.scoreWeights[0] = rnnConf.perceptronWeight;
-    scorers_.scoreWeights[1] = rnnConf.rnnWeight;
+    // values which are not overridden come from the model
+    auto& conf = rnnHolder_.config();
+    scorers_.scoreWeights[0] = conf.perceptronWeight;
+    scorers_.scoreWeights[1] = conf.rnnWeight;
     scoringConf_.numScorers = 2;
   } else {
     scorers_.scoreWeights.resize(1, 0);
-- 
2.43.0


From 97dd17690f2e7d7c3f5cdad81216731b451654e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 48/74] fix: the indexed field may be in any column of the
 dictionary

---
 src/core/dic/dic_build_detail.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 12d3eff..f3178ee 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -176,8 +176,8 @@ Status DictionaryBuilderStorage::initialize(const s::DictionarySpec& dicSpec) {
 Status DictionaryBuilderStorage::initDicFeatures(const FeaturesSpec& dicSpec) {
   DicFeatureContext ctx{storage, importers, stringBuffers, intBuffers};
   JPP_RETURN_IF_ERROR(entries.createFeatures(dicSpec, ctx));
-  entries.surfaceIdx_ = static_cast<u32>(indexColumn);
   auto desc = importers[indexColumn].descriptor;
+  entries.surfaceIdx_ = static_cast<u32>(desc->position - 1);
   entries.realSurfaceStorage_ = &storage[desc->stringStorage];
   entries.featureBuf_.resize(static_cast<size_t>(dicSpec.numDicFeatures));
   return Status::Ok();
-- 
2.43.0


From f95dc4d4ae46968782bf027f71a60934f5cc1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 49/74] fix: list match features looked into a wrong column of
 the dictionary

---
 src/core/dic/dic_feature_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 4b10ef2..3690964 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -91,7 +91,7 @@ Status MatchListDicFeatureImpl::initialize(
   auto& imp = ctx.importers[desc.references.front()];
   auto& ss = ctx.storage[imp.descriptor->stringStorage];
   storage_ = &ss;
-  fieldIdx_ = desc.references.front();
+  fieldIdx_ = imp.descriptor->position - 1;
   auto type = imp.descriptor->fieldType;
   switch (type) {
     case spec::FieldType::StringKVList:
-- 
2.43.0


From 7d5da7ae46ef76c8b817130a6cb7514be3085317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:39 +0000
Subject: [PATCH 50/74] fix: list separator was ignored for string lists

---
 src/core/dic/dic_feature_impl.cc |  3 ++-
 src/core/dic/field_import.cc     | 10 ++++++----
 src/core/dic/field_import.h      |  7 +++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 3690964..f424443 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -47,7 +47,8 @@ Status ColumnImportContext::initialize(
     case FieldType::StringList: {
       i32 stringIdx = descr->stringStorage;
       auto stor = &storages[stringIdx];
-      importer.reset(new impl::StringListFieldImporter{stor, colpos, emptyStr});
+      importer.reset(new impl::StringListFieldImporter{stor, colpos, emptyStr,
+                                                       descr->listSeparator});
       break;
     }
     case FieldType::StringKVList: {
diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index c480d93..a172ba3 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -27,7 +27,8 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
   values_.clear();
 
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
+                             separator_.end());
     auto key = StringPiece{sp.begin(), space};
     auto v = storage_->valueOf(key);
     JPP_DCHECK_NE(v, -1);
@@ -35,7 +36,7 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
     if (space == sp.end()) {
       break;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + separator_.size(), sp.end()};
   }
 
   i32 result = static_cast<i32>(buffer_->position());
@@ -49,13 +50,14 @@ bool StringListFieldImporter::importFieldValue(const util::CsvReader& csv) {
     return true;
   }
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
+                             separator_.end());
     auto key = StringPiece{sp.begin(), space};
     storage_->increaseFieldValueCount(key);
     if (space == sp.end()) {
       return true;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + separator_.size(), sp.end()};
   }
 
   return true;
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index 8c2904b..834b25f 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -152,10 +152,13 @@ class StringListFieldImporter : public StringFieldImporter {
    */
   util::CodedBuffer* buffer_;
   std::vector<i32> values_;
+  std::string separator_;
 
  public:
-  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore)
-      : StringFieldImporter::StringFieldImporter(storage, field, ignore) {}
+  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore,
+                          StringPiece separator = StringPiece{" "})
+      : StringFieldImporter::StringFieldImporter(storage, field, ignore),
+        separator_{separator.str()} {}
 
   bool importFieldValue(const util::CsvReader& csv) override;
 
-- 
2.43.0


From eecb4fca73d331489e08d33d45490161062d0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:39 +0000
Subject: [PATCH 51/74] fix: building a dictionary with an empty separator
 never ended

---
 src/core/spec/spec_dsl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/spec/spec_dsl.cc b/src/core/spec/spec_dsl.cc
index 1a052af..6f94348 100644
--- a/src/core/spec/spec_dsl.cc
+++ b/src/core/spec/spec_dsl.cc
@@ -138,6 +138,11 @@ Status FieldBuilder::validate() const {
            << this->name_;
   }
 
+  if (fieldSeparator_.empty() || kvSeparator_.empty()) {
+    return JPPS_INVALID_PARAMETER << "separators of field " << name_
+                                  << " must not be empty";
+  }
+
   if (stringStorage_.size() > 0) {
     if (!util::contains(
             {FieldType::StringList, FieldType::String, FieldType::StringKVList},
-- 
2.43.0


From 93111d860bd4b3074525e5c0aa9ef6dba4cf53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:39 +0000
Subject: [PATCH 52/74] fix: integer fields were read past their end and
 truncated

---
 src/core/dic/field_import.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index a172ba3..4d51756 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -4,6 +4,7 @@
 
 #include "field_import.h"
 #include <algorithm>
+#include <limits>
 #include "util/memory.hpp"
 
 namespace jumanpp {
@@ -77,14 +78,27 @@ i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
   if (sp.size() == 0) {
     return 0;
   }
-  auto end = sp.char_end();
-  long res = std::strtol(sp.char_begin(), const_cast<char**>(&end), 10);
-  return static_cast<i32>(res);
+  // contents of the field are not null terminated, but they are digits only
+  i32 res = 0;
+  for (auto c : sp) {
+    res = res * 10 + (c - '0');
+  }
+  return res;
 }
 
 bool IntFieldImporter::importString(StringPiece sp) {
   if (sp.size() == 0) return true;
-  return std::regex_match(sp.char_begin(), sp.char_end(), mr_, re_);
+  if (!std::regex_match(sp.char_begin(), sp.char_end(), mr_, re_)) {
+    return false;
+  }
+  i64 value = 0;
+  for (auto c : sp) {
+    value = value * 10 + (c - '0');
+    if (value > std::numeric_limits<i32>::max()) {
+      return false;
+    }
+  }
+  return true;
 }
 
 Status StringStorage::makeStorage(util::CodedBuffer* result) {
-- 
2.43.0


From 2a31752147b1cc687d06c5c596685e8fd70e0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:35 +0000
Subject: [PATCH 53/74] fix: merged dictionary entries without data had an
 undefined number of items

---
 src/core/dic/dic_entries.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/dic/dic_entries.h b/src/core/dic/dic_entries.h
index 137e9a5..b0e386e 100644
--- a/src/core/dic/dic_entries.h
+++ b/src/core/dic/dic_entries.h
@@ -45,9 +45,10 @@ class DicEntryBuffer {
                           c.featureBuffer_.begin() + numFeatures_ + numData_),
                  c.featureBuffer_.end()),
         featureBuffer_.begin());
+    // the first element is also the number of remaining data items
     std::copy(c.dataBuffer_.begin(),
               std::min(std::max(c.dataBuffer_.begin() + numData_,
-                                c.dataBuffer_.begin()),
+                                c.dataBuffer_.begin() + 1),
                        c.dataBuffer_.end()),
               dataBuffer_.begin());
   }
@@ -113,6 +114,7 @@ class DicEntryBuffer {
       auto readBytes = actualData.numReadBytes();
       auto dataPtr = dicPtr + readBytes;
       remainingData_ = entryData.rawWithLimit(dataPtr, dataCnt);
+      dataBuffer_[0] = numAlias;
     } else {
       auto totalCnt = numFeatures_ + numData_;
       auto actualData = entryData.rawWithLimit(dicPtr, totalCnt);
-- 
2.43.0


From f3194cc4cdf183d48f7559ca27195edbf0d82b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:08 +0000
Subject: [PATCH 54/74] fix: integer fields of a dictionary could not be
 imported

---
 src/core/dic/field_import.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index 4d51756..5f2f718 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -71,7 +71,7 @@ void StringListFieldImporter::injectFieldBuffer(util::CodedBuffer* buffer) {
 }
 
 IntFieldImporter::IntFieldImporter(i32 field)
-    : fld_{field}, re_{"^\\d+$", std::regex::optimize | std::regex::extended} {}
+    : fld_{field}, re_{"^[0-9]+$", std::regex::optimize | std::regex::extended} {}
 
 i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
   StringPiece sp = csv.field(fld_);
-- 
2.43.0


From 2f08a397dc71a815e0aad6114844374bfb054e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:59 +0000
Subject: [PATCH 55/74] hook: page size of memory managers can be chosen by a
 simulator

---
 src/util/memory.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/memory.hpp b/src/util/memory.hpp
index c306f9b..ebd1763 100644
--- a/src/util/memory.hpp
+++ b/src/util/memory.hpp
@@ -128,6 +128,14 @@ class PoolAlloc final : public ErasedAllocator {
   void Reclaim(void *pVoid) noexcept override {}
 };
 
+#ifdef JPP_SIMULATION
+/// The simulator can make pages smaller to have more of them.
+size_t simulatedPageSize(size_t requested);
+#define JPP_PAGE_SIZE(x) ::jumanpp::util::memory::simulatedPageSize(x)
+#else
+#define JPP_PAGE_SIZE(x) x
+#endif
+
 class Manager {
   size_t currentPage = 0;
   std::vector<MemoryPage> pages_;
@@ -138,7 +146,7 @@ class Manager {
     return std::unique_ptr<PoolAlloc>(new PoolAlloc{this});
   }
 
-  Manager(size_t page_size) : page_size_{page_size} {}
+  Manager(size_t page_size) : page_size_{JPP_PAGE_SIZE(page_size)} {}
 
 #if JUMANPP_USE_DEFAULT_ALLOCATION
   void *allocate(size_t size, size_t align);
-- 
2.43.0


From 6d592b5b0300608a7f086c341500b9e40c25a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:27 +0000
Subject: [PATCH 56/74] Revert "fix: building a dictionary with an empty
 separator never ended"

The check moves next to the code which splits the lists.
---
 src/core/spec/spec_dsl.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/core/spec/spec_dsl.cc b/src/core/spec/spec_dsl.cc
index 6f94348..1a052af 100644
--- a/src/core/spec/spec_dsl.cc
+++ b/src/core/spec/spec_dsl.cc
@@ -138,11 +138,6 @@ Status FieldBuilder::validate() const {
            << this->name_;
   }
 
-  if (fieldSeparator_.empty() || kvSeparator_.empty()) {
-    return JPPS_INVALID_PARAMETER << "separators of field " << name_
-                                  << " must not be empty";
-  }
-
   if (stringStorage_.size() > 0) {
     if (!util::contains(
             {FieldType::StringList, FieldType::String, FieldType::StringKVList},
-- 
2.43.0


From 8811cd58a8be5fad70e236809940c2ff2323bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:27 +0000
Subject: [PATCH 57/74] fix: building a dictionary with an empty list separator
 never ended

---
 src/core/dic/dic_feature_impl.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index f424443..5ca7466 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -45,6 +45,10 @@ Status ColumnImportContext::initialize(
       break;
     }
     case FieldType::StringList: {
+      if (descr->listSeparator.empty()) {
+        return JPPS_INVALID_PARAMETER << "list separator of field "
+                                      << descr->name << " must not be empty";
+      }
       i32 stringIdx = descr->stringStorage;
       auto stor = &storages[stringIdx];
       importer.reset(new impl::StringListFieldImporter{stor, colpos, emptyStr,
@@ -52,6 +56,10 @@ Status ColumnImportContext::initialize(
       break;
     }
     case FieldType::StringKVList: {
+      if (descr->listSeparator.empty() || descr->kvSeparator.empty()) {
+        return JPPS_INVALID_PARAMETER << "separators of field " << descr->name
+                                      << " must not be empty";
+      }
       i32 stringIdx = descr->stringStorage;
       auto stor = &storages[stringIdx];
       importer.reset(new impl::StringKeyValueListFieldImporter{
-- 
2.43.0


From f1814372d955516ea817cbb3ffee5c1877a98fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:46 +0000
Subject: [PATCH 58/74] fix: RNN scorer gave every previous word of a path the
 same id

---
 src/core/analysis/rnn_scorer_gbeam.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index d5563cb..924d6c3 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -180,6 +180,10 @@ struct GbeamRnnState {
       for (; idx < cnt; ++idx) {
         JPP_DCHECK_NE(prev, nullptr);
         row.at(idx) = prev->id;
+        // there is nothing before BOS
+        if (prev->prev != nullptr) {
+          prev = prev->prev;
+        }
       }
       scoreIdx += 1;
     }
-- 
2.43.0


From eab953812d49d4c3ec0945c60e67b6990e5ee56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:46 +0000
Subject: [PATCH 59/74] fix: resolving a cached RNN word id could continue from
 a wrong node

---
 src/core/analysis/rnn_id_resolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 1648b23..928297e 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -225,7 +225,7 @@ std::pair<RnnNode*, RnnNode*> RnnIdContainer::addPrevChain(
         if (cached->hash == hash) {
           // we can collapse a path in the RNN lattice
           // but we still need to publish the score
-          nodePtr = it->second;
+          nodePtr = cached;
           addScore(nodePtr, cptr);
           return std::make_pair(nodePtr, nodePtr);
         }
-- 
2.43.0


From 554b769f6ad1eed3b7f6551f29db6fe89890b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:46 +0000
Subject: [PATCH 60/74] fix: partial annotations were ignored when there was no
 global beam

---
 src/core/analysis/analyzer_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index f857b64..0e63de6 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -240,8 +240,9 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
       for (i32 beamIdx = 0; beamIdx < activeBeam; ++beamIdx) {
         JPP_CAPTURE(beamIdx);
         proc.applyT2(beamIdx, sconf->feature);
-        proc.copyFeatureScores(t1idx, beamIdx, scores);
+        // the plugin changes scores in place, so it has to precede copying
         proc.applyPluginToFullBeam(boundary, t1idx, beamIdx);
+        proc.copyFeatureScores(t1idx, beamIdx, scores);
       }
     }
 
-- 
2.43.0


From 497f9f3ea5fbcc35d93a83c35d4c4f9f5322ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:49 +0000
Subject: [PATCH 61/74] fix: RNN models of an unsupported n-gram order or
 without n-gram weights crashed the analysis

---
 src/rnn/mikolov_rnn.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index fbbe0bb..b3537d4 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -13,6 +13,8 @@ namespace jumanpp {
 namespace rnn {
 namespace mikolov {
 
+constexpr static u32 MaxMaxentOrder = 4;
+
 struct PackedHeader {
   u64 sizeVersion;
   u64 maxEntTableSize;
@@ -79,6 +81,12 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
            << "only sigmoid activation is supported, model had " << piece;
   }
 
+  if (packed.maxentOrder < 1 || packed.maxentOrder > MaxMaxentOrder) {
+    return JPPS_INVALID_PARAMETER
+           << "only maxent orders from 1 to " << MaxMaxentOrder
+           << " are supported, model had " << packed.maxentOrder;
+  }
+
   header->layerSize = static_cast<u32>(packed.sizeVersion % VersionStepSize);
   header->nceLnz = packed.nceLnz;
   header->maxentOrder = packed.maxentOrder;
@@ -188,6 +196,13 @@ Status MikolovModelReader::parse() {
 
   hdr.vocabSize = wdata.size();
 
+  // n-grams are hashed to (maxent size - vocabulary size) weights
+  if (hdr.maxentSize <= hdr.vocabSize) {
+    return JPPS_INVALID_PARAMETER
+           << "rnn model has no maxent hash table: maxent size="
+           << hdr.maxentSize << ", vocabulary size=" << hdr.vocabSize;
+  }
+
   // do not trust sizes from the header before allocating memory
   const u64 numWeights = (contents.size() - start) / sizeof(float);
   if (hdr.layerSize == 0 || hdr.maxentSize > numWeights ||
-- 
2.43.0


From cf26fd4432a9e3e8f6533a1fb49bf55ccb7d057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:52 +0000
Subject: [PATCH 62/74] fix: protobuf outputs had the names of conjugation type
 and form swapped

---
 src/jumandic/shared/juman_pb_format.cc   | 4 ++--
 src/jumandic/shared/jumanpp_pb_format.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jumandic/shared/juman_pb_format.cc b/src/jumandic/shared/juman_pb_format.cc
index 4d78027..54fe8ce 100644
--- a/src/jumandic/shared/juman_pb_format.cc
+++ b/src/jumandic/shared/juman_pb_format.cc
@@ -74,8 +74,8 @@ struct JumanPbFormatImpl {
     auto strPos = mrph->mutable_string_pos();
     strPos->set_pos(ifEmpty(fields_.pos[walker], "*").str());
     strPos->set_subpos(ifEmpty(fields_.subpos[walker], "*").str());
-    strPos->set_conj_type(ifEmpty(fields_.conjForm[walker], "*").str());
-    strPos->set_conj_form(ifEmpty(fields_.conjType[walker], "*").str());
+    strPos->set_conj_type(ifEmpty(fields_.conjType[walker], "*").str());
+    strPos->set_conj_form(ifEmpty(fields_.conjForm[walker], "*").str());
 
     return Status::Ok();
   }
diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index a22ba77..581646f 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -193,8 +193,8 @@ struct JumanppProtobufOutputImpl {
         auto strPos = node->mutable_string_pos();
         strPos->set_pos(ifEmpty(fields_.pos[walker], "*").str());
         strPos->set_subpos(ifEmpty(fields_.subpos[walker], "*").str());
-        strPos->set_conj_type(ifEmpty(fields_.conjForm[walker], "*").str());
-        strPos->set_conj_form(ifEmpty(fields_.conjType[walker], "*").str());
+        strPos->set_conj_type(ifEmpty(fields_.conjType[walker], "*").str());
+        strPos->set_conj_form(ifEmpty(fields_.conjForm[walker], "*").str());
 
         for (auto& rankInfo : info.ranks) {
           node->add_ranks(rankInfo.rank);
-- 
2.43.0


From 8897c3f9653a0fc9f3af7c0afc993d9bac786b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:52 +0000
Subject: [PATCH 63/74] fix: lattice protobuf output left out the scores of the
 analyses

---
 src/jumandic/shared/jumanpp_pb_format.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 581646f..84088e7 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -211,6 +211,10 @@ struct JumanppProtobufOutputImpl {
       }
     }
 
+    for (auto score : topN_.topScores_) {
+      object_.add_scores(score);
+    }
+
     if (fillBuffer_) {
       buffer_.clear();
       auto messageSize = object_.ByteSizeLong();
-- 
2.43.0


From 8910eb207872a9fb54cd29281a8fadda5ae9a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:52 +0000
Subject: [PATCH 64/74] fix: lattice output of an empty sentence lost its
 comment

---
 src/jumandic/shared/lattice_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index a5fd9e6..a03fc35 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -85,7 +85,9 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
   printer.reset();
   auto lat = analyzer.impl()->lattice();
   if (lat->createdBoundaryCount() == 3) {
-    printer.reset();
+    if (!comment.empty()) {
+      printer << "# " << comment << '\n';
+    }
     printer << "EOS\n";
     return Status::Ok();
   }
-- 
2.43.0


From 8475abfb7956105c3e3deeda6f609fd525d34b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:14 +0000
Subject: [PATCH 65/74] fix: names absent from the dictionary shadowed the
 numeric ids of part-of-speech tags

---
 src/jumandic/shared/jumandic_id_resolver.cc | 31 ++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/jumandic_id_resolver.cc b/src/jumandic/shared/jumandic_id_resolver.cc
index b54d517..cf1138c 100644
--- a/src/jumandic/shared/jumandic_id_resolver.cc
+++ b/src/jumandic/shared/jumandic_id_resolver.cc
@@ -19,6 +19,19 @@ util::FlatMap<StringPiece, i32> readFieldToMap(
   return result;
 }
 
+// Id of a name which is present in the dictionary; the empty value has id 0.
+// Names which the dictionary does not have must not be taken for it.
+bool findName(const util::FlatMap<StringPiece, i32>& map, StringPiece name,
+              i32* result) {
+  auto it = map.find(name);
+  if (it != map.end()) {
+    *result = it->second;
+    return true;
+  }
+  *result = 0;
+  return name == "*";
+}
+
 template <typename K, typename V, typename H, typename E>
 V findOr(const util::FlatMap<K, V, H, E>& map, const K& key, V defVal) {
   auto it = map.find(key);
@@ -59,9 +72,10 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
 
   for (int i = 0; i < posInfoCount; ++i) {
     auto& pos = posInfo[i];
-    auto posId = findOr(pos2id, pos.part1, 0);
-    auto subposId = findOr(subPos2id, pos.part2, 0);
-    if (posId != 0 || subposId != 0) {
+    i32 posId, subposId;
+    bool known = findName(pos2id, pos.part1, &posId);
+    known &= findName(subPos2id, pos.part2, &subposId);
+    if (known && (posId != 0 || subposId != 0)) {
       CompositeId posObj{posId, subposId};
       posMap[posObj] = CompositeId{pos.id1, pos.id2};
     }
@@ -69,10 +83,13 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
 
   for (int j = 0; j < conjInfoCount; ++j) {
     auto& conj = conjInfo[j];
-    auto ctId = findOr(conjType2id, conj.part1, 0);
-    auto cfId = findOr(conjForm2id, conj.part2, 0);
-    if (ctId != 0) {
-      conjMap[CompositeId{ctId, cfId}] = CompositeId{conj.id1, conj.id2};
+    i32 ctId, cfId;
+    bool known = findName(conjType2id, conj.part1, &ctId);
+    bool knownForm = findName(conjForm2id, conj.part2, &cfId);
+    if (known && ctId != 0) {
+      if (knownForm) {
+        conjMap[CompositeId{ctId, cfId}] = CompositeId{conj.id1, conj.id2};
+      }
       conjMap[CompositeId{ctId, 0}] = CompositeId{conj.id1, 0};
     }
   }
-- 
2.43.0


From 5ca7062e57a8e081ac38e19b6d44ecc0036fa8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:40 +0000
Subject: [PATCH 66/74] fix: analysis without global beam wrote before its
 score buffer where no word starts

---
 src/core/analysis/analyzer_impl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 0e63de6..6c97cf5 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -212,6 +212,9 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
   for (i32 boundary = 2; boundary < bndCount; ++boundary) {
     JPP_CAPTURE(boundary);
     auto bnd = lattice_.boundary(boundary);
+    if (bnd->localNodeCount() == 0) {
+      continue;
+    }
     JPP_DCHECK(bnd->endingsFilled());
     auto left = bnd->ends()->nodePtrs();
     auto& proc = *this->sproc_;
-- 
2.43.0


From 999923862d168440f142425ed2a6750c35c2ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:10 +0000
Subject: [PATCH 67/74] fix: StringListIterator::hasNext answered the opposite

---
 src/core/analysis/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/output.h b/src/core/analysis/output.h
index 492995e..f23e114 100644
--- a/src/core/analysis/output.h
+++ b/src/core/analysis/output.h
@@ -104,7 +104,7 @@ class StringListIterator {
     return false;
   }
 
-  bool hasNext() const { return elements_.remaining() == 0; }
+  bool hasNext() const { return elements_.remaining() > 0; }
 };
 
 class KVListIterator {
-- 
2.43.0


From 18da2d59469e2f8c4d6ad9b312870fe86ce838d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:27 +0000
Subject: [PATCH 68/74] fix: the feature scorer of an environment was not
 initialized

An environment whose model has no weights (a dictionary which was not
trained yet) had a random pointer as its feature scorer. Creating of an
analyzer checks for nullptr, so instead of an error message there was
a crash when analysing.
---
 src/core/analysis/score_api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/score_api.h b/src/core/analysis/score_api.h
index 3cd3116..2ed40dc 100644
--- a/src/core/analysis/score_api.h
+++ b/src/core/analysis/score_api.h
@@ -64,7 +64,7 @@ class ScorerFactory : public ScorerBase {
 };
 
 struct ScorerDef {
-  FeatureScorer* feature;
+  FeatureScorer* feature = nullptr;
   std::vector<ScorerFactory*> others;
   std::vector<Score> scoreWeights;
 
-- 
2.43.0


From 3d7fd5ec71da64263aee0f6ec00fb1b0f2572ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:27 +0000
Subject: [PATCH 69/74] fix: onomatopoeia search went on after nothing was
 found and skipped the last place
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

An onomatopoeia of four characters at the end of input was never found
(a place is usable when the whole word fits there). The status of the
dictionary traversal was not initialized and stepping went on after
NoNode, which can say anything: い～い～ was taken for a prefix of a
dictionary word because い～ was, and then nothing.
---
 src/core/analysis/onomatopoeia_creator.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index 314544f..97c3dd9 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -21,7 +21,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
   for (LatticePosition i = 0; i < codepoints.size(); ++i) {
     auto trav = entries_.traversal();
     LatticePosition nextstep = i;
-    TraverseStatus status;
+    TraverseStatus status = TraverseStatus::NoLeaf;
     auto pattern = FindOnomatopoeia(codepoints, i);
     if (pattern == Pattern::None) {
       continue;
@@ -29,7 +29,9 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
     for (LatticePosition halfLen = 2; halfLen * 2 <= MaxOnomatopoeiaLength;
          ++halfLen) {
       if ((pattern & HalfLenToPattern(halfLen)) != Pattern::None) {
-        for (; nextstep < i + halfLen * 2; ++nextstep) {
+        // a traversal can not be continued when there is nothing to be found
+        for (; status != TraverseStatus::NoNode && nextstep < i + halfLen * 2;
+             ++nextstep) {
           status = trav.step(codepoints[nextstep].bytes);
         }
         switch (status) {
@@ -58,7 +60,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
 
 OnomatopoeiaUnkMaker::Pattern OnomatopoeiaUnkMaker::FindOnomatopoeia(
     const CodepointStorage& codepoints, LatticePosition start) const {
-  if ((start + MinOnomatopoeiaLength) >= codepoints.size()) {
+  if ((start + MinOnomatopoeiaLength) > codepoints.size()) {
     return Pattern::None;
   }
   JPP_DCHECK_IN(start, 0, codepoints.size());
-- 
2.43.0


From 5b6f7b8cc26f0f5e4f44ca8c341b14275cb20c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:27 +0000
Subject: [PATCH 70/74] fix: a number before a period at the end of input read
 after the input

The check for the next character used the offset inside of the number
instead of the position in the sentence, so for a number which did not
start the sentence it read the codepoint after the last one: that of
an earlier sentence or other memory.
---
 src/core/analysis/numeric_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/numeric_creator.cc b/src/core/analysis/numeric_creator.cc
index 9dd3d16..52cbd47 100644
--- a/src/core/analysis/numeric_creator.cc
+++ b/src/core/analysis/numeric_creator.cc
@@ -245,7 +245,7 @@ size_t NumericUnkMaker::checkPeriod(const CodepointStorage &codepoints,
   if (pos == 0) return 0;
   if (!codepoints[posPeriod].hasClass(PeriodClass)) return 0;
   if (!codepoints[posPeriod - 1].hasClass(charClass_)) return 0;
-  if (pos + 1 < codepoints.size() &&
+  if (posPeriod + 1 < codepoints.size() &&
       codepoints[posPeriod + 1].hasClass(charClass_))
     return 1;
   return 0;
-- 
2.43.0


From 2e2cb6d305eb117ba6081cd038c21e8168c40eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:45 +0000
Subject: [PATCH 71/74] fix: left-over features of a training difference had
 the opposite sign

---
 src/core/training/loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 31abd45..f13e3a8 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -236,11 +236,11 @@ void LossCalculator::computeFeatureDiff(u32 mask) {
   }
 
   for (; topPos < topCnt; ++topPos) {
-    mergeOne(top1Features[topPos], 1.0f);
+    mergeOne(top1Features[topPos], -1.0f);
   }
 
   for (; goldPos < goldCnt; ++goldPos) {
-    mergeOne(goldFeatures[goldPos], -1.0f);
+    mergeOne(goldFeatures[goldPos], 1.0f);
   }
 
   float numGold = 0;
-- 
2.43.0


From e20d07c4106c31b3b8b076ca97c896c84e3a76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:45 +0000
Subject: [PATCH 72/74] fix: training compared wrong columns of entries when
 spec and entry field orders differ

---
 src/core/training/gold_example.cc | 2 +-
 src/core/training/loss.cc         | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 4ea4791..200187d 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -26,7 +26,7 @@ bool TrainingExampleAdapter::matchUnkNodeData(const analysis::ExtraNode *pNode,
     if (trainFld.weight == 0) {
       continue;
     }
-    auto latticeIdx = trainFld.fieldIdx;
+    auto latticeIdx = trainFld.dicIdx;
     auto latVal = latNodeData.at(latticeIdx);
     if (latVal < 0) {
       if (latVal != surfaceHash) {
diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index f13e3a8..95662e2 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -39,7 +39,10 @@ bool LossCalculator::findWorstTopNode(i32 goldPos, ComparisonStep* step) {
     float mismatchWeight = 0;
 
     for (auto& sf : specFlds) {
-      if (topData[sf.fieldIdx] != goldData[sf.fieldIdx]) {
+      if (sf.weight == 0) {
+        continue;
+      }
+      if (topData[sf.dicIdx] != goldData[sf.dicIdx]) {
         numMismatches += 1;
         mismatchWeight += sf.weight;
       }
-- 
2.43.0


From c43612caba14190961c32f9fa6be9528e8f29b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:45 +0000
Subject: [PATCH 73/74] fix: a training field which is not in entries was
 written before their data

---
 src/core/training/gold_example.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 200187d..2cdc714 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -117,6 +117,10 @@ EntryPtr TrainingExampleAdapter::makeUnkTrainingNode(const ExampleNode &node) {
   for (int i = 0; i < node.data.size(); ++i) {
     auto nodeVal = node.data[i];
     auto idx = spec->fields[i].dicIdx;
+    if (idx < 0) {
+      // fields with zero weight can be absent from entries
+      continue;
+    }
     if (nodeVal >= 0) {
       nodeData.at(idx) = nodeVal;
     } else {
-- 
2.43.0


From eb98d68183159ab8ab122660b49e9d040688c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:45 +0000
Subject: [PATCH 74/74] fix: a word added for training had the text of its last
 unknown field as surface

---
 src/core/training/full_example.cc |  2 ++
 src/core/training/full_example.h  | 21 +++++++++------------
 src/core/training/gold_example.cc |  2 +-
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 69d0617..58296cb 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -11,6 +11,7 @@ namespace training {
 Status FullExampleReader::readFullExample(FullyAnnotatedExample *result) {
   result->data_.clear();
   result->lengths_.clear();
+  result->surfaceStarts_.clear();
 
   switch (mode_) {
     case DataReaderMode::SimpleCsv:
@@ -134,6 +135,7 @@ Status FullExampleReader::readSingleExampleFragment(
 
   JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
   result->lengths_.push_back(codepts_.size());
+  result->surfaceStarts_.push_back(result->surface_.size());
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index e129e45..ec1438f 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -25,6 +25,8 @@ struct ExampleNode {
   util::ArraySlice<i32> data;
   i32 position;
   i32 length;
+  // negative values of data are inverted indices of this
+  util::ArraySlice<StringPiece> strings;
 };
 
 class FullyAnnotatedExample {
@@ -32,6 +34,7 @@ class FullyAnnotatedExample {
   std::vector<StringPiece> strings_;
   std::vector<i32> data_;
   std::vector<i32> lengths_;
+  std::vector<size_t> surfaceStarts_;
 
   StringPiece filename_;
   std::string comment_;
@@ -52,21 +55,14 @@ class FullyAnnotatedExample {
     for (int i = 0; i < idx; ++i) {
       codeptPos += lengths_[i];
     }
-    i32 negIdx = 0;
     auto exampleData = const_cast<FullyAnnotatedExample*>(this)->data();
     auto examRow = exampleData.row(idx);
-    for (i32 exEntry : examRow) {
-      if (exEntry < 0) {
-        negIdx = exEntry;
-      }
-    }
-
-    StringPiece sp{};
-    if (negIdx < 0) {
-      sp = strings_[~negIdx];
-    }
+    auto start = surfaceStarts_[idx];
+    auto end = idx + 1 < surfaceStarts_.size() ? surfaceStarts_[idx + 1]
+                                               : surface_.size();
+    StringPiece sp = surface().slice(start, end);
 
-    return ExampleNode{sp, examRow, codeptPos, lengths_[idx]};
+    return ExampleNode{sp, examRow, codeptPos, lengths_[idx], strings_};
   }
 
   i32 numNodes() const { return static_cast<i32>(lengths_.size()); }
@@ -79,6 +75,7 @@ class FullyAnnotatedExample {
     strings_.clear();
     data_.clear();
     lengths_.clear();
+    surfaceStarts_.clear();
   }
 
   void setInfo(StringPiece filename, i64 lineNo) {
diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 2cdc714..8787fb2 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -124,7 +124,7 @@ EntryPtr TrainingExampleAdapter::makeUnkTrainingNode(const ExampleNode &node) {
     if (nodeVal >= 0) {
       nodeData.at(idx) = nodeVal;
     } else {
-      nodeData.at(idx) = contHash;
+      nodeData.at(idx) = analysis::hashUnkString(node.strings.at(~nodeVal));
     }
   }
   unk->header.unk.contentHash = contHash;
-- 
2.43.0

