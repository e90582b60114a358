// A training job with scripted behaviour.
#ifndef VERIF_FAKE_TRAINER_H
#define VERIF_FAKE_TRAINER_H
#include "core/training/trainer_base.h"
#include "sim.h"
#include <stdexcept>

struct FakeTrainer : jumanpp::core::training::ITrainer {
  static const int kKinds = 8;
  int id, mode, work;
  int submitted = 0, prepared = 0, computed = 0;
  bool running = false;
  std::string file, comment;
  int line;
  float theLoss = 0;
  std::vector<jumanpp::core::training::ScoredFeature> diff;
  // mode: 0 ok, 1 status from prepare, 2 status from compute, 3 runtime_error in prepare, 4 bad_alloc in compute,
  // 5 logic_error in compute, 6 bad_alloc in prepare, 7 std::exception subclass of our own
  FakeTrainer(int id_, int mode_, int work_) : id(id_), mode(mode_), work(work_) {
    file = sim::strf("corpus%d.txt", id % 3);
    comment = sim::strf("S-ID:ex-%d", id);
    line = 100 + id * 3;
  }
  struct Own : std::exception {
    const char* what() const noexcept override { return "own"; }
  };
  int expectComputed(int results) const {
    return (mode == 1 || mode == 3 || mode == 6) ? 0 : results;
  }
  void busy() { for (int i = 0; i < work; ++i) sim::yieldPoint(); }
  jumanpp::Status prepare() override {
    if (running) sim::violation("result", "job %d is run by two workers at once", id);
    running = true;
    prepared++;
    busy();
    if (mode == 1) { running = false; return jumanpp::Status::InvalidState() << "scripted failure of prepare"; }
    if (mode == 3) { running = false; throw std::runtime_error("scripted exception"); }
    if (mode == 6) { running = false; throw std::bad_alloc(); }
    return jumanpp::Status::Ok();
  }
  jumanpp::Status compute(const jumanpp::core::analysis::ScorerDef*) override {
    computed++;
    busy();
    running = false;
    if (mode == 2) return jumanpp::Status::InvalidParameter() << "scripted failure of compute";
    if (mode == 4) throw std::bad_alloc();
    if (mode == 5) throw std::logic_error("scripted logic error");
    if (mode == 7) throw Own();
    return jumanpp::Status::Ok();
  }
  float loss() const override { return theLoss; }
  jumanpp::util::ArraySlice<jumanpp::core::training::ScoredFeature> featureDiff() const override { return diff; }
  jumanpp::core::input::ExampleInfo exampleInfo() const override {
    return jumanpp::core::input::ExampleInfo{file, comment, line};
  }
  const jumanpp::core::analysis::OutputManager& outputMgr() const override { throw std::logic_error("not used"); }
  void markGold(std::function<void(jumanpp::core::analysis::LatticeNodePtr)>) const override {}
  jumanpp::core::analysis::Lattice* lattice() const override { return nullptr; }
  void setGlobalBeam(const jumanpp::core::training::GlobalBeamTrainConfig&) override {}
};
#endif
