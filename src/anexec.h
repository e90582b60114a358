// Analyzers, inputs and configurations shared by the analysis and command harnesses.
#ifndef VERIF_ANEXEC_H
#define VERIF_ANEXEC_H
#include "hcommon.h"
#include "world.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/perceptron.h"
#include "jumandic/shared/jumandic_env.h"

namespace an {
using namespace sim;
using namespace h;
using namespace jumanpp;
namespace jd = jumanpp::jumandic;

struct Exec : jd::JumanppExec {
  void configure(const Scenario& s) {
    conf.outputType = (jd::OutputType)s.get("format");
    conf.beamSize = (i32)s.get("beam");
    conf.beamOutput = (i32)s.get("beam_out");
    conf.globalBeam = (i32)s.get("gbeam");
    conf.rightBeam = (i32)s.get("rbeam");
    conf.rightCheck = (i32)s.get("rcheck");
    conf.segmentSeparator = std::string(s.get("sep") ? "|" : " ");
    env.setBeamSize(conf.beamSize);
    env.setGlobalBeam(conf.globalBeam, conf.rightCheck, conf.rightBeam);
    if (s.get("auto_step")) {
      conf.autoStep = (i32)s.get("auto_step");
      env.setAutoBeam(conf.beamSize, conf.autoStep, conf.globalBeam);
    }
  }
  Status fresh() {
    JPP_RETURN_IF_ERROR(env.makeAnalyzer(&analyzer_));
    return initOutput();
  }
  void setFormat(jd::OutputType t) { conf.outputType = t; }
  Status freshFormat() { return initOutput(); }
  core::JumanppEnv& environment() { return env; }
  jd::JumandicIdResolver* ids() { return &idResolver_; }
};

struct Result {
  bool ok = false;
  std::string msg, out;
  bool operator==(const Result& o) const { return ok == o.ok && msg == o.msg && out == o.out; }
};

extern Exec* g_exec[2][2];  // [rnn][long lived, fresh]
extern std::vector<std::string>* g_surf;
extern std::vector<std::string>* g_dicSurf;
void warmExecs();
std::string genText(Rng& r, int maxWords);
std::string genPex(Rng& r, int maxWords);
void genConfig(Scenario& s, Rng& r);
const char* fmtName(i64 f);
Result runRaw(Exec& e, const std::string& text, const std::string& comment);
Result runPex(Exec& e, const std::string& text);
Result runOp(Exec& e, const Op& o);
std::string shorten(const std::string& s);
}  // namespace an
#endif
