// Models, dictionaries and corpora shared by the harnesses.
#include "world.h"
#include "core/dic/dic_builder.h"
#include "core/impl/model_io.h"
#include "core/spec/spec_dsl.h"
#include "core/training/scw.h"
#include "core/training/full_example.h"
#include "core/training/trainer.h"
#include "jumandic/shared/jumandic_env.h"
#include "jumandic/shared/jumandic_spec.h"
#include <cstdlib>
#include <sstream>
#include <map>

using namespace sim;
using namespace jumanpp;
namespace jt = jumanpp::core::training;

namespace world {
namespace {
const std::string kSmallSeed = "small.seed", kJdSeed = "jd.seed", kJdModel = "jd.model";
[[noreturn]] void die(const char* what, const Status& s) {
  harnessError("world: %s: %s", what, h::statusText(s).c_str());
}
Small* g_small;
core::JumanppEnv* g_smallEnv;
core::JumanppEnv* g_jdEnv;
std::string* g_dicText;
std::string* g_trainText;
std::vector<std::string>* g_trainLines;
bool g_smallSaved, g_jdSeed, g_jdModel;

void makeSmall() {
  Small* s = new Small;
  Rng r(77);
  s->chars = {"も", "の", "京", "東", "カ", "a"};
  s->tags = {"N", "V", "P"};
  std::string d = "UNK,N,5\n";
  // single characters are always words: any text over the first four characters is segmentable
  for (int i = 0; i < 4; ++i) {
    s->words.push_back(s->chars[i]);
    d += s->chars[i] + "," + s->tags[i % 3] + "," + strf("%d", i) + "\n";
    if (i & 1) d += s->chars[i] + "," + s->tags[(i + 1) % 3] + ",7\n";
  }
  for (int i = 0; i < 14; ++i) {
    std::string w;
    int n = (int)r.range(2, 3);
    for (int k = 0; k < n; ++k) w += s->chars[r.below(4)];
    bool dup = false;
    for (auto& x : s->words) dup |= x == w;
    if (dup) continue;
    s->words.push_back(w);
    d += w + "," + r.pick(s->tags) + "," + strf("%d", i) + "\n";
    if (r.chance(1, 3)) d += w + ",V," + strf("%d", i + 20) + "\n";
  }
  s->dic = d;
  g_small = s;
}

Status smallSpec(core::spec::AnalysisSpec* spec) {
  core::spec::dsl::ModelSpecBuilder bldr;
  auto& a = bldr.field(1, "a").strings().trieIndex();
  auto& b = bldr.field(2, "b").strings();
  bldr.field(3, "c").strings();
  bldr.unigram({a, b});
  bldr.bigram({a}, {a});
  bldr.bigram({b}, {b});
  bldr.bigram({a, b}, {a, b});
  bldr.trigram({a}, {a}, {a});
  bldr.train().field(a, 1.0f).field(b, 1.0f);
  bldr.unk("katakana", 1).chunking(chars::CharacterClass::KATAKANA).outputTo({a});
  return bldr.build(spec);
}
}  // namespace

std::string repoFile(const char* rel) {
  const char* base = getenv("JPP_REPO");
  std::string p = std::string(base ? base : "/repo") + "/test/jumandic/" + rel;
  std::string out;
  HostScope hs;
  if (!hostRead(p, &out)) harnessError("cannot read %s", p.c_str());
  return out;
}

Status saveDic(const core::spec::AnalysisSpec& spec_, const std::string& csv, const std::string& file) {
  core::spec::AnalysisSpec spec = spec_;
  core::dic::DictionaryBuilder bldr;
  JPP_RETURN_IF_ERROR(bldr.importSpec(&spec));
  JPP_RETURN_IF_ERROR(bldr.importCsv("dic", csv));
  core::model::ModelInfo nfo{};
  nfo.parts.emplace_back();
  JPP_RETURN_IF_ERROR(bldr.fillModelPart(&nfo.parts.back(), "sim"));
  core::model::ModelSaver saver;
  JPP_RETURN_IF_ERROR(saver.open(file));
  JPP_RETURN_IF_ERROR(saver.save(nfo));
  return Status::Ok();
}

const Small& small() {
  if (!g_small) makeSmall();
  return *g_small;
}
const std::string& smallSeed() {
  if (!g_smallSaved) {
    small();
    core::spec::AnalysisSpec spec;
    Status s = smallSpec(&spec);
    if (!s) die("small spec", s);
    s = saveDic(spec, g_small->dic, kSmallSeed);
    if (!s) die("small dictionary", s);
    g_smallSaved = true;
  }
  return kSmallSeed;
}
core::JumanppEnv* smallEnv() {
  if (!g_smallEnv) {
    auto* e = new core::JumanppEnv;
    Status s = e->loadModel(smallSeed());
    if (!s) die("load small", s);
    s = e->initFeatures(nullptr);
    if (!s) die("small features", s);
    g_smallEnv = e;
  }
  return g_smallEnv;
}

const std::string& jumandicDicText() {
  if (!g_dicText) g_dicText = new std::string(repoFile("jumanpp_minimal.mdic"));
  return *g_dicText;
}
const std::string& trainText() {
  if (!g_trainText) g_trainText = new std::string(repoFile("train_mini_01.txt"));
  return *g_trainText;
}
const std::vector<std::string>& trainLines() {
  if (!g_trainLines) {
    g_trainLines = new std::vector<std::string>;
    std::string cur;
    for (char c : trainText()) {
      if (c == '\n') {
        if (!cur.empty()) g_trainLines->push_back(cur);
        cur.clear();
      } else {
        cur += c;
      }
    }
    if (!cur.empty()) g_trainLines->push_back(cur);
  }
  return *g_trainLines;
}

const std::string& jumandicSeed() {
  if (!g_jdSeed) {
    core::spec::AnalysisSpec spec;
    Status s = jumandic::SpecFactory::makeSpec(&spec);
    if (!s) die("jumandic spec", s);
    s = saveDic(spec, jumandicDicText(), kJdSeed);
    if (!s) die("jumandic dictionary", s);
    g_jdSeed = true;
  }
  return kJdSeed;
}
core::JumanppEnv* jumandicEnv() {
  if (!g_jdEnv) {
    auto* e = new core::JumanppEnv;
    Status s = e->loadModel(jumandicSeed());
    if (!s) die("load jumandic", s);
    s = e->initFeatures(jumandic::jumandicStaticFeatures());
    if (!s) die("jumandic features", s);
    g_jdEnv = e;
  }
  return g_jdEnv;
}

const std::string& jumandicModel() {
  if (g_jdModel) return kJdModel;
  core::JumanppEnv env;
  Status s = env.loadModel(jumandicSeed());
  if (!s) die("load", s);
  env.setBeamSize(3);
  s = env.initFeatures(jumandic::jumandicStaticFeatures());
  if (!s) die("features", s);
  jt::TrainingConfig tc;
  tc.featureNumberExponent = 14;
  tc.beamSize = 3;
  jt::SoftConfidenceWeighted scw{tc};
  core::analysis::AnalyzerConfig ac;
  ac.pageSize = 256 * 1024;
  ac.storeAllPatterns = true;
  jt::TrainFieldsIndex tio;
  s = tio.initialize(*env.coreHolder());
  if (!s) die("fields", s);
  jt::TrainerFullConfig fc{&ac, env.coreHolder(), &env.spec().training, &tc};
  for (int epoch = 0; epoch < 3; ++epoch) {
    jt::FullExampleReader rdr;
    rdr.setTrainingIo(&tio);
    s = rdr.initDoubleCsv(trainText());
    if (!s) die("corpus", s);
    rdr.setFilename("mini");
    jt::OwningFullTrainer tr{fc};
    s = tr.initAnalyzer(scw.scorers());
    if (!s) die("trainer", s);
    while (true) {
      tr.reset();
      s = tr.readExample(&rdr);
      if (!s) die("example", s);
      if (rdr.finished()) break;
      s = tr.prepare();
      if (s) s = tr.compute(scw.scorers());
      if (!s) die("training", s);
      scw.update(tr.loss(), tr.featureDiff());
    }
    if (epoch == 0) scw.substractInitValues();
  }
  auto info = env.modelInfoCopy();
  scw.exportModel(&info, "sim-trained");
  core::model::ModelSaver saver;
  s = saver.open(kJdModel);
  if (s) s = saver.save(info);
  if (!s) die("save model", s);
  g_jdModel = true;
  return kJdModel;
}

// ------------------------------------------------------------------ a small RNN language model
namespace {
const std::string kRnn = "jd.rnn", kJdRnnModel = "jd-rnn.model";
bool g_rnn, g_jdRnn;
template <class T> void put(std::string& o, T v) { o.append((const char*)&v, sizeof v); }
}  // namespace
std::string rnnWordList(int unknown) {
  std::string d = "</s> 10\n<unk> 9\n";
  // baseform_pos of every fifth dictionary entry, without duplicates, and words the dictionary does not have
  std::map<std::string, int> seen;
  int n = 0;
  std::stringstream ss(jumandicDicText());
  std::string line;
  while (std::getline(ss, line)) {
    if (++n % 5) continue;
    std::vector<std::string> f;
    std::stringstream ls(line);
    std::string x;
    while (std::getline(ls, x, ',')) f.push_back(x);
    if (f.size() < 11 || line.find('"') != std::string::npos || f[8].find('_') != std::string::npos || f[8].find(' ') != std::string::npos) continue;
    std::string w = f[8] + "_" + f[4];
    if (seen[w]++) continue;
    d += w + " 3\n";
  }
  static const char* xs[] = {"ガラフケマペ_名詞", "５５１_名詞", "アイウ_名詞", "カカ_名詞"};
  for (int i = 0; i < unknown && i < 4; ++i) d += std::string(xs[i]) + " 2\n";
  return d;
}
void rnnFileText(int layer, int maxentOrder, u64 maxentExtra, u64 seed, std::string* dic, std::string* nnet, int maxWords) {
  *dic = rnnWordList(4);
  if (maxWords >= 0) {
    size_t p = 0;
    for (int i = 0; i < maxWords + 2 && p != std::string::npos; ++i) { p = dic->find('\n', p); if (p != std::string::npos) ++p; }
    if (p != std::string::npos) dic->resize(p);
  }
  u64 vocab = 0;
  for (char c : *dic) vocab += c == '\n';
  u64 maxent = vocab + maxentExtra;
  std::string& o = *nnet;
  o.clear();
  put<u64>(o, 6ull * 10000 + layer);
  put<u64>(o, maxent);
  put<u32>(o, (u32)maxentOrder);
  put<bool>(o, true);
  put<float>(o, 9.0f);
  put<bool>(o, false);
  char lt[64] = "sigmoid";
  o.append(lt, 64);
  put<u32>(o, 1);
  put<u32>(o, 0);
  Rng r(seed);
  u64 n = vocab * layer * 2 + (u64)layer * layer + maxent;
  for (u64 i = 0; i < n; ++i) put<float>(o, (float)(r.unit() * 2 - 1));
}
const std::string& rnnFiles() {
  if (!g_rnn) {
    std::string d, n;
    rnnFileText(8, 3, 997, 5, &d, &n);
    HostScope hs;
    if (!hostWrite(kRnn, d) || !hostWrite(kRnn + ".nnet", n)) harnessError("cannot write rnn files");
    g_rnn = true;
  }
  return kRnn;
}
core::analysis::rnn::RnnInferenceConfig rnnConfig() {
  core::analysis::rnn::RnnInferenceConfig c;
  c.nceBias = 9.0f;
  c.rnnFields = std::vector<std::string>{"baseform", "pos"};
  c.rnnWeight = 0.7f;
  return c;
}
const std::string& jumandicRnnModel() {
  if (g_jdRnn) return kJdRnnModel;
  core::JumanppEnv env;
  Status s = env.loadModel(jumandicModel());
  if (!s) die("load", s);
  core::analysis::RnnScorerGbeamFactory f;
  s = f.make(rnnFiles(), env.coreHolder()->dic(), rnnConfig());
  if (!s) die("rnn", s);
  auto info = env.modelInfoCopy();
  s = f.makeInfo(&info, "sim-rnn");
  if (!s) die("rnn info", s);
  core::model::ModelSaver saver;
  s = saver.open(kJdRnnModel);
  if (s) s = saver.save(info);
  if (!s) die("save rnn model", s);
  g_jdRnn = true;
  return kJdRnnModel;
}

namespace { Scored* g_scored[5]; }
const Scored& scoredModel(int order) {
  if (g_scored[order]) return *g_scored[order];
  auto* sc = new Scored;
  sc->file = "scored" + std::to_string(order) + ".model";
  sc->order = order;
  static const int layers[] = {0, 8, 5, 16, 7};
  sc->layer = layers[order];
  sc->unkConst = -2.25f;
  sc->unkLen = -0.625f;
  sc->percWeight = order ? 0.8f : 1.0f;
  sc->rnnWeight = 1.7f - 0.2f * order;
  sc->nceBias = 0.5f * order;
  core::JumanppEnv env;
  Status s = env.loadModel(jumandicModel());
  if (!s) die("load", s);
  auto info = env.modelInfoCopy();
  std::vector<float> w;
  for (auto& part : info.parts) {
    if (part.kind != core::model::ModelPartKind::Perceprton) continue;
    w.resize(part.data[1].size() / sizeof(float));
    Rng r(4242);
    for (auto& x : w) x = (float)(r.unit() * 2 - 1);
    part.data[1] = StringPiece{reinterpret_cast<const char*>(w.data()), w.size() * sizeof(float)};
  }
  core::analysis::RnnScorerGbeamFactory f;
  if (order) {
    rnnFileText(sc->layer, order, 997 + order, 60 + order, &sc->dic, &sc->nnet);
    std::string base = "scored" + std::to_string(order) + ".rnn";
    {
      HostScope hs;
      if (!hostWrite(base, sc->dic) || !hostWrite(base + ".nnet", sc->nnet)) harnessError("cannot write rnn files");
    }
    core::analysis::rnn::RnnInferenceConfig c;
    c.nceBias = sc->nceBias;
    c.unkConstantTerm = sc->unkConst;
    c.unkLengthPenalty = sc->unkLen;
    c.perceptronWeight = sc->percWeight;
    c.rnnWeight = sc->rnnWeight;
    c.rnnFields = std::vector<std::string>{"baseform", "pos"};
    s = f.make(base, env.coreHolder()->dic(), c);
    if (!s) die("rnn", s);
    s = f.makeInfo(&info, "sim-rnn");
    if (!s) die("rnn info", s);
  }
  core::model::ModelSaver saver;
  s = saver.open(sc->file);
  if (s) s = saver.save(info);
  if (!s) die("save scored model", s);
  return *(g_scored[order] = sc);
}

// ------------------------------------------------------------------ random text
namespace {
std::string word(Rng& r, bool unknown) {
  const Small& s = small();
  if (unknown && r.chance(1, 8)) {
    std::string w;
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i) w += r.chance(3, 4) ? s.chars[4] : s.chars[5];
    return w;
  }
  return r.pick(s.words);
}
}  // namespace
std::string smallExample(Rng& r, int minWords, int maxWords, const std::string& comment) {
  std::string l;
  int n = (int)r.range(minWords, maxWords);
  for (int i = 0; i < n; ++i) {
    if (i) l += " ";
    l += word(r, true) + "_" + r.pick(small().tags);
  }
  if (!comment.empty()) l += " # " + comment;
  return l + "\n";
}
std::string smallExampleCsv(Rng& r, int minWords, int maxWords, const std::string& comment) {
  std::string l;
  if (!comment.empty()) l += "# " + comment + "\n";
  int n = (int)r.range(minWords, maxWords);
  for (int i = 0; i < n; ++i) l += word(r, true) + "," + r.pick(small().tags) + "\n";
  return l + "EOS\n";
}
std::string smallPartial(Rng& r, const std::string& comment) {
  std::string l;
  if (!comment.empty()) l += "# " + comment + "\n";
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 2)) {
      int k = (int)r.range(1, 3);
      for (int j = 0; j < k; ++j) {
        if (j && r.chance(1, 5)) l += "&";
        l += small().chars[r.below(4)];
      }
      l += "\n";
    } else {
      l += "\t" + r.pick(small().words);
      if (r.chance(1, 2)) l += "\tb:" + r.pick(small().tags);
      l += "\n";
    }
  }
  return l + "\n";
}
std::string smallSentence(Rng& r, int maxChars) {
  std::string l;
  int n = (int)r.range(0, maxChars);
  for (int i = 0; i < n; ++i) l += small().chars[r.below(small().chars.size())];
  return l;
}
}  // namespace world
