// Models, dictionaries and corpora used by the harnesses.  Built once per process (warm-up), before any run.
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include "hcommon.h"
#include "core/env.h"
#include "core/training/training_env.h"
#include <string>
#include <vector>

namespace world {
// small three-field specification with ambiguous segmentation over a few characters
struct Small {
  std::string dic;                       // csv text
  std::vector<std::string> chars;
  std::vector<std::string> tags;
  std::vector<std::string> words;        // dictionary surfaces
};
const Small& small();
const std::string& smallSeed();                 // model file holding only the dictionary (relative to the scratch directory)
jumanpp::core::JumanppEnv* smallEnv();   // loaded from smallSeed, core initialised, read only

// jumandic specification with the repository's minimal dictionary
const std::string& jumandicSeed();
const std::string& jumandicModel();             // dictionary + perceptron trained serially on train_mini_01
jumanpp::core::JumanppEnv* jumandicEnv();  // from jumandicSeed, static features initialised
const std::string& jumandicDicText();
const std::string& trainText();          // train_mini_01.txt
const std::vector<std::string>& trainLines();
std::string repoFile(const char* rel);   // contents of a file of the repository's test data

// a small recurrent language model: word list and matrices in the format of faster-rnnlm
const std::string& rnnFiles();                  // relative name of the word list, weights beside it (.nnet)
void rnnFileText(int layer, int maxentOrder, jumanpp::u64 maxentExtra, jumanpp::u64 seed, std::string* dic, std::string* nnet, int maxWords = -1);
jumanpp::core::analysis::rnn::RnnInferenceConfig rnnConfig();
// jumandic dictionary with random weights, order 0: no language model, 1..4: language model of that maxent order embedded
struct Scored { std::string file; int order; int layer; float unkConst, unkLen, percWeight, rnnWeight, nceBias; std::string dic, nnet; };
const Scored& scoredModel(int order);
const std::string& jumandicRnnModel();          // jumandicModel() with the RNN embedded

// builds a dictionary model file from a spec and csv text
jumanpp::Status saveDic(const jumanpp::core::spec::AnalysisSpec& spec, const std::string& csv, const std::string& file);

// one random corpus line (morph format) for the small specification
std::string smallExample(sim::Rng& r, int minWords, int maxWords, const std::string& comment);
std::string smallExampleCsv(sim::Rng& r, int minWords, int maxWords, const std::string& comment);
std::string smallPartial(sim::Rng& r, const std::string& comment);
std::string smallSentence(sim::Rng& r, int maxChars);
}  // namespace world
#endif
