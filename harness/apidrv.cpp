// Drives the parts of fstalign behind the program: one command per line on
// stdin, one line of output per command.
//   C <dir> <approach> <nocut> <nohyph> <usecase>   the composed graph of ref.* and hyp.ctm in <dir>, as JSON
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>

#include "AdaptedComposition.h"
#include "FstLoader.h"
#include "StandardComposition.h"
#include "SynonymEngine.h"
#include "logging.h"
#include "utilities.h"

using std::string;
using std::vector;

static bool There(const string &p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0;
}

static string Quote(const string &s) {
  string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += c;
  }
  return o + "\"";
}

namespace {
template <class Arc>
class Descending {
 public:
  constexpr bool operator()(const Arc &l, const Arc &r) const {
    return std::forward_as_tuple(l.olabel, l.ilabel) > std::forward_as_tuple(r.olabel, r.ilabel);
  }
  constexpr uint64 Properties(uint64 p) const {
    return (p & fst::kArcSortProperties) | fst::kOLabelSorted | (p & fst::kAcceptor ? fst::kILabelSorted : 0);
  }
};
}  // namespace

static FILE *answers;

static void Dump(IComposition &g, fst::SymbolTable &symbol) {
  FstAlignOption options;
  int del = symbol.Find(options.symDel);
  typedef vector<fst::StdArc> Arcs;
  std::map<int, Arcs> out;
  vector<int> order;
  std::map<int, int> colour;
  bool cyclic = false;
  std::function<void(int)> visit = [&](int s) {
    colour[s] = 1;
    Arcs arcs;
    g.TryGetArcsAtState(s, &arcs);
    out[s] = arcs;
    for (auto &a : arcs) {
      if (a.nextstate == s) continue;
      if (colour[a.nextstate] == 1) cyclic = true;
      if (colour[a.nextstate] == 0) visit(a.nextstate);
    }
    colour[s] = 2;
    order.push_back(s);
  };
  std::ostringstream out_;
  int start = g.Start();
  if (start >= 0) visit(start);
  std::reverse(order.begin(), order.end());
  std::map<int, int> no;
  for (size_t i = 0; i < order.size(); i++) no[order[i]] = i + 1;
  out_ << "{\"cyclic\":" << (cyclic ? "true" : "false") << ",\"st\":[";
  auto name = [&](int l) { return l == 0 ? string() : symbol.Find(l); };
  for (size_t i = 0; i < order.size(); i++) {
    int s = order[i];
    bool fin = g.Final(s) != fst::StdArc::Weight::Zero();
    out_ << (i ? "," : "") << "{\"f\":" << (fin ? "true" : "false") << ",\"a\":[";
    bool first = true;
    for (auto &a : out[s]) {
      float w = a.weight.Value() * 2;
      int w2 = std::fabs(w - std::lround(w)) < 1e-4 ? (int)std::lround(w) : -99;
      string in = name(a.ilabel);
      bool label = in.find("___") == 0;
      string o = label && a.olabel == del ? string() : name(a.olabel);
      out_ << (first ? "" : ",") << "{\"i\":" << Quote(in) << ",\"o\":" << Quote(o)
                << ",\"w\":" << w2 << ",\"to\":" << no[a.nextstate] << "}";
      first = false;
    }
    out_ << "]}";
  }
  out_ << "]}";
  fprintf(answers, "%s\n", out_.str().c_str());
  fflush(answers);
}

static void Compose(const string &rest) {
  std::istringstream in(rest);
  string dir, approach;
  bool nocut, nohyph, usecase;
  in >> dir >> approach >> nocut >> nohyph >> usecase;
  string ref = dir + "/ref.nlp";
  if (!There(ref)) ref = dir + "/ref.ctm";
  if (!There(ref)) ref = dir + "/ref.txt";
  string norm = There(dir + "/norm.json") ? dir + "/norm.json" : "";
  auto hyp = FstLoader::MakeHypothesisLoader(dir + "/hyp.ctm", "", false, usecase, false);
  auto r = FstLoader::MakeReferenceLoader(ref, "", norm, false, usecase, false);
  SynonymOptions so;
  so.disable_cutoffs = nocut;
  so.disable_hyphen_ignore = nohyph;
  SynonymEngine engine(so);
  if (There(dir + "/syn.txt")) engine.LoadFile(dir + "/syn.txt");
  FstAlignOption options;
  fst::SymbolTable symbol("symbols");
  options.RegisterSymbols(symbol);
  r->addToSymbolTable(symbol);
  hyp->addToSymbolTable(symbol);
  fst::StdVectorFst a = r->convertToFst(symbol, {}), b = hyp->convertToFst(symbol, {});
  engine.GenerateSynFromSymbolTable(symbol);
  engine.ApplyToFst(a, symbol);
  ArcSort(&a, fst::StdILabelCompare());
  if (approach == "standard") {
    StandardCompositionFst g(a, b, symbol);
    Dump(g, symbol);
  } else {
    RmEpsilon(&a, true);
    ArcSort(&a, Descending<fst::StdArc>());
    AdaptedCompositionFst g(a, b, symbol);
    Dump(g, symbol);
  }
}

int main() {
  // what fstalign logs goes nowhere
  answers = fdopen(dup(1), "w");
  dup2(open("/dev/null", O_WRONLY), 1);
  logger::InitLoggers("");
  string line;
  while (std::getline(std::cin, line)) {
    string rest = line.substr(2);
    if (line[0] == 'C') Compose(rest);
  }
  return 0;
}
