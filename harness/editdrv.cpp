// Drives fstalign's edit-distance routine: one command per line on stdin, one
// line of JSON per command.
//   E <ints> ; <ints>      edit distances and match maps
//   S <ints> ; <cutoff>    error streaks
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "fast-d.h"

using std::string;
using std::vector;

static vector<int> Ints(const string &s) {
  std::istringstream in(s);
  vector<int> v;
  int x;
  while (in >> x) v.push_back(x);
  return v;
}

static string List(const vector<int> &v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}

static void Edit(const string &rest) {
  size_t k = rest.find(';');
  const vector<int> a = Ints(rest.substr(0, k)), b = Ints(rest.substr(k + 1));
  vector<int> a1 = a, b1 = b, a2 = a, b2 = b, ma, mb, na, nb;
  int d1 = GetEditDistance(a1, ma, b1, mb);
  int d2 = GetEditDistance(b2, nb, a2, na);
  bool kept = a1 == a && b1 == b && a2 == a && b2 == b;
  int d3 = GetEditDistanceOnly(a1, b1);
  int d4 = GetEditDistanceOnly(b1, a1);
  int d5 = GetEditDistance(a1, b1);
  kept = kept && a1 == a && b1 == b;
  std::cout << "{\"d\":" << List({d1, d2, d3, d4, d5}) << ",\"kept\":" << (kept ? "true" : "false")
            << ",\"ma\":" << List(ma) << ",\"mb\":" << List(mb) << ",\"na\":" << List(na) << ",\"nb\":" << List(nb)
            << "}" << std::endl;
}

static void Streak(const string &rest) {
  size_t k = rest.find(';');
  vector<int> m = Ints(rest.substr(0, k));
  int cut = std::stoi(rest.substr(k + 1));
  std::cout << "{\"s\":" << (MapContainsErrorStreaks(m, cut) ? "true" : "false") << "}" << std::endl;
}

int main() {
  string line;
  while (std::getline(std::cin, line)) {
    if (line[0] == 'E') Edit(line.substr(2));
    if (line[0] == 'S') Streak(line.substr(2));
  }
  return 0;
}
