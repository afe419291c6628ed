// Stand-in for the one function of ArashPartow/strtk that fstalign uses.
// strtk is a git submodule of fstalign that is empty in this sandbox, so
// SynonymEngine.cpp could not be compiled at all without it.  Semantics follow
// strtk::split(delims, str, range_to_type_back_inserter(v), compress_delimiters):
// every token is a maximal run between delimiters, runs of delimiters count as
// one, a leading delimiter gives an empty first token and a trailing delimiter
// gives an empty last token, and an empty input gives no token.
#pragma once
#include <cstddef>
#include <string>

namespace strtk {
namespace split_options {
typedef std::size_t type;
static const type default_mode = 0;
static const type compress_delimiters = 1;
}  // namespace split_options

template <typename Seq>
struct range_to_type_back_inserter_t {
  Seq &seq;
  explicit range_to_type_back_inserter_t(Seq &s) : seq(s) {}
  void push(const std::string &s) const { seq.push_back(typename Seq::value_type(s)); }
};

template <typename Seq>
inline range_to_type_back_inserter_t<Seq> range_to_type_back_inserter(Seq &s) {
  return range_to_type_back_inserter_t<Seq>(s);
}

template <typename Out>
inline std::size_t split(const char *delims, const std::string &str, const Out &out,
                         split_options::type opt = split_options::default_mode) {
  if (str.empty()) return 0;
  const std::string d(delims);
  auto is_delim = [&](char c) { return d.find(c) != std::string::npos; };
  std::size_t n = 0, first = 0, pos = 0;
  while (pos != str.size()) {
    if (is_delim(str[pos])) {
      out.push(str.substr(first, pos - first));
      ++n;
      if (opt & split_options::compress_delimiters) {
        while (++pos != str.size() && is_delim(str[pos])) {
        }
      } else {
        ++pos;
      }
      first = pos;
    } else {
      ++pos;
    }
  }
  if (first != pos || is_delim(str[pos - 1])) {
    out.push(str.substr(first, pos - first));
    ++n;
  }
  return n;
}
}  // namespace strtk
