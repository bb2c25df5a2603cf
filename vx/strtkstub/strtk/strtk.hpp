#pragma once
// stand-in for the part of strtk that SynonymEngine.cpp uses (the library is not in this sandbox)
#include <string>
#include <vector>
namespace strtk {
namespace split_options { enum type { default_mode = 0, compress_delimiters = 1 }; }
template <class C> struct rtb { C &c; };
template <class C> rtb<C> range_to_type_back_inserter(C &c) { return rtb<C>{c}; }
template <class C>
std::size_t split(const char *delims, const std::string &s, rtb<C> out, split_options::type mode = split_options::default_mode) {
  std::string d = delims;
  std::size_t n = 0, prev = 0, it = 0;
  if (s.empty()) return 0;
  auto is = [&](char c) { return d.find(c) != std::string::npos; };
  while (it < s.size()) {
    if (is(s[it])) {
      out.c.push_back(s.substr(prev, it - prev));
      n++;
      it++;
      if (mode & split_options::compress_delimiters) while (it < s.size() && is(s[it])) it++;
      prev = it;
    } else it++;
  }
  if (prev != it || is(s[it - 1])) { out.c.push_back(s.substr(prev, it - prev)); n++; }
  return n;
}
}
