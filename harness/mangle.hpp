// damage a text file: what interrupted downloads, wrong editors and other
// formats do to it (used by the properties about malformed input)
#pragma once
#include "pbt.hpp"

namespace pbt {
inline std::vector<std::string> split_lines(const std::string &t) {
  std::vector<std::string> L(1);
  for (char c : t)
    if (c == '\n')
      L.emplace_back();
    else
      L.back() += c;
  if (!L.empty() && L.back().empty())
    L.pop_back();
  return L;
}
inline std::string join_lines(const std::vector<std::string> &L) {
  std::string t;
  for (auto &l : L)
    t += l + "\n";
  return t;
}
/// a field that holds a number, turned into one that only begins with one (or
/// holds two)
inline std::string spoilt(Src &s, std::string f) {
  size_t a = f.find_first_not_of(' ');
  if (a == std::string::npos || a + 1 >= f.size())
    return std::string(f.size(), '#');
  size_t p = a + 1 + s.u(f.size() - a - 2);
  char c = s.chr("#?*:Z ");
  if (c == ' ' && f.find_first_not_of(' ', p + 1) == std::string::npos)
    c = ',';
  f[p] = c;
  return f;
}
inline char any_char(Src &s) {
  switch (s.w({4, 2, 2, 1})) {
  case 0:
    return s.chr(" 0123456789.-+");
  case 1:
    return s.chr("GRECJSMIAPELCDXNeEdD*>%#/");
  case 2:
    return char(s.i(33, 126));
  default:
    return s.chr(std::string("\0\t\r\xff\x80\x01", 6));
  }
}
inline std::string any_field(Src &s, size_t w) {
  static const std::vector<std::string> odd = {
      "-1", "0", "99999", "1e999", "nan", "inf", "-0", "999999999999999999999", "1e-320", "0x10",
      "2147483647", "2147483648", "-2147483649", "4294967297", "13", "32", "60", "24", "1.5.2", "--1",
      "00", "366", "-999", "81", "100", "512", "85", "60.0000000", "1D+05", "1D+400"};
  std::string v = s.p(2, 3) ? s.pick(odd) : s.str("0123456789.- ", 0, 8);
  if (v.size() < w && s.p(3, 4))
    v = std::string(w - v.size(), ' ') + v;
  return v;
}
/// one random damage; the kinds are weighted towards those that keep most of
/// the structure
inline void damage_once(Src &s, std::vector<std::string> &L, std::string &what) {
  if (L.empty())
    L.push_back("");
  size_t k = s.u(L.size() - 1);
  std::string &l = L[k];
  switch (s.w({5, 4, 3, 2, 2, 2, 2, 2, 1, 1, 1, 1})) {
  case 0: { // a field replaced
    if (l.empty())
      l = "x";
    size_t at = s.u(l.size() - 1), w = s.i(1, 12);
    std::string v = any_field(s, w);
    what += fmt("field at %zu:%zu; ", k, at);
    l = l.substr(0, at) + v + (at + v.size() < l.size() ? l.substr(at + v.size()) : "");
    break;
  }
  case 1: { // one character
    if (l.empty())
      l = "x";
    size_t at = s.u(l.size() - 1);
    l[at] = any_char(s);
    what += fmt("character %zu:%zu; ", k, at);
    break;
  }
  case 2: { // line cut
    size_t at = s.u(l.size());
    l.resize(at);
    what += fmt("line %zu cut at %zu; ", k, at);
    break;
  }
  case 3:
    what += fmt("line %zu deleted; ", k);
    L.erase(L.begin() + k);
    break;
  case 4: {
    size_t n = s.w({8, 2, 1}) + 1;
    if (n == 3)
      n = s.i(3, 60);
    std::string c = l;
    what += fmt("line %zu repeated %zu times; ", k, n);
    L.insert(L.begin() + k, n, c);
    break;
  }
  case 5: { // two lines exchanged
    size_t j = s.u(L.size() - 1);
    std::swap(L[k], L[j]);
    what += fmt("lines %zu and %zu exchanged; ", k, j);
    break;
  }
  case 6: { // lines lost up to the end
    what += fmt("ends after line %zu; ", k);
    L.resize(k);
    break;
  }
  case 7: { // columns shifted
    size_t at = s.u(l.size());
    if (s.flip() && at < l.size())
      l.erase(at, s.i(1, 4));
    else
      l.insert(at, std::string(s.i(1, 4), any_char(s)));
    what += fmt("columns of %zu shifted at %zu; ", k, at);
    break;
  }
  case 8: { // very long line
    size_t n = s.w({2, 2, 1}) == 2 ? s.i(500, 3000) : s.i(1, 120);
    std::string add;
    std::string piece = s.str(" 0123456789.G", 1, 16);
    while (add.size() < n)
      add += piece;
    l += add;
    what += fmt("line %zu %zu longer; ", k, add.size());
    break;
  }
  case 9: { // a blank range
    if (l.empty())
      l = "x";
    size_t at = s.u(l.size() - 1), w = s.i(1, 40);
    for (size_t i = at; i < l.size() && i < at + w; i++)
      l[i] = ' ';
    what += fmt("blanks at %zu:%zu; ", k, at);
    break;
  }
  case 10: { // an extra line of something
    std::string g;
    size_t n = s.i(0, 100);
    for (size_t i = 0; i < n; i++)
      g += any_char(s);
    L.insert(L.begin() + k, g);
    what += fmt("garbage line at %zu; ", k);
    break;
  }
  default: // windows line ends
    for (auto &x : L)
      x += '\r';
    what += "CRLF; ";
  }
}
inline std::string damaged(Src &s, const std::string &text, std::string &what) {
  auto L = split_lines(text);
  int n = s.w({5, 3, 2, 1}) + 1;
  if (n == 4)
    n = s.i(4, 12);
  for (int k = 0; k < n; k++)
    damage_once(s, L, what);
  std::string t = join_lines(L);
  if (s.p(1, 3) && !t.empty()) { // ends anywhere
    t.resize(t.size() - s.u(std::min<size_t>(t.size(), 200)));
    what += fmt("ends at byte %zu; ", t.size());
  }
  return t;
}
} // namespace pbt
