// helpers of the demonstrations
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define EXPECT(c)                                                                                  \
  do {                                                                                             \
    if (!(c)) {                                                                                    \
      printf("\nFAILED line %d: %s\n", __LINE__, #c);                                              \
      fflush(stdout);                                                                              \
      _Exit(1);                                                                                    \
    }                                                                                              \
  } while (0)
inline std::string fmt(const char *f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
/// write a file in the current (scratch) directory
inline const char *file(const char *name, const std::string &text) {
  std::ofstream o(name, std::ios::binary);
  o << text;
  return name;
}
/// text padded to 60 columns and followed by a label
inline std::string col(std::string s, const char *label) {
  s.resize(60, ' ');
  return s + label + "\n";
}
inline std::string rep(const std::string &s, int n) {
  std::string r;
  while (n-- > 0)
    r += s;
  return r;
}

// ---- ANTEX
inline std::string atx_head(int comments = 1) {
  return col("     1.4            M", "ANTEX VERSION / SYST") + col("A", "PCV TYPE / REFANT") +
         rep(col("a comment", "COMMENT"), comments) + col("", "END OF HEADER");
}
struct Freq {
  std::string id;
  double n, e, u;
};
/// rows: lines of the azimuth dependent pattern; width: numbers per line
inline std::string atx_block(std::string type, const std::string &more, const std::vector<Freq> &f,
                             int rows = 0, int width = 19) {
  std::string s = col("", "START OF ANTENNA") + col(type, "TYPE / SERIAL NO") +
                  col("COPIED", "METH / BY / # / DATE") + col(rows ? "     5.0" : "     0.0", "DAZI") +
                  col("     0.0  90.0   5.0", "ZEN1 / ZEN2 / DZEN") +
                  col(fmt("%6d", (int)f.size()), "# OF FREQUENCIES") + more;
  for (auto &q : f) {
    s += col("   " + q.id, "START OF FREQUENCY") +
         col(fmt("%10.2f%10.2f%10.2f", q.n, q.e, q.u), "NORTH / EAST / UP");
    s += "   NOAZI" + rep("    0.10", width) + "\n";
    for (int i = 0; i < rows; i++)
      s += fmt("%8.1f", i * 5.0) + rep("   -0.20", width) + "\n";
    s += col("   " + q.id, "END OF FREQUENCY");
  }
  return s + col("", "END OF ANTENNA");
}
inline std::string atx_valid(const char *from, const char *until = nullptr) {
  return col(std::string("  ") + from, "VALID FROM") +
         (until ? col(std::string("  ") + until, "VALID UNTIL") : std::string());
}

// ---- navigation RINEX
inline std::string nav_head() {
  return col("     3.04           N: GNSS NAV DATA    M: MIXED", "RINEX VERSION / TYPE") +
         col("", "END OF HEADER");
}
inline std::string num(double v, char e = 'E') {
  char b[32];
  snprintf(b, sizeof b, "%19.12E", v);
  for (char *c = b; *c; c++)
    if (*c == 'E')
      *c = e;
  return b;
}
/// a message; f are its numbers (31, or 15 for GLONASS)
inline std::string nav_msg(char sys, int prn, const char *toc, const std::vector<double> &f,
                           char e = 'E') {
  std::string s = fmt("%c%02d ", sys, prn) + toc + num(f[0], e) + num(f[1], e) + num(f[2], e) + "\n";
  int lines = (sys == 'R' || sys == 'S') ? 4 : 8, k = 3;
  int last = (sys == 'R' || sys == 'S') ? 4 : (sys == 'E' || sys == 'I') ? 1 : 2;
  for (int l = 1; l < lines; l++) {
    s += "    ";
    for (int i = 0; i < (l + 1 < lines ? 4 : last); i++, k++)
      s += num(k < (int)f.size() ? f[k] : 0, e);
    s += "\n";
  }
  return s;
}
/// realistic elements; toe in seconds of week
inline std::vector<double> kepler(double toe, int week, double ecc = 0.01, double health = 0,
                                  double fit = 4) {
  return {1.2e-4, -3.4e-12, 0, 45, 23.5, 4.5e-9, 0.7, 1.1e-6, ecc, 8.8e-6, 5153.65, toe, 1.3e-7, 1.9,
          -7.4e-8, 0.96, 210.5, 0.83, -8.1e-9, 3.2e-10, 1, (double)week, 0, 2, health, -1.1e-8, 45,
          toe, fit, 0, 0};
}
inline std::vector<double> glonass(double tom, double health = 0) {
  return {1.0e-5, 9.0e-13, tom, 7003.008789, 0.783416, 1.1e-9, health, -12206.626953, 2.804210, -2.0e-9,
          1, 21280.765625, 1.352440, 9.3e-10, 0};
}
