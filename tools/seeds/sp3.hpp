// SP3 files and reading them
#pragma once
#include "sp3c.hpp"
inline std::string sp3_head(int sats, int comments = 4, int epochs = 3) {
  std::string t = fmt("#cP2019 12 17  0  0  0.00000000 %7d ORBIT IGS14 HLM  IGS\n", epochs);
  t += "## 2084 172800.00000000   900.00000000 58834 0.0000000000000\n";
  t += fmt("+  %3d   ", sats) + rep("G01", 17) + "\n" + rep("+        " + rep("  0", 17) + "\n", 4);
  t += rep("++       " + rep("  2", 17) + "\n", 5);
  t += "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n";
  t += "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n";
  t += rep("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n", 2);
  t += rep("%i    0    0    0    0      0      0      0      0         0\n", 2);
  return t + rep("/* a comment\n", comments);
}
inline std::string sp3_epoch(int minute) { return fmt("*  2019 12 17  0 %2d  0.00000000\n", minute); }
inline std::string sp3_pos(char s, int prn, double x, double y, double z, double c, const char *flags = "    ") {
  std::string t = fmt("P%c%02d%14.6f%14.6f%14.6f%14.6f", s, prn, x, y, z, c);
  t.resize(74, ' ');
  return t + flags[0] + flags[1] + "  " + flags[2] + flags[3] + "\n";
}
