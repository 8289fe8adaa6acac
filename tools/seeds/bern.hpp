// SATELLIT files
#pragma once
#include "bern_utils.hpp"
inline std::string bern_head(int part1 = 10) {
  return "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2                   \n" + rep("  1 some line of part 1 of the file\n", part1) +
         "PART 2: ON-BOARD SENSORS\n------------------------\n"
         "                                              START TIME           END TIME                 SENSOR OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)\n"
         "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>\n\n";
}
inline std::string bern_rec(int prn, const char *type, const char *svn, const char *from, const char *to, int frq) {
  std::string t = fmt("%3d  %-6s%-17s%-5s", prn, type, "MW ANTENNA", svn);
  t.resize(41, ' ');
  t += fmt("%-19s  %-19s", from, to);
  t.resize(170, ' ');
  t += fmt("%-20s", "ANTENNA");
  t.resize(193, ' ');
  return t + fmt("%4d  L1C L2C\n", frq);
}
