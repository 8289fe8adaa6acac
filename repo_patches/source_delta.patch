From c62808253f32c14bcd5d29c107d08888e4b27a6e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 01/71] fix: compare observables as multisets of parts

operator== only looked every left part up in the right-hand side, so A+A+B
compared equal to A+B+B, and the result depended on the order of operands.
---
 src/gnssobsrv.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gnssobsrv.cpp b/src/gnssobsrv.cpp
index 2dc58b3..34ebc4c 100644
--- a/src/gnssobsrv.cpp
+++ b/src/gnssobsrv.cpp
@@ -65,11 +65,6 @@ bool ngpt::GnssObservable::operator==(const ngpt::GnssObservable &o) const
     noexcept {
   if (o.__vec.size() != __vec.size())
     return false;
-  for (const auto &i : __vec)
-    if (auto it = std::find_if(
-            o.__vec.begin(), o.__vec.end(),
-            [&ic = std::as_const(i)](const __ObsPart &p) { return p == ic; });
-        it == o.__vec.end())
-      return false;
-  return true;
+  // parts may be repeated, so compare as multisets
+  return std::is_permutation(__vec.begin(), __vec.end(), o.__vec.begin());
 }
-- 
2.43.0


From be0c1cbda6b84a59f5fdbd16b44c6e30ed8b2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 02/71] fix: set the radome to NONE exactly when it is blank

A 20 character model with a blank radome kept the blanks, and a radome given
in a string of less than 20 characters was overwritten; radome_is_empty was
shifted by one column (and never used).
---
 src/antenna.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 8b11f9e..b728bc7 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -36,8 +36,9 @@ void ReceiverAntenna::set_none_radome() noexcept {
 /// Check if the instance's radome type is empty, aka is "	  "
 /// @return true if radome is empty; false otherwise
 bool ReceiverAntenna::radome_is_empty() const noexcept {
-  constexpr std::size_t from = antenna_model_max_chars;
-  constexpr std::size_t to = antenna_model_max_chars + antenna_radome_max_chars;
+  // the radome follows the blank after the model
+  constexpr std::size_t from = antenna_model_max_chars + 1;
+  constexpr std::size_t to = from + antenna_radome_max_chars;
   for (std::size_t i = from; i < to; i++) {
     if (__name[i] != ' ')
       return false;
@@ -65,8 +66,9 @@ void ReceiverAntenna::copy_from_cstr(const char *c) noexcept {
   std::memcpy(__name, c, sizeof(char) * std::min(ant_size, max_sz));
   if (ant_size < max_sz) {
     std::memset(__name + ant_size, ' ', sizeof(char) * (max_sz - ant_size));
-    set_none_radome();
   }
+  if (radome_is_empty())
+    set_none_radome();
 }
 
 /// Constructor from antenna type. At maximum 20 chars are copied from the
-- 
2.43.0


From 837e18d39bea47007bdf97f57145a8ae2f6dba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 03/71] fix: compare serials shorter than 20 characters

set_serial_nr pads the serial with blanks, so compare_serial never matched the
very text that was set unless it had 20 characters.
---
 src/antenna.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index b728bc7..59cc6ef 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -131,7 +131,12 @@ bool ReceiverAntenna::compare_model(const ReceiverAntenna &rhs) const noexcept {
 /// @return		   True if the serials match exactly; false otherwise
 bool ReceiverAntenna::compare_serial(const char *c) const noexcept {
   constexpr auto idx = antenna_model_max_chars + 1 + antenna_radome_max_chars;
-  return !std::strncmp(__name + idx, c, antenna_serial_max_chars);
+  if (!__name[idx]) // no serial set
+    return !*c;
+  // set_serial_nr pads the serial with blanks, do the same with the input
+  ReceiverAntenna tmp;
+  tmp.set_serial_nr(c);
+  return !std::strncmp(__name + idx, tmp.__name + idx, antenna_serial_max_chars);
 }
 
 /// Check if the Antenna instance has a serial number; that is, any of the
-- 
2.43.0


From 21903dc851658205c7c0b508db6838dba2bd5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/71] fix: SatelliteAntenna::is_same returned the negated
 comparison

---
 src/antenna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 59cc6ef..e02c488 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -196,7 +196,7 @@ SatelliteAntenna::SatelliteAntenna(const char *c) noexcept {
 /// @return       Returns true of the passed in c-string holds the same
 ///               antenna type as this instance; false otherwise
 bool SatelliteAntenna::is_same(const char *c) const noexcept {
-  return std::strncmp(__name, c, satellite_antenna_max_chars);
+  return !std::strncmp(__name, c, satellite_antenna_max_chars);
 }
 
 /// Set the model name to nothing, that is to 20 null terminating chars
-- 
2.43.0


From b8415fd81b1d4627bd482fb9c40849db6ef05966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 05/71] fix: satellite COSPAR id: keep all nine characters,
 start out empty

The id is YYYY-XXXA (nine characters) but only eight were kept, and a satellite
without an id printed uninitialised memory.
---
 src/satellite.cpp | 2 +-
 src/satellite.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/satellite.cpp b/src/satellite.cpp
index 5b3a100..9e35772 100644
--- a/src/satellite.cpp
+++ b/src/satellite.cpp
@@ -18,5 +18,5 @@ std::string Satellite::to_string(bool compact) const noexcept {
     sat += ("-" + s);
 
   return sat +
-         std::string("/" + std::string(__cospar, detail::COSPAR_ID_CHARS));
+         std::string("/" + std::string(__cospar));
 }
diff --git a/src/satellite.hpp b/src/satellite.hpp
index dd07986..392bdd5 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -27,7 +27,7 @@
 namespace ngpt {
 
 namespace detail {
-constexpr int COSPAR_ID_CHARS = 8;
+constexpr int COSPAR_ID_CHARS = 9; // YYYY-XXXA
 }
 
 /// @class Satellite
@@ -113,7 +113,7 @@ private:
                               ///< (QZSS); blank (Compass, SBAS)
   SatelliteAntenna __antenna; ///< antenna type
   char
-      __cospar[detail::COSPAR_ID_CHARS + 1]; ///< The COSPAR id, aka "YYYY-XXXA"
+      __cospar[detail::COSPAR_ID_CHARS + 1]{}; ///< The COSPAR id, aka "YYYY-XXXA"
 };                                           // Satellite
 
 } // namespace ngpt
-- 
2.43.0


From 6b29c40e2fb74e7e31e8f293377c13652a0ebacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 06/71] fix: resolve fixed-width numbers column by column

__char2double__ let strtod run past the width of a field: numbers that fill
their columns were glued to the next one, a blank field took the value of the
following one, and a short line was read past its end.
---
 src/nvarstr.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 7c4ee64..b19f16f 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -1,6 +1,9 @@
 #ifndef __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 #define __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 
+#include <cerrno>
+#include <cstdlib>
+#include <cstring>
 #include <string>
 
 namespace ngpt {
@@ -84,12 +87,17 @@ std::string ltrim(const char *str, std::size_t &start,
 ///          sure to clear it (aka 'errno') after exit.
 template <int N, int M>
 inline bool __char2double__(const char *line, double *data) noexcept {
-  char *end;
+  char *end, field[M + 1];
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    // only consider the M columns of this field (the next one may follow
+    // without a blank, and the line may end early)
+    const std::size_t len = ::strnlen(line, M);
+    std::memcpy(field, line, len);
+    field[len] = '\0';
+    data[i] = std::strtod(field, &end);
+    if (field == end)
       return false;
-    line += M;
+    line += len;
   }
   return errno ? false : true;
 }
@@ -107,12 +115,17 @@ inline bool __char2double__(const char *line, double *data) noexcept {
 /// doubles we are resolving at compile time.
 template <int M>
 inline bool __char2double__(const char *line, double *data, int N) noexcept {
-  char *end;
+  char *end, field[M + 1];
   for (int i = 0; i < N; i++) {
-    data[i] = std::strtod(line, &end);
-    if (line == end)
+    // only consider the M columns of this field (the next one may follow
+    // without a blank, and the line may end early)
+    const std::size_t len = ::strnlen(line, M);
+    std::memcpy(field, line, len);
+    field[len] = '\0';
+    data[i] = std::strtod(field, &end);
+    if (field == end)
       return false;
-    line += M;
+    line += len;
   }
   return errno ? false : true;
 }
-- 
2.43.0


From a8777c3e4e52cece48db4c0d1fcca782a685c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 07/71] fix: ANTEX: fixed columns of a short line held
 leftovers of previous lines; endless loop at end of file

---
 src/antex.cpp | 56 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 74b2de7..033a2ee 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -51,6 +51,15 @@ int resolve_satellite_antenna_line(const char *, Satellite &) noexcept;
 int check_time_interval(std::ifstream &,
                         const ngpt::datetime<ngpt::seconds> &) noexcept;
 
+/// Read the next line; whatever part of the buffer the line does not fill is set
+/// to '\0', so that fixed columns of a short line never hold leftovers of a
+/// previous one.
+template <std::size_t N>
+std::istream &next_line(std::ifstream &fin, char (&line)[N]) noexcept {
+  std::memset(line, 0, N);
+  return fin.getline(line, N);
+}
+
 /// @details Antex Constructor, using an antex filename. The constructor will
 ///          initialize (set) the _filename attribute and also (try to)
 ///          open the input stream (i.e. _istream).
@@ -123,7 +132,7 @@ int Antex::read_header() noexcept {
 
   // Read the first line. Get version and system.
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   // strtod will keep on reading untill a non-valid
   // char is read. Fuck this, lets split the string
   // so that it only reads the valid chars (for version).
@@ -146,7 +155,7 @@ int Antex::read_header() noexcept {
   // Read the second line. Get PCV TYPE / REFANT.
   // If the atx is of type relative, then just return with error
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   if (*line != 'A') {
     return 12;
   }
@@ -154,10 +163,10 @@ int Antex::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line);
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
@@ -205,7 +214,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the first line. Should be "START OF ANTENNA"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!next_line(__istream, line) ||
       std::strncmp(line + 60, "START OF ANTENNA", 16)) {
     if (__istream.eof()) {
       __istream.clear();
@@ -216,7 +225,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the next line. Should be "TYPE / SERIAL NO"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!next_line(__istream, line) ||
       std::strncmp(line + 60, "TYPE / SERIAL NO", 16)) {
     return 11;
   }
@@ -252,7 +261,7 @@ int Antex::skip_rest_of_antenna() noexcept {
 
   int dummy_it = 0;
   do {
-    __istream.getline(line, MAX_GRID_CHARS);
+    next_line(__istream, line);
     dummy_it++;
   } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
            dummy_it < max_antenna_lines);
@@ -413,7 +422,7 @@ int check_time_interval(std::ifstream &fin,
   int max_lines = 5000;
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(line, MAX_GRID_CHARS) ||
+  if (!next_line(fin, line) ||
       std::strncmp(line + 60, "METH / BY / # / DATE", 20)) {
     return 10;
   }
@@ -422,7 +431,7 @@ int check_time_interval(std::ifstream &fin,
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
-    fin.getline(line, MAX_GRID_CHARS);
+    next_line(fin, line);
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
@@ -440,8 +449,8 @@ int check_time_interval(std::ifstream &fin,
     }
     if (from_ok && to_ok)
       break;
-  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           dummy_it < max_lines);
+  } while (fin && std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
+           ++dummy_it < max_lines);
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -449,7 +458,7 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (++dummy_it >= max_lines) {
+  if (dummy_it >= max_lines) {
     return 20;
   }
 
@@ -489,7 +498,8 @@ int check_time_interval(std::ifstream &fin,
 int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   const ngpt::datetime<ngpt::seconds> &at,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
-  char line[MAX_HEADER_CHARS];
+  // read_next_antenna_type only fills in the first 60 characters
+  char line[MAX_HEADER_CHARS] = {'\0'};
 
   // go to the top of the file, after the header
   __istream.seekg(__end_of_head, std::ios_base::beg);
@@ -692,27 +702,27 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   char tmp[11];
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline) ||
       std::strncmp(hline + 60, "METH / BY / # / DATE", 20)) {
     return 1;
   }
 
   // next field is 'DAZI'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline) ||
       std::strncmp(hline + 60, "DAZI", 4)) {
     // dazi = std::stof(hline+2, nullptr);
     return 2;
   }
 
   // next field is 'ZEN1 / ZEN2 / DZEN'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline) ||
       std::strncmp(hline + 60, "ZEN1 / ZEN2 / DZEN", 18)) {
     return 3;
   }
 
   // next field is '# OF FREQUENCIES'
   int num_of_freqs = 0;
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline) ||
       std::strncmp(hline + 60, "# OF FREQUENCIES", 16)) {
     return 4;
   } else {
@@ -726,7 +736,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   // From here up untill the block 'START OF FREQUENCY' there can be a number
   // of optional fields.
   do {
-    fin.getline(hline, MAX_HEADER_CHARS);
+    next_line(fin, hline);
   } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18));
 
   ngpt::SATELLITE_SYSTEM ss;
@@ -739,9 +749,9 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       // wait!! this might be a frequency rms from the previous frequency
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
-          fin.getline(gline, MAX_GRID_CHARS);
+          next_line(fin, gline);
         } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
-        if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+        if (!next_line(fin, hline) ||
             std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
           return 11;
         }
@@ -758,7 +768,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     }
     obsc.band() = bn;
     // next field is 'NORTH / EAST / UP'
-    if (fin.getline(hline, MAX_HEADER_CHARS) &&
+    if (next_line(fin, hline) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
       std::memcpy(tmp, hline, 10);
@@ -774,10 +784,10 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
     // skip lines until "END OF FREQUENCY"
     do {
-      fin.getline(gline, MAX_GRID_CHARS);
+      next_line(fin, gline);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
     // read the following line into hline
-    fin.getline(hline, MAX_HEADER_CHARS);
+    next_line(fin, hline);
   }
 
   return 0;
-- 
2.43.0


From 529408c0943a149be67cf6879a783ada105b5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 08/71] fix: ANTEX: an antenna that is not in the file was
 reported as found

The position of the (missing) match was uninitialised, as was the status of an
empty file.
---
 src/antex.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 033a2ee..e9242fd 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -295,7 +295,8 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
 
   ReceiverAntenna cur_ant, best_match_ant;
   pos_type best_match_pos;
-  int stat1, stat2;
+  bool model_matched = false;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant))) {
     if (cur_ant.is_same(ant_in)) {
@@ -306,6 +307,7 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
     if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {
       best_match_ant = cur_ant;
       best_match_pos = __istream.tellg();
+      model_matched = true;
     }
     if ((stat2 = skip_rest_of_antenna()))
       break;
@@ -314,6 +316,10 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
   if (stat1 > 0 || stat2) {
     return 1;
   }
+  // no antenna of this model+radome in the file
+  if (!model_matched) {
+    return 1;
+  }
   ant_out = best_match_ant;
   ant_pos = best_match_pos;
   return 0;
@@ -506,7 +512,7 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
 
   ReceiverAntenna cur_ant;
   Satellite cur_sat;
-  int stat1, stat2;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
     cur_sat.system() = SATELLITE_SYSTEM::mixed;
-- 
2.43.0


From 9cb20debe2f2e57ca4142209eff1b779118fc522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 09/71] fix: ANTEX: SVN and COSPAR id of a previous block
 leaked into a satellite without them

---
 src/antex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index e9242fd..c14577a 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -515,7 +515,8 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
   int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
-    cur_sat.system() = SATELLITE_SYSTEM::mixed;
+    // nothing of a previous antenna block must be left
+    cur_sat = Satellite();
     ant_pos = __istream.tellg();
     if (!resolve_satellite_antenna_line(line, cur_sat)) {
       if (cur_sat.prn() == prn && cur_sat.system() == ss) {
-- 
2.43.0


From 43c68ee3343bfa5c2965f72d71f1d0e15babfee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 10/71] fix: ANTEX: an unreadable offset threw out of a
 noexcept function

---
 src/antex.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index c14577a..4f5ce7f 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -778,12 +778,16 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     if (next_line(fin, hline) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
-      std::memcpy(tmp, hline, 10);
-      dn = std::stod(tmp);
-      std::memcpy(tmp, hline + 10, 10);
-      de = std::stod(tmp);
-      std::memcpy(tmp, hline + 20, 10);
-      du = std::stod(tmp);
+      try {
+        std::memcpy(tmp, hline, 10);
+        dn = std::stod(tmp);
+        std::memcpy(tmp, hline + 10, 10);
+        de = std::stod(tmp);
+        std::memcpy(tmp, hline + 20, 10);
+        du = std::stod(tmp);
+      } catch (std::exception &) {
+        return 8;
+      }
     } else {
       return 7;
     }
-- 
2.43.0


From 008bbc9a90af4d471b9cf72e0fcdc248825208c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 11/71] fix: ANTEX: a query that failed left the stream
 unusable for the next ones

---
 src/antex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/antex.cpp b/src/antex.cpp
index 4f5ce7f..2714eaa 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -291,6 +291,7 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
                                       ReceiverAntenna &ant_out,
                                       pos_type &ant_pos) noexcept {
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant, best_match_ant;
@@ -508,6 +509,7 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
   char line[MAX_HEADER_CHARS] = {'\0'};
 
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
@@ -644,6 +646,7 @@ int Antex::get_antenna_pco(int prn, SATELLITE_SYSTEM ss,
     return ant_found;
 
   // go to the position where the antenna was found
+  __istream.clear();
   __istream.seekg(ant_pos, std::ios_base::beg);
 
   // we should now be ready to read "METH / BY / # / DATE"
@@ -685,6 +688,7 @@ int Antex::get_antenna_pco(const ReceiverAntenna &ant_in,
   }
 
   // go to the position where the antenna was found
+  __istream.clear();
   __istream.seekg(ant_pos, std::ios_base::beg);
 
   // we should now be ready to read "METH / BY / # / DATE"
-- 
2.43.0


From fd61833832ac8bae15a03f09d2e942b3a457c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 12/71] fix: nav RINEX: an unreadable satellite system or epoch
 threw out of a noexcept function

---
 src/navrnx.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f8b6c8b..6b5f40e 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -71,8 +71,6 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 /// @param[in] inp Input file (nav RINEX v3) stream, placed before (aka first
 ///                line to be read is:) "SV/ EPOCH / SV CLK"
 /// @return    Anything other than 0 denotes an error.
-/// @todo the line toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line+3); may
-/// throw! what can i do about this?
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
@@ -87,8 +85,12 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (!inp.getline(line, MAX_RECORD_CHARS)) {
     return 1;
   }
-  sys__ = ngpt::char_to_satsys(*line);
-  toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  try {
+    sys__ = ngpt::char_to_satsys(*line);
+    toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  } catch (std::exception &) {
+    return 2;
+  }
   prn__ = std::strtol(line + 1, &str_end, 10);
   if (!prn__ || errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 5601a3b3296e0c160bb8280e824d90849e41559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 13/71] fix: nav RINEX: short lines were completed with
 leftovers of previous ones

---
 src/navrnx.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 6b5f40e..b4e9c79 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -30,6 +30,14 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// @brief Read the next line; the part of the buffer that the line does not fill
+/// is set to '\0', so that nothing of a previous (longer) line is left.
+template <std::size_t N>
+std::istream &next_line(std::ifstream &fin, char (&line)[N]) noexcept {
+  std::memset(line, 0, N);
+  return fin.getline(line, N);
+}
+
 /// @brief Navigation data block lines per satellite system
 /// @param[in]  s SATELLITE_SYSTEM
 /// @param[out] records_in_last_line Number of records that the last line holds.
@@ -82,7 +90,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
 
   // Read the first line.
   // ------------------------------------------------------------
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!next_line(inp, line)) {
     return 1;
   }
   try {
@@ -112,7 +120,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // read all but the last line (** all but galileo or beidou **)
   if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!next_line(inp, line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -125,7 +133,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     }
   } else { // galileo and beidou have an empty record in line #5
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!next_line(inp, line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -146,7 +154,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // read last line
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!next_line(inp, line)) {
     return 7;
   }
   // replace 'D' or 'd' with 'e'
@@ -217,7 +225,7 @@ int NavigationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -232,10 +240,10 @@ int NavigationRnx::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line);
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
@@ -299,7 +307,7 @@ int NavigationRnx::ignore_next_block() noexcept {
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
-    if (!__istream.getline(line, MAX_RECORD_CHARS)) {
+    if (!next_line(__istream, line)) {
       return 2;
     }
   }
-- 
2.43.0


From 47eb57983f79b8d277aad467765047b43743dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 14/71] fix: nav RINEX: an unrelated errno made reading of a
 message fail

---
 src/navrnx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index b4e9c79..a16eabb 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -82,6 +82,8 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
+  // errors are detected via errno; forget about previous, unrelated ones
+  errno = 0;
 
 #ifdef DEBUG
   if (!inp.good())
-- 
2.43.0


From 3a35f4d2cccbae389d98596132a8746c98a283b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 15/71] fix: nav RINEX: a blank satellite number was taken from
 the epoch

---
 src/navrnx.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index a16eabb..8581bbd 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -101,9 +101,10 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   } catch (std::exception &) {
     return 2;
   }
-  prn__ = std::strtol(line + 1, &str_end, 10);
-  if (!prn__ || errno == ERANGE) {
-    errno = 0;
+  // two columns, the epoch follows
+  const char prn_str[] = {line[1], line[2], '\0'};
+  prn__ = std::strtol(prn_str, &str_end, 10);
+  if (prn__ <= 0) {
     return 2;
   }
   // replace 'D' or 'd' with 'e' in remaining floats
-- 
2.43.0


From d35d813f95320f8d14e58ade4d7c13187fb1b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 16/71] fix: nav RINEX: accept blank spare fields in BeiDou and
 IRNSS messages

---
 src/navrnx.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 8581bbd..0f9d188 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -38,6 +38,23 @@ std::istream &next_line(std::ifstream &fin, char (&line)[N]) noexcept {
   return fin.getline(line, N);
 }
 
+/// @brief Put a zero in a spare field of a data line, if it is blank
+/// @param[in] line  A (zero-padded) line of 4X,4D19.12
+/// @param[in] field Index of the field, [0,4)
+void blank2zero(char (&line)[MAX_RECORD_CHARS], int field) noexcept {
+  char *f = line + 4 + field * 19;
+  for (int i = 0; i < 19; i++) {
+    if (f[i] && f[i] != ' ' && f[i] != '\r')
+      return;
+  }
+  // the line may end before the field
+  for (char *c = line; c < f + 18; c++) {
+    if (!*c)
+      *c = ' ';
+  }
+  f[18] = '0';
+}
+
 /// @brief Navigation data block lines per satellite system
 /// @param[in]  s SATELLITE_SYSTEM
 /// @param[out] records_in_last_line Number of records that the last line holds.
@@ -128,6 +145,12 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       }
       // replace 'D' or 'd' with 'e'
       __for2cpp__(line);
+      // irnss: the second field of line #5 and the fourth of lines #5 and #6
+      // are spare, and may be blank
+      if (sys__ == SATELLITE_SYSTEM::irnss && ln == 4)
+        blank2zero(line, 1);
+      if (sys__ == SATELLITE_SYSTEM::irnss && (ln == 4 || ln == 5))
+        blank2zero(line, 3);
       // read 4 doubles into data__
       if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
         errno = 0;
@@ -148,6 +171,9 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
           return 6;
         }
       } else {
+        // the second field is spare for beidou, and may be blank
+        if (sys__ == SATELLITE_SYSTEM::beidou)
+          blank2zero(line, 1);
         if (!__char2double__<3, 19>(line + 4, data__ + 3 + ln * 4)) {
           errno = 0;
           return 6;
-- 
2.43.0


From 931c6959d4323fc99b7c3407412bf332b687d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 17/71] fix: nav RINEX: a senseless time of ephemeris aborted
 the program

---
 src/navrnx.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 0f9d188..f2c0436 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -202,14 +202,18 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // set ToE
-#ifdef DEBUG
-  // assert we don't have fractional seconds!
-  if (sys__ == SATELLITE_SYSTEM::glonass)
-    assert(std::abs(data__[2] - (int)data__[2]) < 1e-15);
+  // it must be a time of week (or at least close to one) in integral seconds,
+  // else it cannot be a date
+  if (sys__ == SATELLITE_SYSTEM::glonass) {
+    if (!(std::abs(data__[2]) < 1e7) || data__[2] != (int)data__[2])
+      return 9;
+  }
   if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::galileo ||
-      sys__ == SATELLITE_SYSTEM::beidou)
-    assert(std::abs(data__[11] - (int)data__[11]) < 1e-15);
-#endif
+      sys__ == SATELLITE_SYSTEM::beidou) {
+    if (!(std::abs(data__[11]) < 1e7) || data__[11] != (int)data__[11] ||
+        !(std::abs(data__[21]) < 1e5))
+      return 9;
+  }
   if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::glonass ||
       sys__ == SATELLITE_SYSTEM::galileo || sys__ == SATELLITE_SYSTEM::beidou) {
     toe__ = this->toe2date<ngpt::seconds>();
-- 
2.43.0


From 95c14ade869afd662332ba7ea11fa3ee651f5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 18/71] fix: GLONASS time of ephemeris was a week off if ToC
 and message frame time

are in different weeks (around midnight between Saturday and Sunday).
---
 src/navrnx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2a748e5..a1d78bd 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -527,6 +527,11 @@ private:
 #endif
     // days difference (if any)
     int offset = dw_toc - dw_toe;
+    // they are never far apart, but may lie in different weeks
+    if (offset > 3)
+      offset -= 7;
+    else if (offset < -3)
+      offset += 7;
     // seconds of day (for ToE)
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
-- 
2.43.0


From 1e98546c2290b35e0035afd1ff91c383f2e1ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 19/71] fix: nav RINEX: end of file without a newline, and
 rewinding after an error

The former returned an error (50) instead of EOF, the latter had no effect.
---
 src/navrnx.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f2c0436..8d63c21 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -303,7 +303,11 @@ int NavigationRnx::read_next_record(NavDataFrame &nav) noexcept {
 #endif
   int c;
   if ((c = __istream.peek()) != EOF) {
-    return nav.set_from_rnx3(__istream);
+    int status = nav.set_from_rnx3(__istream);
+    // a last line without a newline sets the eof bit; only peek will tell EOF
+    if (!status && __istream.eof())
+      __istream.clear();
+    return status;
   }
   if (__istream.eof())
     return clear_stream(-1);
@@ -344,6 +348,9 @@ int NavigationRnx::ignore_next_block() noexcept {
       return 2;
     }
   }
+  // a last line without a newline sets the eof bit; only peek will tell EOF
+  if (__istream.eof())
+    __istream.clear();
 
   return 0;
 }
@@ -379,6 +386,8 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 /// @details Set the nav RINEX stream to end of header, ready to restart
 ///          reading nav data blocks
 void NavigationRnx::rewind(pos_type pos) noexcept {
+  // else seekg has no effect after a failed read
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From 3e7dac65ab3b9f12bae0b5fe89b73056e99ab2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 20/71] fix: find_next_valid only compiled for epochs in
 milliseconds

---
 src/navrnx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index a1d78bd..65ee1c4 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -660,7 +660,7 @@ public:
         if ((status = this->read_next_record(frame)))
           return clear_stream(status);
         if (prn == frame.prn()) {
-          auto toc = frame.toc<milliseconds>();
+          auto toc = frame.toc<T>();
           // std::cout<<" found msg with ToC
           // "<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(toc); are we too far
           // ahead from the input date ??
-- 
2.43.0


From 4da513d9fe21a149d0f8671616d8e4ec14aa5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 21/71] fix: GLONASS state was computed for the next full
 minute (from ToE)

The last integration step was never shortened to end at the requested epoch.
---
 src/glonav.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glonav.cpp b/src/glonav.cpp
index 44614b0..c044e6c 100644
--- a/src/glonav.cpp
+++ b/src/glonav.cpp
@@ -320,7 +320,10 @@ int NavDataFrame::glo_ecef(double t_sec, double *state) const noexcept {
   std::copy(x, x + 6, yti);
   // Perform Runge-Kutta 4th
   // while (std::abs(ti-t_lim)>1e-9 && ++max_it<1500) {
-  while (h > 0 ? ti < t_lim : ti > t_lim && ++max_it < 1500) {
+  while ((h > 0 ? ti < t_lim : ti > t_lim) && ++max_it < 1500) {
+    // the last step must end at t_lim
+    if (std::abs(t_lim - ti) < std::abs(h))
+      h = t_lim - ti;
     // compute k1
     glo_state_deriv(yti, acc, k1);
     // compute k2
-- 
2.43.0


From 6e37ee113b6e8de7ddea743605d22f7f2638b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 22/71] fix: the relativistic clock correction needs the
 anomaly at t-ToE, not t-ToC

---
 src/navrnx.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 65ee1c4..83a64d7 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -412,7 +412,11 @@ private:
       double n0(
           std::sqrt(MI_SYS / (A * A * A))); //  Computed mean motion (rad/sec)
       double n(n0 + data__[5]);             //  Corrected mean motion
-      double Mk(data__[6] + n * dt);        //  Mean anomaly
+      // time from ToE (not ToC)
+      double tk = t_sec - toe__.sec().to_fractional_seconds() +
+                  86400e0 * (double)(toc__.mjd().as_underlying_type() -
+                                     toe__.mjd().as_underlying_type());
+      double Mk(data__[6] + n * tk); //  Mean anomaly
       double E(Mk);
       double e(data__[8]);
       int i;
-- 
2.43.0


From 65d3438afed42e842dec363631d21ae01bfbd67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 23/71] fix: positions of BeiDou geostationary satellites

Their orbits refer to another frame (BDS-SIS-ICD), and were off by thousands of km.
---
 src/navrnx.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 83a64d7..ae1be09 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -335,6 +335,26 @@ private:
     const double xk_dot(rk * std::cos(uk));
     const double yk_dot(rk * std::sin(uk));
 
+    // BeiDou geostationary satellites: the orbit is given in an inertial frame
+    // whose equator is inclined by -5 degrees, see BDS-SIS-ICD 5.2.4.12
+    if (S == SATELLITE_SYSTEM::beidou && (prn__ <= 5 || prn__ >= 59)) {
+      const double omega_g(data__[13] + data__[18] * tk -
+                           OMEGAE_SYS * data__[11]);
+      const double xg(xk_dot * std::cos(omega_g) -
+                      yk_dot * std::cos(ik) * std::sin(omega_g));
+      const double yg(xk_dot * std::sin(omega_g) +
+                      yk_dot * std::cos(ik) * std::cos(omega_g));
+      const double zg(yk_dot * std::sin(ik));
+      constexpr double R5(-5e0 * 3.14159265358979323846e0 / 180e0);
+      const double y5(yg * std::cos(R5) + zg * std::sin(R5));
+      const double sinw(std::sin(OMEGAE_SYS * tk));
+      const double cosw(std::cos(OMEGAE_SYS * tk));
+      state[0] = xg * cosw + y5 * sinw;
+      state[1] = -xg * sinw + y5 * cosw;
+      state[2] = -yg * std::sin(R5) + zg * std::cos(R5);
+      return status;
+    }
+
     // Corrected longitude of ascending node
     const double omega_k(data__[13] + (data__[18] - OMEGAE_SYS) * tk -
                          OMEGAE_SYS * data__[11]);
-- 
2.43.0


From c4b154bf785b18a9ef3274f3f0e0c457ad6fa9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 24/71] fix: find_next_valid threw out of a noexcept function
 for systems it cannot handle

---
 src/navrnx.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index ae1be09..dd50c0c 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -673,6 +673,10 @@ public:
     if (!__istream.good())
       return 50;
 #endif
+    // health and fit interval are only known for these systems
+    if (sys != SATELLITE_SYSTEM::gps && sys != SATELLITE_SYSTEM::glonass &&
+        sys != SATELLITE_SYSTEM::galileo && sys != SATELLITE_SYSTEM::beidou)
+      return 101;
     curpos = __istream.tellg();
     int status = 0, dummy_it = 0;
     SATELLITE_SYSTEM csys;
-- 
2.43.0


From 01d666e0f7a730093e75943a778c005ea1ffc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 25/71] fix: nav RINEX: searching never ended at a block of no
 particular system

---
 src/navrnx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 8d63c21..389f608 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -342,6 +342,9 @@ int NavigationRnx::ignore_next_block() noexcept {
   char line[MAX_RECORD_CHARS];
   int last_line_recs = 0;
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
+  // no message of such a system; nothing would be skipped
+  if (lines_in_block < 0)
+    return 1;
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
     if (!next_line(__istream, line)) {
-- 
2.43.0


From 7fe1b7f3f433be7a2b76cfabd415d6c115b0e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 26/71] fix: obs RINEX: the header record following the first
 line was ignored

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ef2740a..ae9c936 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -193,7 +193,6 @@ int ObservationRnx::read_header() noexcept {
   __istream.getline(line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
       __marker_name = ngpt::rtrim(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
@@ -253,6 +252,7 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
+    __istream.getline(line, MAX_HEADER_CHARS);
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
-- 
2.43.0


From 0d303d87be4fa2061b7b06e327375531800b4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 27/71] fix: obs RINEX: names were cut at the first blank,
 losing e.g. the radome

---
 src/obsrnx.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ae9c936..f06e415 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -10,6 +10,8 @@
 
 using ngpt::ObservationRnx;
 using ngpt::RawRnxObs__;
+// remove trailing blanks, but not what follows the first blank
+using rtrim_end = ngpt::str_algorithm_details::StrSearchPolicyEnd;
 
 /// No header line can have more than 80 chars. However, there are cases when
 /// they  exceed this limit, just a bit ...
@@ -194,17 +196,17 @@ int ObservationRnx::read_header() noexcept {
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
-      __marker_name = ngpt::rtrim(line, szt, 60);
+      __marker_name = ngpt::rtrim<rtrim_end>(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
                              std::strlen("MARKER NUMBER"))) {
-      __marker_number = ngpt::rtrim(line, szt, 20);
+      __marker_number = ngpt::rtrim<rtrim_end>(line, szt, 20);
     } else if (!std::strncmp(line + 60, "REC # / TYPE / VERS",
                              std::strlen("REC # / TYPE / VERS"))) {
-      __receiver_number = ngpt::rtrim(line, szt, 20);
-      __receiver_type = ngpt::rtrim(line + 20, szt, 20);
+      __receiver_number = ngpt::rtrim<rtrim_end>(line, szt, 20);
+      __receiver_type = ngpt::rtrim<rtrim_end>(line + 20, szt, 20);
     } else if (!std::strncmp(line + 60, "ANT # / TYPE",
                              std::strlen("ANT # / TYPE"))) {
-      ReceiverAntenna ant(ngpt::rtrim(line + 20, szt, 20));
+      ReceiverAntenna ant(ngpt::rtrim<rtrim_end>(line + 20, szt, 20));
       if (!ngpt::string_is_empty(line, 20))
         ant.set_serial_nr(line);
       __antenna = ant;
-- 
2.43.0


From 09b7fc9772ca2c4137ba760d6ab5a663e7d27a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 28/71] fix: obs RINEX: 13 (26, ...) observation types of a
 system swallowed the next line

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index f06e415..d1feebe 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -321,7 +321,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     }
     ++resolved;
     ++vecsz;
-    if (resolved == 13) {
+    if (resolved == 13 && vecsz < obsnum) {
       __istream.getline(line, MAX_HEADER_CHARS);
       if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
-- 
2.43.0


From 0155b624a380d43a1402afdf8b106d063cec75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 29/71] fix: obs RINEX: wrong test for an unreadable RCV CLOCK
 OFFS APPL

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index d1feebe..fb9d149 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -231,7 +231,7 @@ int ObservationRnx::read_header() noexcept {
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              std::strlen("RCV CLOCK OFFS APPL"))) {
       int i = std::strtol(line, &end, 10);
-      if ((errno || (line + 3) == end) || (i != 0 && i != 1)) {
+      if ((errno || line == end) || (i != 0 && i != 1)) {
         errno = 0;
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"RCV CLOCK OFFS APPL\"";
-- 
2.43.0


From 36308f50ed351e99d00a0eb0a102a47b9610a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 30/71] fix: obs RINEX: an unrelated errno made reading fail

---
 src/obsrnx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index fb9d149..f4267be 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -170,6 +170,9 @@ int ObservationRnx::read_header() noexcept {
   if (!__istream.is_open())
     return 1;
 
+  // errors are detected via errno; forget about previous, unrelated ones
+  errno = 0;
+
   // Go to the top of the file.
   __istream.seekg(0);
 
@@ -937,6 +940,8 @@ int ObservationRnx::read_next_epoch(
     int &sats, ngpt::modified_julian_day &mjd, double &secofday) noexcept {
   int c, j;
   sats = 0;
+  // errors are detected via errno; forget about previous, unrelated ones
+  errno = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
     __istream.getline(__buf, __buf_sz);
-- 
2.43.0


From 8bbf20aad47d6560864e11fa33a2c6cc98c8a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 31/71] fix: obs RINEX: LLI and SSI were read as further
 decimals of the observation; they were not set when it is blank

---
 src/obsrnx.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index f4267be..0da7855 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -56,17 +56,21 @@ constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 ///                any of the ints can be blank)
 int RawRnxObs__::resolve(char *str) noexcept {
   char *end;
+  __lli = (str[14] == ' ') ? (0) : (str[14] - '0');
+  __ssi = (str[15] == ' ') ? (0) : (str[15] - '0');
   if (string_is_empty(str, 14)) {
     __val = RNXOBS_MISSING_VAL;
     return 0;
   }
-  __val = std::strtod(str, &end);
-  if (errno || str == end) {
+  // only the first 14 columns; the indicators (digits) follow immediately
+  char val[15];
+  std::memcpy(val, str, 14);
+  val[14] = '\0';
+  __val = std::strtod(val, &end);
+  if (errno || val == end) {
     errno = 0;
     return 1;
   }
-  __lli = (str[14] == ' ') ? (0) : (str[14] - '0');
-  __ssi = (str[15] == ' ') ? (0) : (str[15] - '0');
 
   return 0;
 }
-- 
2.43.0


From dc57d8a4c23fa4b7741ebe27aeff2beb51a4d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 32/71] fix: obs RINEX: the last observation of a line without
 trailing blanks was missing

---
 src/obsrnx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 0da7855..16c4935 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -782,8 +782,10 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
-      if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf + idx, 16);
+      if (len > idx) { // else line ends before column of observable
+        // trailing blanks may be missing
+        std::memset(tbuf, ' ', 16);
+        std::memcpy(tbuf, __buf + idx, std::min(len - idx, std::size_t(16)));
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
-- 
2.43.0


From 11a627681d67bd870a0aee70e8e50b5946b17938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 33/71] fix: obs RINEX: combinations of a missing and further
 observations were not missing

---
 src/obsrnx.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 16c4935..738d653 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -780,6 +780,7 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
   std::size_t len = std::strlen(__buf);
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
+    bool missing = false;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
       if (len > idx) { // else line ends before column of observable
@@ -792,13 +793,13 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
           obsval += raw_obs.__val * pr.second;
         } else {
           --status;
-          obsval = RNXOBS_MISSING_VAL;
+          missing = true;
         }
       } else {
-        raw_obs.__val = obsval = RNXOBS_MISSING_VAL;
+        missing = true;
       }
     }
-    vals[k] = obsval;
+    vals[k] = missing ? RNXOBS_MISSING_VAL : obsval;
     ++k;
   }
 
-- 
2.43.0


From 2ef750a3d87c0e2a442303ca7b603e09ee40a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 34/71] fix: obs RINEX: buffer too small for epoch lines if
 there are few observation types

---
 src/obsrnx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 738d653..829a837 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -95,7 +95,8 @@ ObservationRnx::ObservationRnx(const char *filename)
         std::to_string(j));
   }
   std::size_t maxobs = this->max_obs();
-  __buf_sz = maxobs * 16 + 4;
+  // an epoch line or a header line must fit too
+  __buf_sz = std::max(maxobs * 16 + 4, std::size_t(MAX_HEADER_CHARS));
   __buf = new char[__buf_sz];
 }
 
-- 
2.43.0


From f3cf4e3508062ddedabdc77770d32987043b5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 35/71] fix: obs RINEX: a moved-from object deleted the buffer
 of the other one

---
 src/obsrnx.cpp | 24 ++++++++++--------------
 src/obsrnx.hpp |  3 ++-
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 829a837..1bb18c4 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -97,17 +97,13 @@ ObservationRnx::ObservationRnx(const char *filename)
   std::size_t maxobs = this->max_obs();
   // an epoch line or a header line must fit too
   __buf_sz = std::max(maxobs * 16 + 4, std::size_t(MAX_HEADER_CHARS));
-  __buf = new char[__buf_sz];
+  __buf.reset(new char[__buf_sz]);
 }
 
-/// Destructor; close the stream and delete the allocated buffer
+/// Destructor; close the stream (the buffer is deleted automatically)
 ObservationRnx::~ObservationRnx() noexcept {
   if (__istream.is_open())
     __istream.close();
-  if (__buf) {
-    __buf_sz = 0;
-    delete[] __buf;
-  }
 }
 
 /// Loop through the observables of every satellite system, and return the
@@ -771,14 +767,14 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 #endif
 
   std::memset(tbuf, '\0', 17);
-  std::memcpy(tbuf, __buf + 1, 2);
+  std::memcpy(tbuf, &__buf[1], 2);
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
     return 1;
 
   RawRnxObs__ raw_obs;
   int k = 0;
-  std::size_t len = std::strlen(__buf);
+  std::size_t len = std::strlen(__buf.get());
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
     bool missing = false;
@@ -787,7 +783,7 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
       if (len > idx) { // else line ends before column of observable
         // trailing blanks may be missing
         std::memset(tbuf, ' ', 16);
-        std::memcpy(tbuf, __buf + idx, std::min(len - idx, std::size_t(16)));
+        std::memcpy(tbuf, &__buf[idx], std::min(len - idx, std::size_t(16)));
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
@@ -871,13 +867,13 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf, __buf_sz);
+    __istream.getline(__buf.get(), __buf_sz);
     try {
-      s = char_to_satsys(*__buf);
+      s = char_to_satsys(__buf[0]);
     } catch (std::exception &e) {
       std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to "
                    "resolve Satellite System";
-      std::cerr << "\n        Line was: \"" << __buf << "\"";
+      std::cerr << "\n        Line was: \"" << __buf.get() << "\"";
       return 1;
     }
 
@@ -952,11 +948,11 @@ int ObservationRnx::read_next_epoch(
   errno = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf, __buf_sz);
+    __istream.getline(__buf.get(), __buf_sz);
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-    if ((j = __resolve_epoch_304__(__buf, mjd, secofday, flag, num_sats,
+    if ((j = __resolve_epoch_304__(__buf.get(), mjd, secofday, flag, num_sats,
                                    rcvr_coff)))
       return 20 + j;
     // resolve observation block
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 996437b..33ca637 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -8,6 +8,7 @@
 #include "satsys.hpp"
 #include <fstream>
 #include <map>
+#include <memory>
 #include <vector>
 #ifdef DEBUG
 #include "ggdatetime/datetime_write.hpp"
@@ -168,7 +169,7 @@ private:
   std::map<SATELLITE_SYSTEM, std::vector<ObservationCode>> __obstmap;
   ///< A char buffer which can hold an observation line
   ///< with maximum number of observables
-  char *__buf{nullptr};
+  std::unique_ptr<char[]> __buf;
   ///< Length of __buf, aka length of maximum observation
   ///< line in file (this->max_obs()*16+4)
   std::size_t __buf_sz{0};
-- 
2.43.0


From f669ab6a8a1a316c70ca538a607a886662edd4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 36/71] fix: obs RINEX: rewinding after an error had no effect

---
 src/obsrnx.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 33ca637..2f8be13 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -58,7 +58,11 @@ public:
       std::is_nothrow_move_assignable<std::ifstream>::value) = default;
 
   /// @brief Set the stream to end of header
-  void rewind() noexcept { __istream.seekg(__end_of_head); }
+  void rewind() noexcept {
+    // else seekg has no effect after a failed read
+    __istream.clear();
+    __istream.seekg(__end_of_head);
+  }
 
   /// @brief Max observables of any satellite system
   int max_obs() const noexcept;
-- 
2.43.0


From 111ab761ca9568f7802912f14de433c7546f9903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 37/71] fix: obs RINEX: the last epoch of a file without a
 final newline was reported as end of file

---
 src/obsrnx.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 1bb18c4..b29f8ff 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -958,6 +958,10 @@ int ObservationRnx::read_next_epoch(
     // resolve observation block
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
+    // a last line without a newline sets the eof bit; only peek will tell EOF
+    if (__istream.eof())
+      __istream.clear();
+    return 0;
   }
   if (__istream.eof()) {
     __istream.clear();
-- 
2.43.0


From 6e196ab868c5404aeadf693cacc7afdb91144e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 38/71] fix: obs RINEX: reading after a failure reported
 (empty) epochs for ever

---
 src/obsrnx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index b29f8ff..adf661c 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -967,7 +967,8 @@ int ObservationRnx::read_next_epoch(
     __istream.clear();
     return -1;
   }
-  return 0;
+  // the stream is in a failed state (e.g. a line was too long)
+  return 50;
 }
 
 /// This function will return a vector with a big enough size to read all epochs
-- 
2.43.0


From 786e17ab359ff70f9f4f1c71af088a3ba6c1333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 39/71] fix: obs RINEX: senseless systems and dates aborted the
 program

---
 src/obsrnx.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index adf661c..82855e3 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -253,7 +253,7 @@ int ObservationRnx::read_header() noexcept {
                              std::strlen("TIME OF FIRST OBS"))) {
       try {
         __epoch_start = ngpt::strptime_ymd_hms<ngpt::microseconds>(line);
-      } catch (std::invalid_argument &e) {
+      } catch (std::exception &e) { // unreadable or not a date
         std::cerr << "\n[ERROR] " << e.what();
         return 61;
       }
@@ -295,7 +295,14 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 
   char *end;
   std::vector<ngpt::ObservationCode> obsvec;
-  auto satsys = ngpt::char_to_satsys(line[0]);
+  SATELLITE_SYSTEM satsys;
+  try {
+    satsys = ngpt::char_to_satsys(line[0]);
+  } catch (std::exception &e) {
+    std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
+                 "field: \"SYS / # / OBS TYPES\"";
+    return 5;
+  }
   if (__obstmap.find(satsys) != __obstmap.end()) {
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
@@ -396,12 +403,12 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
     }
     start = ++end;
   }
-#ifdef DEBUG
-  day_of_month dom(dints[2]);
-  assert(dom.is_valid(year(dints[0]), month(dints[1])));
-#endif
-  mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
-                                  day_of_month(dints[2]));
+  try {
+    mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
+                                    day_of_month(dints[2]));
+  } catch (std::exception &) { // no such date
+    return 2;
+  }
 
   // resolve seconds of day
   double rsec = std::strtod(start, &end);
-- 
2.43.0


From 3290ae958d2ec00a2ff7b738b15fddd5a81e9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 40/71] fix: obs RINEX: short lines were completed with
 leftovers of previous ones

---
 src/obsrnx.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 82855e3..a2011d8 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -33,6 +33,14 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// @brief Read the next line; the part of the buffer that the line does not fill
+/// is set to '\0', so that nothing of a previous (longer) line is left.
+static std::istream &next_line(std::ifstream &fin, char *line,
+                               std::size_t size) noexcept {
+  std::memset(line, 0, size);
+  return fin.getline(line, size);
+}
+
 /// Resolve a RINEX observation using the relative string; this string, of type:
 /// (F14.3 I1 I1) is resolved as:
 /// F14.3 -> the actual value of the observation (if empty use the
@@ -179,7 +187,7 @@ int ObservationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line, MAX_HEADER_CHARS);
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -196,7 +204,7 @@ int ObservationRnx::read_header() noexcept {
   int dummy_it = 0;
   std::size_t szt;
   char *end;
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line(__istream, line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
@@ -258,7 +266,7 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line, MAX_HEADER_CHARS);
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
@@ -333,7 +341,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     ++resolved;
     ++vecsz;
     if (resolved == 13 && vecsz < obsnum) {
-      __istream.getline(line, MAX_HEADER_CHARS);
+      next_line(__istream, line, MAX_HEADER_CHARS);
       if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
@@ -874,7 +882,7 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf.get(), __buf_sz);
+    next_line(__istream, __buf.get(), __buf_sz);
     try {
       s = char_to_satsys(__buf[0]);
     } catch (std::exception &e) {
@@ -955,7 +963,7 @@ int ObservationRnx::read_next_epoch(
   errno = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf.get(), __buf_sz);
+    next_line(__istream, __buf.get(), __buf_sz);
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-- 
2.43.0


From d11f22eba4ef1697cb00c0c9932bbbe694a8db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 41/71] fix: obs RINEX: a blank, negative or too large number
 of satellites

---
 src/obsrnx.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index a2011d8..66482fc 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -409,6 +409,8 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
       errno = 0;
       return 2;
     }
+    if (!*end) // nothing follows
+      return 2;
     start = ++end;
   }
   try {
@@ -433,8 +435,9 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   flag = cline[31] - '0';
 
   // resolve num of satellites in epoch
-  num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || start == end) {
+  const char sats_str[] = {cline[32], cline[33], cline[34], '\0'};
+  num_sats = static_cast<int>(std::strtol(sats_str, &end, 10));
+  if (errno || sats_str == end || num_sats < 0) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -872,9 +875,8 @@ int ObservationRnx::collect_epoch(
       std::vector<std::pair<ngpt::Satellite, std::vector<double>>>::iterator;
 
   satscollected = 0;
-#ifdef DEBUG
-  assert(satobs.size() >= (std::size_t)numsats);
-#endif
+  if (satobs.size() < (std::size_t)numsats)
+    return 2;
   SATELLITE_SYSTEM s;
   int sat_it = 0, prn;
   OutputVecIt ovec_it = satobs.begin();
-- 
2.43.0


From b95a883a17e70614fe3da4ffe3607c98799ce3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 42/71] fix: obs RINEX: the records of special events were
 taken for satellites

---
 src/obsrnx.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 66482fc..d61543a 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -963,9 +963,22 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   // errors are detected via errno; forget about previous, unrelated ones
   errno = 0;
-  if ((c = __istream.peek()) != EOF) {
+  while ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
     next_line(__istream, __buf.get(), __buf_sz);
+    // special events (flags 2 to 6) are followed by header lines or cycle slip
+    // records, not by observations; ignore them (the epoch may be blank)
+    if (__buf[0] == '>' && __buf[31] > '1' && __buf[31] < '7') {
+      const char records_str[] = {__buf[32], __buf[33], __buf[34], '\0'};
+      int records = static_cast<int>(std::strtol(records_str, nullptr, 10));
+      for (; records > 0 && __istream; --records)
+        next_line(__istream, __buf.get(), __buf_sz);
+      if (!__istream)
+        return __istream.eof() ? 31 : 50;
+      if (__istream.eof())
+        __istream.clear();
+      continue;
+    }
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-- 
2.43.0


From 09bcf8bceb09f8b90afb3698d38fb455d94ffcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 43/71] fix: RINEX: rewinding a file that ends with the header
 (without a newline) failed

---
 src/navrnx.cpp | 5 ++++-
 src/obsrnx.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 389f608..4b5aa4f 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -283,7 +283,10 @@ int NavigationRnx::read_header() noexcept {
     return 20;
   }
 
-  // Mark the end of header
+  // Mark the end of header; if it is the last line (and has no newline) there
+  // is no position at eof
+  if (__istream.eof())
+    __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index d61543a..21bef92 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -273,7 +273,10 @@ int ObservationRnx::read_header() noexcept {
     return 20;
   }
 
-  // Mark the end of header
+  // Mark the end of header; if it is the last line (and has no newline) there
+  // is no position at eof
+  if (__istream.eof())
+    __istream.clear();
   __end_of_head = __istream.tellg();
 
   // All done !
-- 
2.43.0


From d3bd055c7231afb19443b20a1ab465bd4e285a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 44/71] fix: sp3: the orbit prediction flag is 'P' in column 80

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c239596..3d59c44 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -372,7 +372,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     flag.set(Sp3Event::clock_prediction);
   if (line[78] == 'M')
     flag.set(Sp3Event::maneuver);
-  if (line[79] == 'E')
+  if (line[79] == 'P')
     flag.set(Sp3Event::orbit_prediction);
 
   return 0;
-- 
2.43.0


From 62c80c84b7ff9073b01bd1c043520971df820c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 45/71] fix: sp3: the agency has four characters

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 3d59c44..391100e 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -103,7 +103,7 @@ int Sp3c::read_header() noexcept {
   }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
-  agency__ = std::string(line + 56, 3);
+  agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
-- 
2.43.0


From ea03ba46df7a6442038048b147c8d7dee3bd5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 46/71] fix: sp3: fractional seconds lost a microsecond

---
 src/sp3c.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 391100e..f0aae1a 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -2,6 +2,7 @@
 #include "ggdatetime/datetime_read.hpp"
 #include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -109,7 +110,7 @@ int Sp3c::read_header() noexcept {
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
       ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(static_cast<long>(sec * 1e6)));
+      ngpt::microseconds(std::lround(sec * 1e6)));
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
@@ -130,7 +131,7 @@ int Sp3c::read_header() noexcept {
     return 22;
   }
   sec = std::strtod(line + 24, &str_end);
-  interval__ = ngpt::microseconds(static_cast<long>(sec * 1e6));
+  interval__ = ngpt::microseconds(std::lround(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
     errno = 0;
@@ -276,7 +277,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   t = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
       ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(static_cast<long>(fsec * 1e6)));
+      ngpt::microseconds(std::lround(fsec * 1e6)));
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
-- 
2.43.0


From 90873ade73941e7e249b6d0ce32dabd7330fc65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 47/71] fix: sp3: start epochs were compared to the last bit of
 their different precision

---
 src/sp3c.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index f0aae1a..bbfbafa 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -126,7 +126,8 @@ int Sp3c::read_header() noexcept {
   // validate start epoch (#1)
   ngpt::microseconds sw;
   auto gwk1 = start_epoch__.as_gps_wsow(sw);
-  if (gwk1.as_underlying_type() != gwk || sw.to_fractional_seconds() != sec) {
+  if (gwk1.as_underlying_type() != gwk ||
+      !(std::abs(sw.to_fractional_seconds() - sec) <= 1e-6)) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 22;
   }
@@ -139,7 +140,7 @@ int Sp3c::read_header() noexcept {
   }
   sec = std::strtod(line + 45, &str_end);
   sec += mjd;
-  if (sec != start_epoch__.as_mjd()) {
+  if (!(std::abs(sec - start_epoch__.as_mjd()) <= 1e-10)) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 24;
   }
-- 
2.43.0


From cbe199997380b523d645aa07ddf7814d14f50885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 48/71] fix: sp3: read numbers from their columns, whatever
 errno happens to be

---
 src/sp3c.cpp | 127 ++++++++++++++++++++++++---------------------------
 1 file changed, 59 insertions(+), 68 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index bbfbafa..41b675d 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -20,6 +20,36 @@ constexpr int MAX_HEADER_LINES{1000};
 /// Max record characters (for a navigation data block)
 constexpr int MAX_RECORD_CHARS{128};
 
+/// Resolve the integer in columns [start, start+width) of a line, and nothing
+/// beyond them.
+/// @return true if there is one that fits an int
+static bool columns_to_num(const char *line, int start, int width, int &num) {
+  char buf[MAX_RECORD_CHARS] = {'\0'}, *end;
+  std::memcpy(buf, line + start, width);
+  errno = 0;
+  long l = std::strtol(buf, &end, 10);
+  bool ok = (end != buf && !errno && l >= std::numeric_limits<int>::min() &&
+             l <= std::numeric_limits<int>::max());
+  errno = 0;
+  if (ok)
+    num = static_cast<int>(l);
+  return ok;
+}
+
+/// Resolve the floating point number in columns [start, start+width) of a line
+static bool columns_to_num(const char *line, int start, int width,
+                           double &num) {
+  char buf[MAX_RECORD_CHARS] = {'\0'}, *end;
+  std::memcpy(buf, line + start, width);
+  errno = 0;
+  double d = std::strtod(buf, &end);
+  bool ok = (end != buf && !errno && std::isfinite(d));
+  errno = 0;
+  if (ok)
+    num = d;
+  return ok;
+}
+
 /// @details Sp3c constructor, using a filename. The constructor will
 ///          initialize (set) the _filename attribute and also (try to)
 ///          open the input stream (i.e. _istream).
@@ -52,7 +82,6 @@ void Sp3c::rewind(pos_type pos) noexcept {
 /// @return  Anything other than 0 denotes an error.
 int Sp3c::read_header() noexcept {
   char line[MAX_HEADER_CHARS];
-  char *str_end;
   int dummy_it = 0;
 
   // The stream should be open by now!
@@ -70,38 +99,23 @@ int Sp3c::read_header() noexcept {
   version__ = *(line + 1);
   if (version__ != 'c' && version__ != 'd')
     return 10;
-  int year = std::strtol(line + 3, &str_end, 10); // read year
-  if (!year || errno == ERANGE) {
-    errno = 0;
+  int year, month, dom, hour, minute;
+  double sec;
+  if (!columns_to_num(line, 3, 4, year) || !year) // read year
     return 11;
-  }
-  int month = std::strtol(line + 8, &str_end, 10); // read month
-  if (!month || errno == ERANGE) {
-    errno = 0;
+  if (!columns_to_num(line, 8, 2, month) || !month) // read month
     return 12;
-  }
-  int dom = std::strtol(line + 11, &str_end, 10); // read day of month
-  if (!dom || errno == ERANGE) {
-    errno = 0;
+  if (!columns_to_num(line, 11, 2, dom) || !dom) // read day of month
     return 13;
-  }
-  int hour = std::strtol(line + 14, &str_end, 10); // read hour of day
-  if (errno == ERANGE || str_end == line + 14) {
-    errno = 0;
+  if (!columns_to_num(line, 14, 2, hour)) // read hour of day
     return 14;
-  }
-  int minute = std::strtol(line + 17, &str_end, 10); // read hour of day
-  if (errno == ERANGE || str_end == line + 17) {
-    errno = 0;
+  if (!columns_to_num(line, 17, 2, minute)) // read minutes of hour
     return 15;
-  }
-  double sec = std::strtod(line + 20, &str_end); // read seconds
-
-  num_epochs__ = std::strtol(line + 32, &str_end, 10); // read number of epochs
-  if (!num_epochs__ || errno == ERANGE) {
-    errno = 0;
+  if (!columns_to_num(line, 20, 11, sec)) // read seconds
+    return 17;
+  // read number of epochs
+  if (!columns_to_num(line, 32, 7, num_epochs__) || !num_epochs__)
     return 16;
-  }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
   agency__ = std::string(line + 56, 4);
@@ -117,12 +131,11 @@ int Sp3c::read_header() noexcept {
   __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '#' || line[1] != '#')
     return 20;
-  int gwk = std::strtol(line + 3, &str_end, 10);
-  if (!gwk || errno == ERANGE) {
-    errno = 0;
+  int gwk;
+  if (!columns_to_num(line, 3, 4, gwk) || !gwk)
     return 21;
-  }
-  sec = std::strtod(line + 8, &str_end);
+  if (!columns_to_num(line, 8, 15, sec))
+    return 25;
   // validate start epoch (#1)
   ngpt::microseconds sw;
   auto gwk1 = start_epoch__.as_gps_wsow(sw);
@@ -131,14 +144,14 @@ int Sp3c::read_header() noexcept {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 22;
   }
-  sec = std::strtod(line + 24, &str_end);
+  if (!columns_to_num(line, 24, 14, sec))
+    return 26;
   interval__ = ngpt::microseconds(std::lround(sec * 1e6));
-  int mjd = std::strtol(line + 39, &str_end, 10);
-  if (!mjd || errno == ERANGE) {
-    errno = 0;
+  int mjd;
+  if (!columns_to_num(line, 39, 5, mjd) || !mjd)
     return 23;
-  }
-  sec = std::strtod(line + 45, &str_end);
+  if (!columns_to_num(line, 45, 15, sec))
+    return 27;
   sec += mjd;
   if (!(std::abs(sec - start_epoch__.as_mjd()) <= 1e-10)) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
@@ -153,11 +166,8 @@ int Sp3c::read_header() noexcept {
   __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '+' || line[1] != ' ')
     return 30;
-  num_sats__ = std::strtol(line + 3, &str_end, 10);
-  if (!num_sats__ || errno == ERANGE) {
-    errno = 0;
+  if (!columns_to_num(line, 3, 3, num_sats__) || num_sats__ <= 0)
     return 31;
-  }
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "+ ", 2)) {
     __istream.getline(line, MAX_HEADER_CHARS);
   }
@@ -246,7 +256,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
                          std::vector<Sp3EpochSvRecord> &vec,
                          int &sats_read) noexcept {
   char line[MAX_RECORD_CHARS];
-  char *end, *start, c;
+  char c;
   int date[5];
 
   if (!__istream.good())
@@ -255,25 +265,15 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
-  date[0] = std::strtol(line + 3, &end, 10);
-  if (!date[0] || errno == ERANGE) {
-    errno = 0;
+  if (!columns_to_num(line, 3, 4, date[0]) || !date[0])
     return 5;
-  }
-  start = line + 8;
   for (int i = 1; i < 5; i++) {
-    date[i] = std::strtol(start, &end, 10);
-    if (errno == ERANGE || end == start) {
-      errno = 0;
+    if (!columns_to_num(line, 5 + 3 * i, 2, date[i]))
       return 5 + i;
-    }
-    start += 3;
   }
-  double fsec = std::strtod(start, &end);
-  if (errno == ERANGE || end == start) {
-    errno = 0;
+  double fsec;
+  if (!columns_to_num(line, 20, 11, fsec))
     return 11;
-  }
 
   t = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
@@ -331,7 +331,6 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
                             std::array<double, 4> &state,
                             Sp3Flag &flag) noexcept {
-  char *end, *start;
   flag.reset();
 
   if (*line != 'P')
@@ -342,20 +341,12 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
   } catch (std::runtime_error &e) {
     return 3;
   }
-  prn = std::strtol(line + 2, &end, 10);
-  if (errno == ERANGE || end == line + 2) {
-    errno = 0;
+  if (!columns_to_num(line, 2, 2, prn))
     return 4;
-  }
 
-  start = line + 4;
   for (int i = 0; i < 4; i++) {
-    state[i] = std::strtod(start, &end);
-    if (errno == ERANGE || end == start) {
-      errno = 0;
+    if (!columns_to_num(line, 4 + 14 * i, 14, state[i]))
       return 5 + i;
-    }
-    start += 14;
   }
 
   state[0] *= 1e3;
-- 
2.43.0


From 725286988f94000a605aa975342a3cc66ed047c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 49/71] fix: sp3: short lines were completed with leftovers of
 previous ones

---
 src/sp3c.cpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 41b675d..d1fbebb 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -84,6 +84,12 @@ int Sp3c::read_header() noexcept {
   char line[MAX_HEADER_CHARS];
   int dummy_it = 0;
 
+  // read the next line; what is missing of a short one is blank
+  auto next_line = [&]() {
+    std::memset(line, 0, sizeof(line));
+    __istream.getline(line, MAX_HEADER_CHARS);
+  };
+
   // The stream should be open by now!
   if (!__istream.is_open())
     return 1;
@@ -93,7 +99,7 @@ int Sp3c::read_header() noexcept {
 
   // Read the first line. Error codes 10-19
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '#')
     return 10; // validate version
   version__ = *(line + 1);
@@ -128,7 +134,7 @@ int Sp3c::read_header() noexcept {
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '#' || line[1] != '#')
     return 20;
   int gwk;
@@ -163,13 +169,13 @@ int Sp3c::read_header() noexcept {
   // '++'
   // Error code [10,40]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '+' || line[1] != ' ')
     return 30;
   if (!columns_to_num(line, 3, 3, num_sats__) || num_sats__ <= 0)
     return 31;
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "+ ", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
   }
   if (dummy_it >= MAX_HEADER_LINES) {
     return 32;
@@ -179,11 +185,10 @@ int Sp3c::read_header() noexcept {
   // no max limitation for the Sp3d files. Each satellite id line starts with '+
   // ' Error code [40,50]
   // ------------------------------------------------------------
-  // __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '+' || line[1] != '+')
     return 40;
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "++", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     char c = __istream.peek();
     if (c != '+')
       break;
@@ -195,18 +200,18 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%c'; collect the system time
   // Error code [50,60]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '%' || line[1] != 'c')
     return 50;
   time_sys__ = std::string(line + 9, 3);
-  __istream.getline(line, MAX_HEADER_CHARS);
+  next_line();
   if (*line != '%' || line[1] != 'c')
     return 51;
 
   // two line follow, starting with '%f'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     if (*line != '%' || line[1] != 'f')
       return 60;
   }
@@ -214,7 +219,7 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%i'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     if (*line != '%' || line[1] != 'i')
       return 70;
   }
@@ -223,7 +228,7 @@ int Sp3c::read_header() noexcept {
   // ------------------------------------------------------------
   char c = __istream.peek();
   while (c == '/') {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line();
     if (line[1] != '*')
       return 80;
     c = __istream.peek();
@@ -259,9 +264,15 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   char c;
   int date[5];
 
+  // read the next line; what is missing of a short one is blank
+  auto next_line = [&]() {
+    std::memset(line, 0, sizeof(line));
+    __istream.getline(line, MAX_RECORD_CHARS);
+  };
+
   if (!__istream.good())
     return 1;
-  __istream.getline(line, MAX_RECORD_CHARS);
+  next_line();
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
@@ -297,7 +308,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   do {
     c = __istream.peek();
     if (c != '*') {
-      __istream.getline(line, MAX_RECORD_CHARS);
+      next_line();
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
-- 
2.43.0


From 48e6ff9a643b214d6838d0c2801e64a9310af3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 50/71] fix: sp3: a senseless date threw out of a noexcept
 function

---
 src/sp3c.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index d1fbebb..5636740 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -127,10 +127,17 @@ int Sp3c::read_header() noexcept {
   agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
-  start_epoch__ = ngpt::datetime<ngpt::microseconds>(
-      ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
-      ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(std::lround(sec * 1e6)));
+  if (hour < 0 || hour > 23 || minute < 0 || minute > 59 || sec < 0e0 ||
+      sec >= 60e0)
+    return 18;
+  try {
+    start_epoch__ = ngpt::datetime<ngpt::microseconds>(
+        ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
+        ngpt::hours(hour), ngpt::minutes(minute),
+        ngpt::microseconds(std::lround(sec * 1e6)));
+  } catch (std::exception &) {
+    return 18;
+  }
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
@@ -286,10 +293,17 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   if (!columns_to_num(line, 20, 11, fsec))
     return 11;
 
-  t = ngpt::datetime<ngpt::microseconds>(
-      ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
-      ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(std::lround(fsec * 1e6)));
+  if (date[3] < 0 || date[3] > 23 || date[4] < 0 || date[4] > 59 ||
+      fsec < 0e0 || fsec >= 60e0)
+    return 12;
+  try {
+    t = ngpt::datetime<ngpt::microseconds>(
+        ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
+        ngpt::hours(date[3]), ngpt::minutes(date[4]),
+        ngpt::microseconds(std::lround(fsec * 1e6)));
+  } catch (std::exception &) {
+    return 12;
+  }
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
-- 
2.43.0


From 9fd8d63bf654ce78f61c4ae967d7204209fc5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 51/71] fix: sp3: reading never ended if the 'EOF' line is
 missing

---
 src/sp3c.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 5636740..aaff226 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -323,7 +323,12 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
     c = __istream.peek();
     if (c != '*') {
       next_line();
-      if (*line == 'P') { /* position and clock line */
+      if (!__istream && !*line) { /* file ends without an 'EOF' line */
+        keep_reading = false;
+        j = -1;
+      } else if (!__istream) { /* line too long */
+        return 13;
+      } else if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
-- 
2.43.0


From 9032a1db0026b7592a297a89626108d020526fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 52/71] fix: sp3: an epoch of more satellites than announced
 was written past the vector

---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index aaff226..8ac5550 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -331,6 +331,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
       } else if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
+        if (it == vec.end()) /* more satellites than the header announces */
+          it = vec.emplace(vec.end());
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
         ++it;
       } else if (!std::strncmp(line, "EOF", 3)) { /* EOF */
-- 
2.43.0


From a9e46659e13520c04914a2beae3c38fb8576fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 53/71] fix: sp3: the number of satellites read was left unset
 on errors

---
 src/sp3c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 8ac5550..6bfe681 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -277,6 +277,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
     __istream.getline(line, MAX_RECORD_CHARS);
   };
 
+  sats_read = 0;
   if (!__istream.good())
     return 1;
   next_line();
-- 
2.43.0


From d21911e20910b0977154f2d8b3ee83c010dbc9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 54/71] fix: sp3: rewinding after the end of file had no effect

---
 src/sp3c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 6bfe681..3c91fba 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -69,6 +69,7 @@ Sp3c::Sp3c(const char *filename)
 }
 
 void Sp3c::rewind(pos_type pos) noexcept {
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From 60f635fb2d8a64659eb495b19842418f0ea15f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 55/71] fix: sp3: a header with a line too long was accepted
 but could not be passed

---
 src/sp3c.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 3c91fba..db28b88 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -244,7 +244,12 @@ int Sp3c::read_header() noexcept {
       return 81;
   }
 
+  // the stream should still be ok (e.g. no line is too long)
+  if (__istream.fail())
+    return 90;
+
   // Mark the end of header
+  __istream.clear(); // in case the file ends here
   __end_of_head = __istream.tellg();
 
   // All done !
-- 
2.43.0


From b7d8b40330f22da68bbf41aee536bca0ce351877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 56/71] fix: SATELLIT: no satellite was found any more after
 the end of file was reached

---
 src/bern_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 704763e..a4b9414 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -48,6 +48,7 @@ int ngpt::BernSatellit::get_frequency_channel(
     return 1;
 
   // Go to the top of the relevant field (in file)
+  __istream.clear();
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
-- 
2.43.0


From 5d4655934ca707cc8cf348c7c34eca3d1f7a67a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 57/71] fix: SATELLIT: an unrelated errno made a query fail

---
 src/bern_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index a4b9414..df2e70d 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -1,7 +1,10 @@
 #include "bern_utils.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
+#include <cerrno>
+#include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #ifdef DEBUG
 #include "ggdatetime/datetime_write.hpp"
@@ -62,6 +65,7 @@ int ngpt::BernSatellit::get_frequency_channel(
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
     if (line[5] == 'M' && line[6] == 'W') {
+      errno = 0;
       csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
       if (errno == ERANGE || end == line + 28) {
         errno = 0;
-- 
2.43.0


From 1d716edbdb9264a0c6c3ddc30d0005f53287be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 58/71] fix: SATELLIT: records behind one with a long list of
 signals were not found

---
 src/bern_utils.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index df2e70d..df416ec 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -59,7 +59,23 @@ int ngpt::BernSatellit::get_frequency_channel(
   char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
+
+  // read the next line; what is missing of a short one is zero. The list of
+  // signals (in the end of the lines) is open, there may be more characters
+  auto next_line = [&]() {
+    std::memset(line, 0, sizeof(line));
+    __istream.getline(line, MAX_SATELLIT_CHARS);
+    if (__istream.fail() && !__istream.eof() &&
+        __istream.gcount() == MAX_SATELLIT_CHARS - 1) {
+      __istream.clear();
+      __istream.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+    }
+  };
+
+  next_line();
+  // no records at all ?
+  if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
+    return -1;
   while (!satellite_matched && line_count < max_lines) {
     // we are only interested in satellites of type: 'MW' everything else
     // is desregarded and may cause a problem when resolving; e.g. SLR records
@@ -95,7 +111,7 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
-    __istream.getline(line, MAX_SATELLIT_CHARS);
+    next_line();
     ++line_count;
     // check for end of records
     if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
-- 
2.43.0


From a7e788123fb7c454d621d6dafd12a4968a1c87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 59/71] fix: SATELLIT: an unreadable date threw instead of
 returning an error

---
 src/bern_utils.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index df416ec..bc1fac7 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -88,13 +88,14 @@ int ngpt::BernSatellit::get_frequency_channel(
         return 2;
       }
       if (csvn == svn) {
-        start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
-        stop = ngpt::datetime<ngpt::seconds>::max();
-        for (int i = 62; i < 82; i++) {
-          if (line[i] != ' ') {
-            stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
-            break;
-          }
+        try {
+          const std::string from(line + 41, 20), to(line + 62, 20);
+          start = ngpt::strptime_ymd_hms<ngpt::seconds>(from.c_str());
+          stop = ngpt::datetime<ngpt::seconds>::max();
+          if (to.find_first_not_of(std::string(" \0", 2)) != std::string::npos)
+            stop = ngpt::strptime_ymd_hms<ngpt::seconds>(to.c_str());
+        } catch (std::exception &) {
+          return 4;
         }
         if (eph >= start && eph < stop) {
           satellite_matched = true;
-- 
2.43.0


From b7447eca2c2eb89db81909cec92e28e14868f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 60/71] fix: SATELLIT: a blank SVN was taken from the next
 column

---
 src/bern_utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index bc1fac7..562c2a9 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -82,8 +82,9 @@ int ngpt::BernSatellit::get_frequency_channel(
     // have no SVN field
     if (line[5] == 'M' && line[6] == 'W') {
       errno = 0;
-      csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
-      if (errno == ERANGE || end == line + 28) {
+      const std::string svn_str(line + 28, 5);
+      csvn = static_cast<int>(std::strtol(svn_str.c_str(), &end, 10));
+      if (errno == ERANGE || end == svn_str.c_str()) {
         errno = 0;
         return 2;
       }
-- 
2.43.0


From b12aaa766fe5837c77a9060fb64c5f8a8e886fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 61/71] fix: GnssObservable::frequency() does not end the
 program

The frequency of a part on a band its system does not have is an exception, but
the sum over the parts was noexcept, so that it could not be caught.
---
 src/gnssobsrv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnssobsrv.hpp b/src/gnssobsrv.hpp
index f6f37b9..6359782 100644
--- a/src/gnssobsrv.hpp
+++ b/src/gnssobsrv.hpp
@@ -125,7 +125,7 @@ public:
     __vec.emplace_back(sys, code, coef);
   }
 
-  double frequency() const noexcept {
+  double frequency() const {
     double frequency = 0e0;
     for (const auto &v : __vec)
       frequency += v.frequency();
-- 
2.43.0


From 6375c930c9b0aea415fef5b25686e3c8f1e73a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 62/71] fix: sp3py reads SP3-d files of any number of
 satellites

There are at least five lines of satellites and five of accuracies, and one for
any 17 satellites, the last one included; only the complete ones were counted,
and everything but files of less than 17 or of 85 satellites ended in an
assertion.
---
 var/sp3py.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/var/sp3py.py b/var/sp3py.py
index 92f71c0..14c2406 100755
--- a/var/sp3py.py
+++ b/var/sp3py.py
@@ -54,19 +54,10 @@ class Sp3:
     elif self.version == 'd':
       num_lines = 0
       with open(self.filename, "r") as fin:
-        ## read number of sats from line 3
         for i in range(0,3): line = fin.readline()
         num_lines += 3
-        num_sats = int(line[3:6])
-        ## each line holds 17 sats
-        for i in range(0,int(num_sats/17e0)):
-          line = fin.readline()
-          assert line[0] == '+'
-        num_lines += int(num_sats/17e0)
-        for i in range(0,int(num_sats/17e0)):
-          line = fin.readline()
-          assert line[0:2] == '++'
-        num_lines += int(num_sats/17e0)
+        ## the number of satellite and accuracy lines is open; up to the first
+        ## epoch, everything is header
         while line and line[0] != '*':
           line = fin.readline()
           num_lines+=1
-- 
2.43.0


From d54fa516f1c9f1fa6acde9b724cedd28d151ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 63/71] fix: sp3py reads SP3 files with epochs of no satellite

An epoch line right after another one, or before the end, was taken for a corrupt
record.
---
 var/sp3py.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/var/sp3py.py b/var/sp3py.py
index 14c2406..e2b8543 100755
--- a/var/sp3py.py
+++ b/var/sp3py.py
@@ -103,7 +103,8 @@ class Sp3:
     pos_dict = {}
     line = istream.readline()
     #print("resolving data line: \"{:}\"".format(line))
-    while line: 
+    while line:
+      if line[0]=='*' or line[0:3]=='EOF': return line, pos_dict
       if line[0] == 'P':
         sat, sat_dict = self.__resolve_pos_n_clock_line__(line)
         pos_dict[sat] = sat_dict
@@ -112,8 +113,6 @@ class Sp3:
       else:
         raise RuntimeError("[ERROR] Sp3 file has corrupt epoch data line")
       line = istream.readline()
-      if line and line[0]=='*': return line, pos_dict
-      if line and line[0:3] =='EOF': return line, pos_dict
     raise RuntimeError("[ERROR] could not find position data line in Sp3 file")
 
   def __resolve_pos_n_clock_line__(self, line):
-- 
2.43.0


From 58221bbf2b4f3b18e5171a0f8a21465d5432e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 64/71] fix: pasteoncol reads lines that end with a quoted word

There is no next column then that could close the quotes; the program ended with
an IndexError.
---
 var/pasteoncol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/pasteoncol.py b/var/pasteoncol.py
index f0cfd5a..ce433f1 100755
--- a/var/pasteoncol.py
+++ b/var/pasteoncol.py
@@ -16,7 +16,7 @@ def mysplit(line):
   lst = line.split()
   i=0
   while (i<len(lst)):
-    if (lst[i][0]=="\"" or lst[i][0]=="\'") and (lst[i+1][-1]=="\"" or lst[i+1][-1]=="\'"):
+    if i+1<len(lst) and (lst[i][0]=="\"" or lst[i][0]=="\'") and (lst[i+1][-1]=="\"" or lst[i+1][-1]=="\'"):
       nlst.append(' '.join([lst[i], lst[i+1]]))
       i+=2
     else:
-- 
2.43.0


From 2445b2f3c1ce12ef10d3948b348765ac7da5477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 65/71] fix: pasteoncol skips lines of blanks

They have no column to compare; the program ended with an IndexError.
---
 var/pasteoncol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/var/pasteoncol.py b/var/pasteoncol.py
index ce433f1..d5c441b 100755
--- a/var/pasteoncol.py
+++ b/var/pasteoncol.py
@@ -29,14 +29,14 @@ with open(sys.argv[1], 'r') as fin:
   for line in fin.readlines():
     if len(line)>1 and line[0]!='#':
       l=mysplit(line)
-      lines1.append(l)
+      if l: lines1.append(l)
 
 lines2 = []
 with open(sys.argv[2], 'r') as fin:
   for line in fin.readlines():
     if len(line)>1 and line[0]!='#':
       l=mysplit(line)
-      lines2.append(l)
+      if l: lines2.append(l)
 
 if len(lines1) > len(lines2):
   reflines = lines1
-- 
2.43.0


From 29b39cae9c85cc574e0eb322ed79415774ad7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 66/71] fix: an SP3 epoch line that is too long is an error,
 not the end of the file

---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index db28b88..70fae23 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -290,6 +290,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
+  if (__istream.fail()) /* line too long */
+    return 3;
   if (!columns_to_num(line, 3, 4, date[0]) || !date[0])
     return 5;
   for (int i = 1; i < 5; i++) {
-- 
2.43.0


From a0b9463917b9e281539b96ea44c6231cc5178177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:10 +0000
Subject: [PATCH 67/71] fix: a number in a RINEX navigation message must be all
 its columns hold

---
 src/navrnx.cpp  |  2 +-
 src/nvarstr.hpp | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 4b5aa4f..9fb47d3 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -121,7 +121,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // two columns, the epoch follows
   const char prn_str[] = {line[1], line[2], '\0'};
   prn__ = std::strtol(prn_str, &str_end, 10);
-  if (prn__ <= 0) {
+  if (prn__ <= 0 || !__only_blanks__(str_end)) {
     return 2;
   }
   // replace 'D' or 'd' with 'e' in remaining floats
diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index b19f16f..3809fba 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -1,6 +1,7 @@
 #ifndef __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 #define __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 
+#include <cctype>
 #include <cerrno>
 #include <cstdlib>
 #include <cstring>
@@ -76,6 +77,14 @@ std::string rtrim(const char *str, std::size_t &pos,
 std::string ltrim(const char *str, std::size_t &start,
                   std::size_t stop = -1) noexcept;
 
+/// @brief Check that nothing but whitespace is left of a c-string, e.g. past the
+/// number (strtol, strtod) its columns hold
+inline bool __only_blanks__(const char *str) noexcept {
+  while (std::isspace(static_cast<unsigned char>(*str)))
+    ++str;
+  return !*str;
+}
+
 /// @details Resolve a string of N doubles, written with M digits (i.e. in the
 ///          format N*DM.x as in RINEX 3.x) and asigne them to data[0,N).
 /// @param[in]  line  A c-string containing N doubles written with M digits
@@ -95,7 +104,7 @@ inline bool __char2double__(const char *line, double *data) noexcept {
     std::memcpy(field, line, len);
     field[len] = '\0';
     data[i] = std::strtod(field, &end);
-    if (field == end)
+    if (field == end || !__only_blanks__(end))
       return false;
     line += len;
   }
@@ -123,7 +132,7 @@ inline bool __char2double__(const char *line, double *data, int N) noexcept {
     std::memcpy(field, line, len);
     field[len] = '\0';
     data[i] = std::strtod(field, &end);
-    if (field == end)
+    if (field == end || !__only_blanks__(end))
       return false;
     line += len;
   }
-- 
2.43.0


From c537d3157c1d6c1fece986dcf35963b21ec46887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:10 +0000
Subject: [PATCH 68/71] fix: a RINEX observation must be all its columns hold

---
 src/obsrnx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 21bef92..82b72b8 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -75,7 +75,7 @@ int RawRnxObs__::resolve(char *str) noexcept {
   std::memcpy(val, str, 14);
   val[14] = '\0';
   __val = std::strtod(val, &end);
-  if (errno || val == end) {
+  if (errno || val == end || !__only_blanks__(end)) {
     errno = 0;
     return 1;
   }
@@ -440,7 +440,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   // resolve num of satellites in epoch
   const char sats_str[] = {cline[32], cline[33], cline[34], '\0'};
   num_sats = static_cast<int>(std::strtol(sats_str, &end, 10));
-  if (errno || sats_str == end || num_sats < 0) {
+  if (errno || sats_str == end || num_sats < 0 || !__only_blanks__(end)) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -790,7 +790,7 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
   std::memset(tbuf, '\0', 17);
   std::memcpy(tbuf, &__buf[1], 2);
   prn = std::strtol(tbuf, &end, 10);
-  if ((errno || tbuf == end) || (prn < 1 || prn > 99))
+  if ((errno || tbuf == end) || (prn < 1 || prn > 99) || !__only_blanks__(end))
     return 1;
 
   RawRnxObs__ raw_obs;
-- 
2.43.0


From 190706fd038acd338c71ba9c1c904c1dff21190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:10 +0000
Subject: [PATCH 69/71] fix: an SP3 number must be all its columns hold

---
 src/sp3c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 70fae23..355fa15 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -1,5 +1,6 @@
 #include "sp3c.hpp"
 #include "ggdatetime/datetime_read.hpp"
+#include "nvarstr.hpp"
 #include <algorithm>
 #include <cerrno>
 #include <cmath>
@@ -28,7 +29,8 @@ static bool columns_to_num(const char *line, int start, int width, int &num) {
   std::memcpy(buf, line + start, width);
   errno = 0;
   long l = std::strtol(buf, &end, 10);
-  bool ok = (end != buf && !errno && l >= std::numeric_limits<int>::min() &&
+  bool ok = (end != buf && ngpt::__only_blanks__(end) && !errno &&
+             l >= std::numeric_limits<int>::min() &&
              l <= std::numeric_limits<int>::max());
   errno = 0;
   if (ok)
@@ -43,7 +45,7 @@ static bool columns_to_num(const char *line, int start, int width,
   std::memcpy(buf, line + start, width);
   errno = 0;
   double d = std::strtod(buf, &end);
-  bool ok = (end != buf && !errno && std::isfinite(d));
+  bool ok = (end != buf && ngpt::__only_blanks__(end) && !errno && std::isfinite(d));
   errno = 0;
   if (ok)
     num = d;
-- 
2.43.0


From aec1a97e0efe48f4ffb71cad7da600a386e435c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:10 +0000
Subject: [PATCH 70/71] fix: an ANTEX number must be all its columns hold

---
 src/antex.cpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 2714eaa..00053b5 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -30,6 +30,25 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// Resolve an integer; nothing but blanks may follow it in the string.
+static int whole_int(const std::string &str) {
+  std::size_t pos;
+  int num = std::stoi(str, &pos);
+  if (!ngpt::__only_blanks__(str.c_str() + pos))
+    throw std::invalid_argument("[ERROR] Not an integer: \"" + str + "\"");
+  return num;
+}
+
+/// Resolve a floating point number; nothing but blanks may follow it in the
+/// string.
+static double whole_double(const std::string &str) {
+  std::size_t pos;
+  double num = std::stod(str, &pos);
+  if (!ngpt::__only_blanks__(str.c_str() + pos))
+    throw std::invalid_argument("[ERROR] Not a number: \"" + str + "\"");
+  return num;
+}
+
 /// Max grid line chars; i.e. the maximum number of chars any pcv line can
 /// hold. Typical 'ZEN1 / ZEN2 / DZEN' = '0.0  90.0   5.0' and the format is
 /// mF8.2 which is 19*8 = 152 + (~8 starting chars) = 160.
@@ -370,7 +389,7 @@ int resolve_satellite_antenna_line(const char *line, Satellite &sat) noexcept {
   if (line[20] != ' ') {
     try {
       sat.system() = ngpt::char_to_satsys(line[20]);
-      sat.prn() = std::stoi(std::string(line + 21, 5));
+      sat.prn() = whole_int(std::string(line + 21, 5));
     } catch (std::exception &) {
       return 5;
     }
@@ -390,7 +409,7 @@ int resolve_satellite_antenna_line(const char *line, Satellite &sat) noexcept {
     if (line[40] != line[20])
       return 10;
     try {
-      sat.svn() = std::stoi(std::string(line + 41, 5));
+      sat.svn() = whole_int(std::string(line + 41, 5));
     } catch (std::exception &e) {
       return 10;
     }
@@ -738,7 +757,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     return 4;
   } else {
     try {
-      num_of_freqs = std::stoi(std::string(hline, 6), nullptr);
+      num_of_freqs = whole_int(std::string(hline, 6));
     } catch (std::exception &e) {
       return 4;
     }
@@ -773,7 +792,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     // resolve satellite system and observation code
     try {
       ss = ngpt::char_to_satsys(hline[3]);
-      bn = std::stoi(std::string(hline + 4, 2));
+      bn = whole_int(std::string(hline + 4, 2));
     } catch (std::exception &) {
       return 6;
     }
@@ -784,11 +803,11 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       tmp[10] = '\0';
       try {
         std::memcpy(tmp, hline, 10);
-        dn = std::stod(tmp);
+        dn = whole_double(tmp);
         std::memcpy(tmp, hline + 10, 10);
-        de = std::stod(tmp);
+        de = whole_double(tmp);
         std::memcpy(tmp, hline + 20, 10);
-        du = std::stod(tmp);
+        du = whole_double(tmp);
       } catch (std::exception &) {
         return 8;
       }
-- 
2.43.0


From c40b7b5680ee3881d6500fdf64a52d345b991a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:43 +0000
Subject: [PATCH 71/71] fix: LagrangeSp3Interpolator compiles, and stays within
 the memory it has

---
 src/sp3c.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sp3c.hpp b/src/sp3c.hpp
index c3402c6..2502d95 100644
--- a/src/sp3c.hpp
+++ b/src/sp3c.hpp
@@ -137,10 +137,10 @@ public:
       : sp3_(&sp3),
         K((2 * SEC * 1000000L) / sp3_->interval().as_underlying_type() + 1),
         running_sv(0) {
-    svec_.reserve(sp3_->num_sats());
+    svec_.resize(sp3_->num_sats());
     for (int i = 0; i < sp3_->num_sats(); i++) {
       // svec_.emplace_back(std::vector<Sp3EpochSvRecord>(2*K, {}));
-      svec_[i] = std::vector<Sp3EpochSvRecord>{1, {}};
+      svec_[i] = std::vector<Sp3EpochSvRecord>(1);
       svec_[i].reserve(2 * K);
     }
     tvec_.reserve(2 * K);
@@ -148,7 +148,8 @@ public:
 
   int initialize() {
     sp3_->rewind();
-    int j, nsats, k = 0;
+    tvec_.clear();
+    int j = 0, nsats, k = 0;
     ngpt::datetime<ngpt::microseconds> t;
     auto vec = sp3_->allocate_epoch_vector();
     while (!j && k < K + 1) {
@@ -157,8 +158,10 @@ public:
         return j;
       tvec_.push_back(t);
       if (!k) {
+        if (nsats > static_cast<int>(svec_.size()))
+          svec_.resize(nsats);
         for (int i = 0; i < nsats; i++)
-          svec_[i][0] = vec[i];
+          svec_[i].assign(1, vec[i]);
         running_sv = nsats;
       } else {
         SATELLITE_SYSTEM s;
@@ -171,7 +174,9 @@ public:
                                    return e[0].s_ == s && e[0].prn_ == prn;
                                  });
           if (it == svec_.begin() + running_sv) {
-            svec_[running_sv][0] = vec[i];
+            if (it == svec_.end())
+              svec_.emplace_back();
+            svec_[running_sv].assign(1, vec[i]);
             ++running_sv;
           } else {
             it->emplace_back(vec[i]);
-- 
2.43.0

