// Stand-in for ggdatetime/datetime_read.hpp (see dtcalendar.hpp here).
#ifndef VP_SHIM_DATETIME_READ_HPP
#define VP_SHIM_DATETIME_READ_HPP
#include "ggdatetime/dtcalendar.hpp"

namespace ngpt {
namespace dt_details {
inline bool read_ints(const char *&start, int *out, int n) noexcept {
  char *end;
  for (int i = 0; i < n; i++) {
    errno = 0;
    long v = std::strtol(start, &end, 10);
    if (start == end || errno == ERANGE || v > 1000000L || v < -1000000L) {
      errno = 0;
      return false;
    }
    v = std::labs(v);
    out[i] = static_cast<int>(v);
    start = end;
    if (*start) // one separator character, any
      ++start;
  }
  return true;
}
} // namespace dt_details

/// "YYYY-MM-DD" (any one-character, or blank, delimiters)
template <typename T> datetime<T> strptime_ymd(const char *str, char **stop = nullptr) {
  int i[3];
  const char *start = str;
  if (!dt_details::read_ints(start, i, 3))
    throw std::invalid_argument("Invalid date format: \"" + std::string(str) + "\"");
  if (stop)
    *stop = const_cast<char *>(start);
  return datetime<T>(year(i[0]), month(i[1]), day_of_month(i[2]), T(0L));
}

/// "YYYY-MM-DD HH:MM:SS.ssss" (any one-character, or blank, delimiters);
/// std::invalid_argument if a field cannot be read, std::out_of_range if the
/// calendar date does not exist. Sub-unit seconds are truncated.
template <typename T> datetime<T> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  int i[5];
  const char *start = str;
  if (!dt_details::read_ints(start, i, 5))
    throw std::invalid_argument("Invalid date format: \"" + std::string(str) + "\"");
  char *end;
  errno = 0;
  double secs = std::strtod(start, &end);
  if (start == end || errno == ERANGE || !(std::fabs(secs) < 1e9)) {
    errno = 0;
    throw std::invalid_argument("Invalid date format: \"" + std::string(str) + "\"");
  }
  if (stop)
    *stop = end;
  // guard against e.g. 29.9999999 * 1e6 being one unit short
  long isec = static_cast<long>(secs * T::template sec_factor<double>() + 1e-8);
  return datetime<T>(year(i[0]), month(i[1]), day_of_month(i[2]), hours(i[3]), minutes(i[4]),
                     T(isec));
}
} // namespace ngpt
#endif
