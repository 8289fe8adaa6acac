// Stand-in for ggdatetime/datetime_write.hpp (see dtcalendar.hpp here).
#ifndef VP_SHIM_DATETIME_WRITE_HPP
#define VP_SHIM_DATETIME_WRITE_HPP
#include "ggdatetime/dtcalendar.hpp"

namespace ngpt {
template <typename T> std::string strftime_ymd(const datetime<T> &t, char delim = '/') {
  char b[64];
  auto c = t.as_ymd();
  std::snprintf(b, sizeof b, "%04d%c%02d%c%02d", c.__year.as_underlying_type(), delim,
                c.__month.as_underlying_type(), delim, c.__dom.as_underlying_type());
  return b;
}
template <typename T> std::string strftime_ymd_hms(const datetime<T> &t, char delim = '/') {
  char b[64];
  long s = t.sec().as_underlying_type();
  constexpr long F = T::template sec_factor<long>();
  long whole = s / F, fr = s % F;
  if (F == 1L)
    std::snprintf(b, sizeof b, " %02ld:%02ld:%02ld", whole / 3600, whole / 60 % 60, whole % 60);
  else
    std::snprintf(b, sizeof b, " %02ld:%02ld:%02ld.%0*ld", whole / 3600, whole / 60 % 60,
                  whole % 60, F == 1000L ? 3 : 6, fr);
  return strftime_ymd(t, delim) + b;
}
} // namespace ngpt
#endif
