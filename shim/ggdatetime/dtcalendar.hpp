// Stand-in for the (absent) ggdatetime library: just the part of its public API
// that ggnss and its tests use, with the documented ggdatetime semantics.  An
// epoch is an MJD plus an integral number of (milli-/micro-)seconds of day.
// Written for this verification framework; never installed into /repo.
#ifndef VP_SHIM_DTCALENDAR_HPP
#define VP_SHIM_DTCALENDAR_HPP

#include <array>
#include <cassert>
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>

namespace ngpt {

constexpr double mjd0_jd{2400000.5e0};
constexpr double j2000_jd{2451545.0e0};
constexpr double j2000_mjd{51544.5e0};
constexpr double days_in_julian_cent{36525e0};
constexpr double sec_per_day{86400.0e0};
constexpr long jan61980{44244L};
constexpr long jan11901{15385L};

namespace dt_details {
template <typename U, int Tag> class int_wrapper {
public:
  typedef U underlying_type;
  constexpr explicit int_wrapper(U u = 0) noexcept : v(u) {}
  constexpr U as_underlying_type() const noexcept { return v; }
  constexpr U assign(U u) noexcept { return v = u; }
  constexpr bool operator==(const int_wrapper &o) const noexcept { return v == o.v; }
  constexpr bool operator!=(const int_wrapper &o) const noexcept { return v != o.v; }
  constexpr bool operator<(const int_wrapper &o) const noexcept { return v < o.v; }
  constexpr bool operator<=(const int_wrapper &o) const noexcept { return v <= o.v; }
  constexpr bool operator>(const int_wrapper &o) const noexcept { return v > o.v; }
  constexpr bool operator>=(const int_wrapper &o) const noexcept { return v >= o.v; }

protected:
  U v;
};

inline bool is_leap(long y) noexcept {
  return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
inline int days_in_month(long y, int m) noexcept {
  constexpr int mtab[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return mtab[m - 1] + (m == 2 && is_leap(y));
}
/// Calendar date to MJD; throws std::out_of_range on an impossible date.
inline long cal2mjd(long y, int m, int d) {
  if (m < 1 || m > 12)
    throw std::out_of_range("ngpt::cal2mjd -> Invalid Month.");
  if (d < 1 || d > days_in_month(y, m))
    throw std::out_of_range("ngpt::cal2mjd -> Invalid Day of Month.");
  const long my = (m - 14L) / 12L;
  const long iypmy = y + my;
  return (1461L * (iypmy + 4800L)) / 4L +
         (367L * (static_cast<long>(m) - 2L - 12L * my)) / 12L -
         (3L * ((iypmy + 4900L) / 100L)) / 4L + static_cast<long>(d) - 2432076L;
}
} // namespace dt_details

class year : public dt_details::int_wrapper<int, 1> { public: using int_wrapper::int_wrapper; };
class month : public dt_details::int_wrapper<int, 2> {
public:
  constexpr explicit month(int m = 1) noexcept : int_wrapper(m) {}
  constexpr bool is_valid() const noexcept { return v >= 1 && v <= 12; }
};
class gps_week : public dt_details::int_wrapper<long, 3> { public: using int_wrapper::int_wrapper; };
class day_of_month : public dt_details::int_wrapper<int, 4> {
public:
  using int_wrapper::int_wrapper;
  bool is_valid(year y, month m) const noexcept {
    if (m.as_underlying_type() < 1 || m.as_underlying_type() > 12)
      return false;
    return v >= 1 &&
           v <= dt_details::days_in_month(y.as_underlying_type(), m.as_underlying_type());
  }
};
class day_of_year : public dt_details::int_wrapper<int, 5> { public: using int_wrapper::int_wrapper; };
class hours : public dt_details::int_wrapper<int, 6> { public: using int_wrapper::int_wrapper; };
class minutes : public dt_details::int_wrapper<int, 7> { public: using int_wrapper::int_wrapper; };

struct ymd_date;

class modified_julian_day : public dt_details::int_wrapper<long, 8> {
public:
  using int_wrapper::int_wrapper;
  explicit modified_julian_day(year y, month m, day_of_month d)
      : int_wrapper(dt_details::cal2mjd(y.as_underlying_type(), m.as_underlying_type(),
                                        d.as_underlying_type())) {}
  modified_julian_day operator+(const modified_julian_day &o) const noexcept {
    return modified_julian_day(v + o.v);
  }
  modified_julian_day operator-(const modified_julian_day &o) const noexcept {
    return modified_julian_day(v - o.v);
  }
  modified_julian_day &operator+=(const modified_julian_day &o) noexcept { v += o.v; return *this; }
  modified_julian_day &operator-=(const modified_julian_day &o) noexcept { v -= o.v; return *this; }
  modified_julian_day &operator++() noexcept { ++v; return *this; }
  modified_julian_day &operator--() noexcept { --v; return *this; }
  double to_julian_day() const noexcept { return static_cast<double>(v) + mjd0_jd; }
  ymd_date to_ymd() const noexcept;
};

struct ymd_date {
  year __year{0};
  month __month{1};
  day_of_month __dom{1};
};

inline ymd_date modified_julian_day::to_ymd() const noexcept {
  // Fliegel & van Flandern
  long jd = v + 2400001L;
  long l = jd + 68569L, n = (4L * l) / 146097L;
  l -= (146097L * n + 3L) / 4L;
  long i = (4000L * (l + 1L)) / 1461001L;
  l -= (1461L * i) / 4L - 31L;
  long k = (80L * l) / 2447L;
  int d = static_cast<int>(l - (2447L * k) / 80L);
  l = k / 11L;
  ymd_date r;
  r.__year = year(static_cast<int>(100L * (n - 49L) + i + l));
  r.__month = month(static_cast<int>(k + 2L - 12L * l));
  r.__dom = day_of_month(d);
  return r;
}

namespace dt_details {
/// seconds / milliseconds / microseconds share everything but the factor
template <long F> class sec_type {
public:
  typedef long underlying_type;
  static constexpr bool is_of_sec_type{true};
  static constexpr long max_in_day{86400L * F};
  template <typename T> static constexpr T sec_factor() noexcept { return static_cast<T>(F); }
  static constexpr double sec_ifactor() noexcept { return 1e0 / static_cast<double>(F); }

  explicit constexpr sec_type(long i = 0L) noexcept : v(i) {}
  explicit constexpr sec_type(hours h, minutes m, sec_type s) noexcept
      : v(s.v + (m.as_underlying_type() * 60L + h.as_underlying_type() * 3600L) * F) {}

  constexpr long as_underlying_type() const noexcept { return v; }
  constexpr long &__member_ref__() noexcept { return v; }
  constexpr double to_fractional_seconds() const noexcept {
    return static_cast<double>(v) / static_cast<double>(F);
  }
  constexpr double fractional_days() const noexcept {
    return static_cast<double>(v) / static_cast<double>(max_in_day);
  }
  constexpr bool more_than_day() const noexcept { return v > max_in_day; }
  int remove_days() noexcept {
    int d = 0;
    while (v >= max_in_day) { v -= max_in_day; ++d; }
    return d;
  }
  constexpr sec_type operator+(const sec_type &o) const noexcept { return sec_type(v + o.v); }
  constexpr sec_type operator-(const sec_type &o) const noexcept { return sec_type(v - o.v); }
  sec_type &operator+=(const sec_type &o) noexcept { v += o.v; return *this; }
  sec_type &operator-=(const sec_type &o) noexcept { v -= o.v; return *this; }
  constexpr sec_type operator/(const sec_type &o) const noexcept { return sec_type(v / o.v); }
  constexpr sec_type operator*(const sec_type &o) const noexcept { return sec_type(v * o.v); }
  constexpr bool operator==(const sec_type &o) const noexcept { return v == o.v; }
  constexpr bool operator!=(const sec_type &o) const noexcept { return v != o.v; }
  constexpr bool operator<(const sec_type &o) const noexcept { return v < o.v; }
  constexpr bool operator<=(const sec_type &o) const noexcept { return v <= o.v; }
  constexpr bool operator>(const sec_type &o) const noexcept { return v > o.v; }
  constexpr bool operator>=(const sec_type &o) const noexcept { return v >= o.v; }

private:
  long v;
};
} // namespace dt_details

class seconds : public dt_details::sec_type<1L> {
public:
  using dt_details::sec_type<1L>::sec_type;
  constexpr seconds(const dt_details::sec_type<1L> &s) noexcept : sec_type(s) {}
};
class milliseconds : public dt_details::sec_type<1000L> {
public:
  using dt_details::sec_type<1000L>::sec_type;
  constexpr milliseconds(const dt_details::sec_type<1000L> &s) noexcept : sec_type(s) {}
  explicit constexpr milliseconds(seconds s) noexcept : sec_type(s.as_underlying_type() * 1000L) {}
};
class microseconds : public dt_details::sec_type<1000000L> {
public:
  using dt_details::sec_type<1000000L>::sec_type;
  constexpr microseconds(const dt_details::sec_type<1000000L> &s) noexcept : sec_type(s) {}
  explicit constexpr microseconds(seconds s) noexcept
      : sec_type(s.as_underlying_type() * 1000000L) {}
  explicit constexpr microseconds(milliseconds s) noexcept
      : sec_type(s.as_underlying_type() * 1000L) {}
};

namespace dt_details {
template <typename Ssrc, typename Strg> constexpr Strg sec_cast(Ssrc s) noexcept {
  constexpr long fs = Ssrc::template sec_factor<long>();
  constexpr long ft = Strg::template sec_factor<long>();
  if constexpr (ft >= fs)
    return Strg(s.as_underlying_type() * (ft / fs));
  else
    return Strg(s.as_underlying_type() / (fs / ft));
}
} // namespace dt_details

/// Cast between second types; a cast to a coarser type truncates.
template <typename Ssrc, typename Strg> constexpr Strg cast_to(Ssrc s) noexcept {
  return dt_details::sec_cast<Ssrc, Strg>(s);
}

template <typename S> class datetime_interval;

template <typename S> class datetime {
public:
  static_assert(S::is_of_sec_type, "datetime needs a second type");
  typedef S sec_type;

  explicit constexpr datetime() noexcept : m_mjd(jan61980), m_sec(0L) {}
  static datetime max() noexcept {
    return datetime(modified_julian_day(std::numeric_limits<int>::max()), S(0L));
  }
  static datetime min() noexcept {
    return datetime(modified_julian_day(std::numeric_limits<int>::min()), S(0L));
  }
  explicit datetime(year y, month m, day_of_month d, S s = S(0L)) : m_mjd(y, m, d), m_sec(s) {
    normalize();
  }
  explicit datetime(year y, month m, day_of_month d, hours h, minutes mn, S s = S(0L))
      : m_mjd(y, m, d), m_sec(s) {
    m_sec += S((h.as_underlying_type() * 3600L + mn.as_underlying_type() * 60L) *
               S::template sec_factor<long>());
    normalize();
  }
  explicit datetime(modified_julian_day mjd, S s = S(0L)) noexcept : m_mjd(mjd), m_sec(s) {
    normalize();
  }
  explicit datetime(modified_julian_day mjd, hours h, minutes mn, S s = S(0L)) noexcept
      : m_mjd(mjd), m_sec(s) {
    m_sec += S((h.as_underlying_type() * 3600L + mn.as_underlying_type() * 60L) *
               S::template sec_factor<long>());
    normalize();
  }
  /// GPS week and seconds of (GPS) week
  explicit datetime(gps_week w, seconds sow) noexcept
      : m_mjd(w.as_underlying_type() * 7L + jan61980), m_sec(dt_details::sec_cast<seconds, S>(sow)) {
    normalize();
  }
  template <typename T, typename = std::enable_if_t<!std::is_same<T, seconds>::value &&
                                                    std::is_same<T, S>::value>>
  explicit datetime(gps_week w, T sow) noexcept
      : m_mjd(w.as_underlying_type() * 7L + jan61980), m_sec(sow) {
    normalize();
  }

  constexpr modified_julian_day mjd() const noexcept { return m_mjd; }
  modified_julian_day &mjd() noexcept { return m_mjd; }
  constexpr S sec() const noexcept { return m_sec; }
  S &sec() noexcept { return m_sec; }
  S sec_of_day() const noexcept { return m_sec; }

  double as_mjd() const noexcept {
    return static_cast<double>(m_mjd.as_underlying_type()) + m_sec.fractional_days();
  }
  double as_jd() const noexcept { return as_mjd() + mjd0_jd; }
  ymd_date as_ymd() const noexcept { return m_mjd.to_ymd(); }
  double as_fractional_seconds() const noexcept { return m_sec.to_fractional_seconds(); }

  /// GPS week, with the seconds of that week
  gps_week as_gps_wsow(S &sow) const noexcept {
    long d = m_mjd.as_underlying_type() - jan61980;
    long w = d / 7L;
    if (d % 7L < 0)
      --w;
    sow = S((d - w * 7L) * S::max_in_day + m_sec.as_underlying_type());
    return gps_week(w);
  }
  gps_week as_gps_wsow(long &sow) const noexcept {
    S s(0L);
    gps_week w = as_gps_wsow(s);
    sow = s.as_underlying_type();
    return w;
  }

  template <typename T> datetime<T> cast_to() const noexcept {
    return datetime<T>(m_mjd, dt_details::sec_cast<S, T>(m_sec));
  }

  template <typename T> void add_seconds(T s) noexcept {
    m_sec += dt_details::sec_cast<T, S>(s);
    normalize();
  }
  template <typename T> void remove_seconds(T s) noexcept {
    m_sec -= dt_details::sec_cast<T, S>(s);
    normalize();
  }
  template <typename T> datetime add(modified_julian_day d, T s = T(0L)) const noexcept {
    return datetime(m_mjd + d, m_sec + dt_details::sec_cast<T, S>(s));
  }

  constexpr bool operator==(const datetime &d) const noexcept {
    return m_mjd == d.m_mjd && m_sec == d.m_sec;
  }
  constexpr bool operator!=(const datetime &d) const noexcept { return !(*this == d); }
  constexpr bool operator<(const datetime &d) const noexcept {
    return m_mjd < d.m_mjd || (m_mjd == d.m_mjd && m_sec < d.m_sec);
  }
  constexpr bool operator<=(const datetime &d) const noexcept { return !(d < *this); }
  constexpr bool operator>(const datetime &d) const noexcept { return d < *this; }
  constexpr bool operator>=(const datetime &d) const noexcept { return !(*this < d); }

  datetime &operator+=(const datetime_interval<S> &i) noexcept;
  datetime &operator-=(const datetime_interval<S> &i) noexcept;
  datetime operator+(const datetime_interval<S> &i) const noexcept { datetime d(*this); d += i; return d; }
  datetime operator-(const datetime_interval<S> &i) const noexcept { datetime d(*this); d -= i; return d; }
  datetime_interval<S> delta_date(const datetime &d) const noexcept;

  void normalize() noexcept {
    long v = m_sec.as_underlying_type();
    if (v >= 0 && v < S::max_in_day)
      return;
    long days = v / S::max_in_day, r = v % S::max_in_day;
    if (r < 0) {
      r += S::max_in_day;
      --days;
    }
    m_mjd = modified_julian_day(m_mjd.as_underlying_type() + days);
    m_sec = S(r);
  }

private:
  modified_julian_day m_mjd;
  S m_sec;
};

template <typename S> class datetime_interval {
public:
  explicit constexpr datetime_interval() noexcept : m_days(0L), m_secs(0L) {}
  explicit constexpr datetime_interval(modified_julian_day d, S s) noexcept : m_days(d), m_secs(s) {}
  constexpr modified_julian_day days() const noexcept { return m_days; }
  constexpr S secs() const noexcept { return m_secs; }
  double as_mjd() const noexcept { return m_days.as_underlying_type() + m_secs.fractional_days(); }

private:
  modified_julian_day m_days;
  S m_secs;
};

template <typename S>
datetime<S> &datetime<S>::operator+=(const datetime_interval<S> &i) noexcept {
  m_mjd += i.days();
  m_sec += i.secs();
  normalize();
  return *this;
}
template <typename S>
datetime<S> &datetime<S>::operator-=(const datetime_interval<S> &i) noexcept {
  m_mjd -= i.days();
  m_sec -= i.secs();
  normalize();
  return *this;
}
template <typename S>
datetime_interval<S> datetime<S>::delta_date(const datetime<S> &d) const noexcept {
  long s = m_sec.as_underlying_type() - d.m_sec.as_underlying_type();
  long days = (m_mjd - d.m_mjd).as_underlying_type();
  if (s < 0 && days > 0) { s += S::max_in_day; --days; }
  return datetime_interval<S>(modified_julian_day(days), S(s));
}

/// (d1 - d2), in the units of S
template <typename S> S delta_sec(const datetime<S> &d1, const datetime<S> &d2) noexcept {
  return S((d1.mjd() - d2.mjd()).as_underlying_type() * S::max_in_day +
           (d1.sec() - d2.sec()).as_underlying_type());
}
template <typename S1, typename S2>
auto delta_sec(const datetime<S1> &d1, const datetime<S2> &d2) noexcept {
  if constexpr (S1::template sec_factor<long>() >= S2::template sec_factor<long>())
    return delta_sec(d1, d2.template cast_to<S1>());
  else
    return delta_sec(d1.template cast_to<S2>(), d2);
}

/// TAI - UTC at a given date, integral (for dates since 1972)
inline int dat(modified_julian_day mjd) noexcept {
  struct { long m; int l; } static constexpr t[] = {
      {41317, 10}, {41499, 11}, {41683, 12}, {42048, 13}, {42413, 14}, {42778, 15}, {43144, 16},
      {43509, 17}, {43874, 18}, {44239, 19}, {44786, 20}, {45151, 21}, {45516, 22}, {46247, 23},
      {47161, 24}, {47892, 25}, {48257, 26}, {48804, 27}, {49169, 28}, {49534, 29}, {50083, 30},
      {50630, 31}, {51179, 32}, {53736, 33}, {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
  int r = 0;
  for (const auto &e : t)
    if (mjd.as_underlying_type() >= e.m)
      r = e.l;
  return r;
}
inline int dat(year y, month m) { return dat(modified_julian_day(y, m, day_of_month(1))); }

} // namespace ngpt
#endif
