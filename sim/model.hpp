// Reference models, written from the public definitions and independent of the library's algorithms:
// proleptic Gregorian calendar (era arithmetic), time units, TAI-UTC history, month names.
#pragma once
#include <string>
#include "core.hpp"

inline i64 fdiv(i64 a, i64 b) { i64 q = a / b; return q - ((a % b != 0) && ((a < 0) != (b < 0))); }
inline i64 fmod_(i64 a, i64 b) { return a - fdiv(a, b) * b; }

inline bool m_leap(i64 y) { return fmod_(y, 4) == 0 && (fmod_(y, 100) != 0 || fmod_(y, 400) == 0); }
inline int m_mdays(i64 y, int m) {
  switch (m) {
    case 2: return m_leap(y) ? 29 : 28;
    case 4: case 6: case 9: case 11: return 30;
    default: return 31;
  }
}
// days since 1970-01-01 of a civil date, 400-year eras starting 1 March
inline i64 m_mjd(i64 y, int m, int d) {
  y -= m <= 2;
  i64 era = fdiv(y, 400);
  i64 yoe = y - era * 400;
  i64 doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  i64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468 + 40587;
}
struct Civil { i64 y; int m, d, doy; };
inline Civil m_civil(i64 mjd) {
  i64 z = mjd - 40587 + 719468;
  i64 era = fdiv(z, 146097);
  i64 doe = z - era * 146097;
  i64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  i64 y = yoe + era * 400;
  i64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  i64 mp = (5 * doy + 2) / 153;
  Civil c;
  c.d = (int)(doy - (153 * mp + 2) / 5 + 1);
  c.m = (int)(mp < 10 ? mp + 3 : mp - 9);
  c.y = y + (c.m <= 2);
  c.doy = (int)(mjd - m_mjd(c.y, 1, 1)) + 1;
  return c;
}

static const i64 FAC[3] = {1, 1000, 1000000};           // units per second
inline i64 UPD(int r) { return 86400LL * FAC[r]; }       // units per day

// Date of the first day with the new TAI-UTC, and the value (IERS Bulletin C history).
struct LeapEntry { int y, m, tai_utc; };
static const LeapEntry LEAPS[] = {
    {1972, 1, 10}, {1972, 7, 11}, {1973, 1, 12}, {1974, 1, 13}, {1975, 1, 14}, {1976, 1, 15}, {1977, 1, 16},
    {1978, 1, 17}, {1979, 1, 18}, {1980, 1, 19}, {1981, 7, 20}, {1982, 7, 21}, {1983, 7, 22}, {1985, 7, 23},
    {1988, 1, 24}, {1990, 1, 25}, {1991, 1, 26}, {1992, 7, 27}, {1993, 7, 28}, {1994, 7, 29}, {1996, 1, 30},
    {1997, 7, 31}, {1999, 1, 32}, {2006, 1, 33}, {2009, 1, 34}, {2012, 7, 35}, {2015, 7, 36}, {2017, 1, 37}};
inline int m_tai_utc(i64 mjd) {
  int v = 0;
  for (auto& e : LEAPS) if (mjd >= m_mjd(e.y, e.m, 1)) v = e.tai_utc;
  return v;
}

static const char* const M_LONG[12] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static const i64 MJD_LO = -678575;   // year 1, Jan 1
static const i64 MJD_HI = 2973483;   // year 9999, Dec 31
