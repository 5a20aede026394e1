// Clocks of any resolution, shared by the scenarios whose nodes carry ngpt::datetime clocks.
#pragma once
#include <variant>

#include "core.hpp"
#include "model.hpp"
#include "dtcalendar.hpp"
#include "dtfund.hpp"

using namespace ngpt;
typedef __int128 i128;

typedef std::variant<datetime<seconds>, datetime<milliseconds>, datetime<microseconds>> Clk;
template <int R> struct SecT;
template <> struct SecT<0> { typedef seconds type; };
template <> struct SecT<1> { typedef milliseconds type; };
template <> struct SecT<2> { typedef microseconds type; };
template <class S> constexpr int resof() { return S::max_in_day == 86400L ? 0 : S::max_in_day == 86400000L ? 1 : 2; }
template <class F> auto with_res(int r, F f) {
  if (r == 0) return f(seconds{});
  if (r == 1) return f(milliseconds{});
  return f(microseconds{});
}

static const char* RN[3] = {"s", "ms", "us"};
static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string str128(i128 v) {
  bool n = v < 0;
  unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
  std::string s;
  do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
  return (n ? "-" : "") + s;
}
template <class S> i128 total(const datetime<S>& d) {
  return (i128)d.mjd().as_underlying_type() * S::max_in_day + d.sec_as_i();
}
static i128 total(const Clk& c) { return std::visit([](auto& d) { return total(d); }, c); }
static std::string show(const Clk& c) {
  return std::visit([](auto& d) { return "(mjd " + std::to_string(d.mjd().as_underlying_type()) + ", " + std::to_string(d.sec_as_i()) + " " + RN[resof<typename std::decay_t<decltype(d)>::sec_type>()] + ")"; }, c);
}
