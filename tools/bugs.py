# ---------------------------------------------------------------- C01
bug("C01-borrow-once","C01",[(DT,"    S ssec = ngpt::cast_to<T, S>(sec);\n    m_sec -= ssec;\n    this->normalize();","    m_sec -= ngpt::cast_to<T, S>(sec);\n    // borrow from the date if needed\n    if (m_sec < S{0}) {\n      --m_mjd;\n      m_sec += S{S::max_in_day};\n    }")],
 "removing more than a day, or a negative amount that carries over midnight, in a coarser unit than the clock's own",
 "the time of day is left negative or at more than one day",'''
  datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{1000}};
  d.remove_seconds(seconds{2 * 86400L});
  CHECK(d.mjd() == modified_julian_day{56998} && d.sec_as_i() == 1000);
  d.remove_seconds(seconds{-86400L});
  CHECK(d.mjd() == modified_julian_day{56999} && d.sec_as_i() == 1000);
''')
bug("C01-exact-day-back","C01",[(DT,'''    m_mjd += secs / S::max_in_day;
    m_sec  = secs % S::max_in_day;
    // handle negative seconds
    // @todo SHIT i don't want a loop in here! how could i avoid that??
    while (m_sec < S{0}) {
      --m_mjd;
      m_sec = S{S::max_in_day} + m_sec;
    }''','''    // days to carry; for negative seconds one more has to be borrowed
    modified_julian_day::underlying_type days { secs / S::max_in_day };
    if (secs < 0) --days;
    m_mjd += days;
    m_sec  = secs - days * S::max_in_day;''')],
 "an adjustment that moves the clock back to exactly midnight by a negative whole number of days (seconds of day before normalising = -k*86400)",
 "the clock then shows 24:00 of the day before instead of 00:00",'''
  datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{3600000}};
  d.add_seconds(milliseconds{-3600000 - 86400000L});
  CHECK(d.mjd() == modified_julian_day{56999} && d.sec_as_i() == 0);
''')
bug("C01-finer-via-double","C01",[(DT,'''    sect -= sec;
''','''    sect -= T{static_cast<typename T::underlying_type>
              (sec.to_fractional_seconds() * T::template sec_factor<double>())};
''')],
 "removing a negative number of units finer than the clock whose value in seconds times 1e3/1e6 rounds below an integer",
 "a clock unit too few is removed although the amount was a whole number of clock units",'''
  long lost = 0;
  for (long k = 0; k < 86400000; k += 37) {
    datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{0}};
    d.remove_seconds(microseconds{-k * 1000});
    if (d.mjd() != modified_julian_day{57000} || d.sec_as_i() != k) ++lost;
  }
  CHECK(lost == 0);
''')
bug("C01-hours-int","C01",[(FU,'''    : m_sec { c.as_underlying_type()
            + m.as_underlying_type()*60L  * sec_factor<underlying_type>()
            + h.as_underlying_type()*3600L* sec_factor<underlying_type>()}''','''    : m_sec { c.as_underlying_type()
            + (h.as_underlying_type()*60 + m.as_underlying_type())
              * static_cast<int>(60L * sec_factor<underlying_type>())}''')],
 "a millisecond clock rebuilt from unnormalised parts with 597 hours or more",
 "int overflow: the clock is off by weeks",'''
  volatile int h = 700;
  datetime<milliseconds> d{modified_julian_day{57000}, hours{h}, minutes{3}, milliseconds{4}};
  CHECK(d.mjd() == modified_julian_day{57029} && d.sec_as_i() == 4L * 3600000 + 3 * 60000 + 4);
''')
bug("C01-coarse-int","C01",[(DT,'''    S ssec = ngpt::cast_to<T, S>(sec);
    m_sec += ssec;''','''    int nsec = sec.as_underlying_type();
    m_sec += ngpt::cast_to<T, S>(T{nsec});''')],
 "adding more than 2^31 seconds (or milliseconds) to a clock of finer resolution",
 "the amount is truncated to 32 bits",'''
  datetime<microseconds> d{modified_julian_day{40000}, microseconds{1}};
  d.add_seconds(milliseconds{86400000L * 30});
  CHECK(d.mjd() == modified_julian_day{40030} && d.sec_as_i() == 1);
''')
# ---------------------------------------------------------------- C02
bug("C02-doy-guess","C02",[(FC,"* 0.032;","* 0.0325;")],
 "converting day of year 31 to a calendar date","January 31 becomes February 0",'''
  for (int y : {2015, 2016}) for (int k = 1; k <= 365; ++k) {
    ydoy_date yd; yd.__year = year{y}; yd.__doy = day_of_year{k};
    auto d = yd.to_ymd();
    if (!d.is_valid() || cal2mjd(d.__year, d.__month, d.__dom) != ydoy2mjd(year{y}, day_of_year{k})) bad = 1;
  }
  CHECK(!bad);
''')
bug("C02-sow-round","C02",[(DT,'''    seconds sec {m_sec}; 
''','''    seconds sec { std::lround(m_sec.to_fractional_seconds()) };
''')],
 "GPS seconds of week read (as whole seconds) in the last half second of a Saturday, or any fraction of .5 s or more",
 "the seconds of week are rounded up, up to 604800",'''
  datetime<milliseconds> d{modified_julian_day{44244 + 7 * 2000 + 6}, milliseconds{86399700}};
  long sow = 0;
  gps_week w = d.as_gps_wsow(sow);
  CHECK(w == gps_week{2000} && sow == 604799);
''')
bug("C02-feb29","C02",[(FC,"long i = (4000L * (l + 1L)) / 1461001L;","long i = (400L * (l + 1L)) / 146100L;")],
 "reading the calendar date of 29 February of a leap year that is not a multiple of 400",
 "29 February is shown as another date (year rollover)",'''
  for (long m : {51603L, 53064L, 54525L, 55986L, 57447L, 58908L, 16539L}) {
    modified_julian_day j{m};
    auto d = j.to_ymd();
    CHECK(d.__month == month{2} && d.__dom == day_of_month{29});
  }
''')
bug("C02-century","C02",[(FC,"((iypmy + 4900L) / 100L)","((iypmy + 4899L) / 100L)")],
 "a calendar date between March of a century year and the following February",
 "the day number is one too large in that year (2000 hides it less often: 2000-03-01 to 2001-02-28)",'''
  CHECK(cal2mjd(year{1900}, month{6}, day_of_month{1}) == modified_julian_day{15171});
  CHECK(cal2mjd(year{2100}, month{3}, day_of_month{1}) == modified_julian_day{88128});
''')
bug("C02-leap400","C02",[(FC,"  int ly ( (im == 2) && is_leap(iy) );","  int ly ( (im == 2) && !(iy%4) && iy%100 );")],
 "29 February of a year divisible by 400","the (correct) calendar form of that day is reported as invalid",'''
  modified_julian_day j{51603};
  auto d = j.to_ymd();
  CHECK(d.__year == year{2000} && d.is_valid());
''')
bug("C02-frac-day","C02",[(FU,"    return static_cast<double>(m_sec) / static_cast<double>(max_in_day);","    return to_fractional_seconds() > 0e0 ? static_cast<double>(m_sec / 1000L) / static_cast<double>(max_in_day / 1000L) : 0e0;",1)],
 "fractional MJD of a microsecond clock whose time of day is not a whole number of milliseconds",
 "the fraction is truncated to milliseconds",'''
  datetime<microseconds> d{modified_julian_day{100}, microseconds{43200000999L}};
  double f = d.as_mjd();
  CHECK(std::abs((f - 100.5) * 86400e6 - 999) < 10);
''')
# ---------------------------------------------------------------- C03
bug("C03-compare-mjd","C03",[(DT,'''  { return m_mjd < d.m_mjd || (m_mjd == d.m_mjd && m_sec < d.m_sec); }''','''  { return this->as_mjd() < d.as_mjd(); }''')],
 "two timestamps a microsecond or so apart","operator< says neither is earlier, so a sorted history is not chronological",'''
  int wrong = 0;
  for (long k = 0; k < 1000; ++k) {
    datetime<microseconds> a{modified_julian_day{70000}, microseconds{43200000000L + k}}, b{modified_julian_day{70000}, microseconds{43200000001L + k}};
    if (!(a < b)) ++wrong;
  }
  CHECK(wrong == 0);
''')
bug("C03-span-int","C03",[(FU,"  return S {d.as_underlying_type() * S::max_in_day};","  int secs = d.as_underlying_type() * seconds::max_in_day;\n  return S {secs * S::template sec_factor<long>()};")],
 "the difference of timestamps more than 24855 days (68 years) apart","the elapsed time wraps at 2^31 seconds",'''
  datetime<seconds> a{modified_julian_day{30000}, seconds{1}};
  datetime<milliseconds> b{modified_julian_day{60000}, milliseconds{500}};
  CHECK(delta_sec(b, a) == milliseconds{30000 * 86400000L - 500});
  CHECK(delta_sec(a, b) == milliseconds{-30000 * 86400000L + 500});
''')
bug("C03-mixed-trunc","C03",[(DT,'''  S2 s1sec = ngpt::cast_to<S1, S2>(d1.sec());      // cast d1 secs to S2
''','''  S2 s1sec = ngpt::cast_to<S1, S2>(d1.sec());      // cast d1 secs to S2
  // truncate towards zero, as cast_to does
  if (s1sec < d2.sec() && diff < S2{0})
    s1sec += d2.sec() - ngpt::cast_to<S1, S2>(ngpt::cast_to<S2, S1>(d2.sec()));
'''),(DT,'''  S1 diff  = mjd_sec_diff<S1>(d1.mjd(), d2.mjd()); // days dif in S1''','''  S1 diff  = mjd_sec_diff<S1>(d1.mjd(), d2.mjd());''')],
 "the difference of a coarser and a finer timestamp of a later day and later time of day, the finer having a fraction",
 "the fraction is dropped",'''
  datetime<seconds> a{modified_julian_day{57000}, seconds{10}};
  datetime<milliseconds> b{modified_julian_day{57001}, milliseconds{20250}};
  CHECK(delta_sec(a, b) == milliseconds{-86400000 - 10250});
''')
# ---------------------------------------------------------------- C04
bug("C04-midnight","C04",[(DT,'''    m_sec += dt.sec();
    this->normalize();''','''    m_sec += dt.sec();
    if (m_sec > S{S::max_in_day}) this->normalize();''')],
 "an interval that brings the replica to exactly midnight","the replica shows 24:00 of the previous day and is not equal to its primary",'''
  datetime<seconds> a{modified_julian_day{57000}, seconds{86000}}, b{modified_julian_day{57001}, seconds{0}};
  a += b.delta_date(a);
  CHECK(a == b);
''')
bug("C04-interval-le","C04",[(DT,'''  { return m_days < d.m_days || (m_days == d.m_days && m_secs <= d.m_secs); }''','''  { return m_days <= d.m_days && m_secs <= d.m_secs; }''')],
 "comparing intervals with <= where the one with fewer days has more seconds","the shorter interval is not <= the longer one",'''
  datetime_interval<seconds> a{modified_julian_day{1}, seconds{80000}}, b{modified_julian_day{2}, seconds{10}};
  CHECK(a <= b); CHECK(!(b <= a));
''')
bug("C04-divide-int","C04",[(DT,'''    f = std::modf(d/div, &i);
''','''    f = std::modf(d/div, &i);
    const int day_part = static_cast<int>(f*S::max_in_day);
'''),(DT,"    d = d/div + f*S::max_in_day;","    d = d/div + day_part;")],
 "dividing a microsecond interval whose days leave a remainder","the fractional day overflows int",'''
  datetime_interval<microseconds> v{modified_julian_day{3}, microseconds{0}};
  auto q = v / 2;
  CHECK(q.days() == modified_julian_day{1} && std::labs(q.sec().as_underlying_type() - 43200000000L) <= 2);
''')
bug("C04-interval-exact","C04",[(DT,'''    m_days += secs / S::max_in_day;
    m_secs  = secs % S::max_in_day;
    // handle negative seconds
    // @todo SHIT i don't want a loop in here! how could i avoid that??
    if (m_secs < S{0}) {
      --m_days;
      m_secs = S{S::max_in_day} + m_secs;
    }''','''    m_days += secs / S::max_in_day;
    m_secs  = secs % S::max_in_day;
    if (secs < 0) {
      --m_days;
      m_secs += S::max_in_day;
    }''')],
 "an interval built with a negative whole number of days in its seconds part","the seconds part becomes one whole day, so equal intervals compare unequal",'''
  datetime_interval<seconds> a{modified_julian_day{5}, seconds{-2 * 86400}}, b{modified_julian_day{3}, seconds{0}};
  CHECK(a == b); CHECK(a.sec() == seconds{0});
''')
# ---------------------------------------------------------------- C05
bug("C05-cached-index","C05",[(DA,'''  int idx = NDAT-1;
  for (; idx >= 0; idx--) {
    if (m >= (12 * changes[idx].iyear + changes[idx].month)) break;
  }''','''  // (remember where we are in the table; consecutive queries are usually in
  // the same or in the next entry)
  static thread_local int idx { 0 };
  while (idx+1 < NDAT
      && m >= (12 * changes[idx+1].iyear + changes[idx+1].month)) ++idx;''')],
 "asking for an earlier month after a later one (a clock that is stepped back over a leap second)",
 "the later value is returned",'''
  CHECK(dat(year{1990}, month{6}) == 25);
  CHECK(dat(year{2017}, month{1}) == 37);
  CHECK(dat(year{1999}, month{1}) == 32);
''')
bug("C05-row","C05",[(DA,"{ 50083L, 30 }","{ 50082L, 30 }")],
 "31 December 1995","the leap second is applied one day early, and differs from the value by month",'''
  CHECK(dat(modified_julian_day{50082}) == 29);
  CHECK(dat(modified_julian_day{50083}) == 30);
  CHECK(dat(year{1995}, month{12}) == dat(modified_julian_day{50082}));
''')
bug("C05-round","C05",[(DT,"  return ngpt::dat(t.mjd());","  return ngpt::dat(modified_julian_day{static_cast<long>(t.as_mjd() + 1e-9)});")],
 "a finer than second clock in the last 86 microseconds before a leap second takes effect",
 "the offset of the next day is returned",'''
  datetime<microseconds> d{modified_julian_day{57753}, microseconds{86399999990L}};
  CHECK(dat(d) == 36);
''')
# ---------------------------------------------------------------- C06
bug("C06-carry","C06",[(WR,'''  double secs = std::get<2>(hmsf).as_underlying_type() + 
                std::get<3>(hmsf) / T::template sec_factor<double>();
''','''  double secs = std::get<2>(hmsf).as_underlying_type() + 
                std::get<3>(hmsf) / T::template sec_factor<double>();
  // do not let the seconds be rounded to 60
  if (secs >= 59.999995e0) {
    secs = 0e0;
    std::get<1>(hmsf) = minutes{(std::get<1>(hmsf).as_underlying_type()+1) % 60};
  }
''')],
 "strftime_ymd_hmfs of a microsecond timestamp in the last 5 microseconds of an hour","the text is an hour early",'''
  datetime<microseconds> d{modified_julian_day{57000}, microseconds{3600000000L - 3}};
  auto e = strptime_ymd_hms<microseconds>(strftime_ymd_hmfs(d).c_str());
  CHECK(std::labs((e.mjd().as_underlying_type() - 57000) * 86400000000L + e.sec_as_i() - d.sec_as_i()) <= 5);
''')
bug("C06-float","C06",[(WR,'''  double secs = std::get<2>(hmsf).as_underlying_type() + 
                std::get<3>(hmsf) / T::template sec_factor<double>();
''','''  float secs = std::get<2>(hmsf).as_underlying_type() + 
               std::get<3>(hmsf) / T::template sec_factor<float>();
''')],
 "strftime_ymd_hmfs of a microsecond timestamp whose seconds are close to the middle between two printable values",
 "the text is not the nearest 0.00001 s",'''
  long wrong = 0;
  for (long u = 50000000; u < 60000000; u += 7) {
    datetime<microseconds> d{modified_julian_day{57000}, microseconds{u}};
    std::string s = strftime_ymd_hmfs(d);
    long v = 0;
    for (char c : s.substr(s.rfind(':') + 1)) if (c != '.') v = v * 10 + (c - '0');
    if (std::labs(v * 10 - u) > 5) ++wrong;
  }
  CHECK(wrong == 0);
''')
bug("C06-stringify-digits","C06",[(DT,"    out << std::fixed << std::setprecision(9) ","    out << std::fixed << std::setprecision(5) ")],
 "stringify of a microsecond timestamp whose last digit is not zero","the debugging string no longer carries all digits",'''
  datetime<microseconds> d{modified_julian_day{57000}, microseconds{1234567}};
  CHECK(strptime_ymd_hms<microseconds>(d.stringify().c_str()) == d);
''')
bug("C06-float-minutes","C06",[(FU,"    long hr { m_sec/3600000L                  };  // hours\n    long mn { (m_sec%3600000L)/60000L         };  // minutes","    const double fhr = m_sec/3600000e0;\n    long hr { static_cast<long>(fhr)          };  // hours\n    long mn { static_cast<long>((fhr-hr)*60e0) };  // minutes")],
 "a millisecond timestamp at certain whole minutes, where (t/3600000 - hour)*60 falls just below an integer","the minutes are one too small: the text and the split name another instant",'''
  int wrong = 0;
  for (long m = 0; m < 1440; ++m) {
    datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{m * 60000L}};
    if (strptime_ymd_hms<milliseconds>(strftime_ymd_hms(d).c_str()) != d) ++wrong;
  }
  CHECK(wrong == 0);
''')
# ---------------------------------------------------------------- C07
bug("C07-noexcept-date","C07",[(FU,"cal2mjd(year, month, day_of_month);","cal2mjd(year, month, day_of_month) noexcept;"),(FC,"ngpt::cal2mjd(ngpt::year y, ngpt::month m, ngpt::day_of_month d)","ngpt::cal2mjd(ngpt::year y, ngpt::month m, ngpt::day_of_month d) noexcept")],
 "a record whose month or day was corrupted into one that does not exist","the process is terminated instead of an exception being thrown",'''
  try { strptime_ymd<seconds>("2015-19-30"); bad = 1; } catch (std::exception&) {}
''')
bug("C07-int-minutes","C07",[(FU,'''            + (m.as_underlying_type()*60L
            + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
  {};
  
''','''            + (m.as_underlying_type()*60
            + h.as_underlying_type()*3600) * sec_factor<underlying_type>() }
  {};
  
''')],
 "a corrupted record with an hour field of 596524 or more","signed integer overflow while reading",'''
  volatile long want = (600000L * 3600L) / 86400L;
  auto d = strptime_ymd_hms<microseconds>("2015-12-30 600000:00:00");
  CHECK(d.mjd().as_underlying_type() == 57386 + want);
''')
bug("C07-name-overread","C07",[(FC,"  } else if ( std::strlen(str) > 3 ) {\n","  } else if ( std::strlen(str) > 3 && std::strlen(str) <= 9 ) {\n    // no name has more than nine characters\n    char name[10] = {};\n    std::memcpy(name, str, 9);\n"),(FC,"if ( !__lower_strncmp__(long_names[i], str) ) {","if ( !__lower_strncmp__(long_names[i], name) ) {")],
 "a month name at the end of readable memory","bytes behind the terminator are read",'''
  // the name is the last thing before an inaccessible page
  char* base = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(base + 4096, 4096, PROT_NONE);
  for (const char* n : {"June", "July", "March", "APRIL"}) {
    char* p = base + 4096 - std::strlen(n) - 1;
    std::strcpy(p, n);
    month m{p};
    CHECK(m.is_valid());
  }
''')
bug("C07-normalise-day","C07",[(DT,'''  explicit
  datetime(year y, day_of_year d, hours hr, minutes mn, double fsecs) noexcept
    : m_mjd{ydoy2mjd(y, d)},
      m_sec{hr, mn, fsecs}
  {
    this->normalize();
  }''','''  explicit
  datetime(year y, day_of_year d, hours hr, minutes mn, double fsecs) noexcept
    : m_mjd{ydoy2mjd(y, d)},
      m_sec{hr, mn, fsecs}
  {
    if (hr.as_underlying_type() >= 24) this->normalize();
  }''')],
 "a day-of-year record with minutes of 60 or more (or negative or large seconds) that carry past midnight","the timestamp returned is not normalised",'''
  auto d = strptime_ydoy_hms<seconds>("2015-364 23:61:00");
  CHECK(d.sec_as_i() == 60 && d.mjd() == ydoy2mjd(year{2015}, day_of_year{365}));
''')
# ---------------------------------------------------------------- C08
bug("C08-month-tail","C08",[(FC,"  for (std::size_t i = 0; i < n; i++) ","  // no month name has more than nine letters\n  if (n > 9) n = 9;\n  for (std::size_t i = 0; i < n; i++) ")],
 "the name September followed by other characters (a torn or spliced record)","the unknown name is taken for the month",'''
  try { month m{"Septembers"}; CHECK(!"Septembers accepted"); } catch (std::invalid_argument&) {}
  CHECK(month{"september"} == month{9});
''')
bug("C08-doy366","C08",[(FU,"m_doy > 0 && m_doy < (365 + y.is_leap() + 1)","m_doy > 0 && m_doy <= 365 + !(y.as_underlying_type() % 4)")],
 "day of year 366 of a common century year","the record is read as 1 January of the next year",'''
  try { strptime_ydoy<seconds>("2100-366"); CHECK(!"2100-366 accepted"); } catch (std::invalid_argument&) {}
  CHECK(strptime_ydoy<seconds>("2016-366").mjd() == modified_julian_day{57753});
''')
bug("C08-nov31","C08",[(FC,'''  // Month lengths in days
  constexpr int mtab[] =  {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};

  // Validate month''','''  // Month lengths in days
  constexpr int mtab[] =  {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 31, 31};

  // Validate month''')],
 "31 November","the impossible date is read as 1 December",'''
  try { strptime_ymd_hms<seconds>("2015-11-31 00:00:00"); CHECK(!"31 November accepted"); } catch (std::exception&) {}
''')
bug("C08-leap100","C08",[(FC,"  int ly = ((im == 2) && !(iy%4) && (iy%100 || !(iy%400)));","  int ly = ((im == 2) && !(iy%4));")],
 "29 February of a century year that is no leap year","the impossible date is read as 1 March",'''
  try { strptime_ymd<seconds>("1900-02-29"); CHECK(!"1900-02-29 accepted"); } catch (std::exception&) {}
  CHECK(strptime_ymd<seconds>("2000-02-29").mjd() == modified_julian_day{51603});
''')
# ---------------------------------------------------------------- C09
bug("C09-stop-ymd","C09",[(RD,"  if (stop) *stop = end - 1;","  if (stop) *stop = const_cast<char*>(start);",0)],
 "a date record that is followed by further text","the stop position is behind the delimiter, so a consumer loses it",'''
  char* stop = nullptr;
  const char* s = "2015-12-30;2016-01-02;";
  strptime_ymd<seconds>(s, &stop);
  CHECK(stop == s + 9 || stop == s + 10);
''')
bug("C09-stop-seconds","C09",[(RD,'''  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''','''  if (stop) *stop = const_cast<char*>(start);
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''')],
 "a day-of-year record with two-digit seconds","the stop position is in front of the seconds, so they are read again",'''
  char* stop = nullptr;
  const char* s = "2015-012 10:20:30.5 next";
  strptime_ydoy_hms<milliseconds>(s, &stop);
  CHECK(stop == s + 18 || stop == s + 19);
''')
bug("C09-zone","C09",[(RD,'''  if (stop) *stop = end;

  return datetime<T> {year{ints[0]},
    mnt,''','''  // a trailing 'Z' (UTC) belongs to the date
  if (*end == 'Z') ++end;
  if (stop) *stop = *end ? end : end - 1;

  return datetime<T> {year{ints[0]},
    mnt,''')],
 "a record with a month name directly followed by the letter Z and more text","the stop position is one character behind the interpreted text",'''
  char* stop = nullptr;
  const char* s = "2015-Dec-30 10:20:30.5Zebra";
  strptime_yod_hms<milliseconds>(s, &stop);
  CHECK(stop == s + 21 || stop == s + 22);
''')
# ---------------------------------------------------------------- C10
bug("C10-turkish","C10",[(FC,"if ( !__lower_strncmp__(long_names[i], str) ) {","if ( !strcasecmp(long_names[i], str) ) {"),(FC,"#include <cassert>","#include <cassert>\n#include <strings.h>")],
 "the process (or thread) uses a Turkish single-byte locale and reads a name with an I in the other case","APRIL is not recognised",'''
  setlocale(LC_ALL, "tr_TR.ISO-8859-9");
  try { month m{"APRIL"}; CHECK(m == month{4}); } catch (std::exception&) { CHECK(!"APRIL rejected"); }
''',pre='mkdir -p "$t/loc" && localedef -i tr_TR -f ISO-8859-9 "$t/loc/tr_TR.ISO-8859-9" >/dev/null 2>&1; export LOCPATH="$t/loc"\n')
bug("C10-locale-left","C10",[(RD,'''  char *end;
  const char* start = str;
  int ints[4];
  double secs;
''','''  char *end;
  const char* start = str;
  int ints[4];
  double secs;
  // numbers are always in the "C" format, whatever the user's locale is
  const std::string lc { std::setlocale(LC_NUMERIC, nullptr) };
  std::setlocale(LC_NUMERIC, "C");
'''),(RD,'''  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''','''  std::setlocale(LC_NUMERIC, lc.c_str());
  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},'''),(RD,"#include <stdexcept>","#include <stdexcept>\n#include <clocale>")],
 "a rejected record read while the process has another locale","the reader leaves the process in the C locale",'''
  if (!setlocale(LC_ALL, "de_DE.UTF-8")) { std::puts("no locale"); return 0; }
  try { strptime_ydoy_hms<seconds>("2015-367 00:00:00"); } catch (std::exception&) {}
  CHECK(!std::strcmp(setlocale(LC_NUMERIC, nullptr), "de_DE.UTF-8"));
''',pre='mkdir -p "$t/loc" && localedef -i de_DE -f UTF-8 "$t/loc/de_DE.UTF-8" >/dev/null 2>&1; export LOCPATH="$t/loc"\n')
# ---------------------------------------------------------------- C11
bug("C11-printf","C11",[(WR,"  stream << std::fixed << std::setprecision(n) << d;","  char buf[64];\n  std::snprintf(buf, sizeof buf, \"%.*f\", n, d);\n  stream << buf;"),(WR,"#include <iomanip>","#include <iomanip>\n#include <cstdio>")],
 "formatting fractional seconds while the C locale has a decimal comma","the text has a comma",'''
  datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{1500}};
  std::string a = strftime_ymd_hmfs(d);
  if (!setlocale(LC_ALL, "de_DE.UTF-8")) { std::puts("no locale"); return 0; }
  CHECK(strftime_ymd_hmfs(d) == a);
''',pre='mkdir -p "$t/loc" && localedef -i de_DE -f UTF-8 "$t/loc/de_DE.UTF-8" >/dev/null 2>&1; export LOCPATH="$t/loc"\n')
bug("C11-static-stream","C11",[(WR,'''  std::stringstream stream;
  stream.imbue(std::locale::classic());
  stream << std::setfill('0') << std::setw(w) << i;''','''  // building a stream is expensive; keep one (per thread)
  static thread_local std::ostringstream stream;
  stream.str(std::string{});
  stream << std::setfill('0') << std::setw(w) << i;''')],
 "a global C++ locale with digit grouping in force when a thread formats its first timestamp","years are written with a thousands separator from then on",'''
  struct G : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\\3"; } };
  datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{1500}};
  std::locale::global(std::locale(std::locale::classic(), new G));
  std::string a = strftime_ymd_hms(d);
  std::locale::global(std::locale::classic());
  CHECK(a.substr(0, 5) == "2014-"); CHECK(strftime_ymd_hms(d) == a);
''')
# ---------------------------------------------------------------- C12
OOM='''
static long countdown = -1;
void* operator new(std::size_t n) { if (countdown >= 0 && countdown-- == 0) { countdown = -1; throw std::bad_alloc(); } void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
'''
bug("C12-noexcept","C12",[(WR,"  strftime_ymd_hmfs(const datetime<T>& t, char del='-')","  strftime_ymd_hmfs(const datetime<T>& t, char del='-') noexcept")],
 "an allocation that fails while a timestamp is formatted with fractional seconds","the process is terminated",OOM+'''
int main() {
  datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{1500}};
  std::string want = strftime_ymd_hmfs(d);
  for (int k = 0; k < 6; ++k) {
    countdown = k;
    try { std::string s = strftime_ymd_hmfs(d); countdown = -1; CHECK(s == want); } catch (std::bad_alloc&) {}
    countdown = -1;
  }
  return bad;
}
''')
bug("C12-swallow","C12",[(DT,'''    return std::string {
                 std::to_string( ymd.__year.as_underlying_type() )
         + "/" + std::to_string( ymd.__month.as_underlying_type() )
         + "/" + std::to_string( ymd.__dom.as_underlying_type() )
         + " " + std::to_string( std::get<0>(hms).as_underlying_type() )
         + ":" + std::to_string( std::get<1>(hms).as_underlying_type() )''','''    std::string text { std::to_string( ymd.__year.as_underlying_type() ) };
    try {
      text.reserve(64);
    } catch (...) {
      return text; // no memory for more
    }
    return std::string { text
         + "/" + std::to_string( ymd.__month.as_underlying_type() )
         + "/" + std::to_string( ymd.__dom.as_underlying_type() )
         + " " + std::to_string( std::get<0>(hms).as_underlying_type() )
         + ":" + std::to_string( std::get<1>(hms).as_underlying_type() )''')],
 "an allocation that fails while the debugging string is built","only the year is returned",OOM+'''
int main() {
  datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{1500}};
  std::string want = d.stringify();
  for (int k = 0; k < 6; ++k) {
    countdown = k;
    try { std::string s = d.stringify(); countdown = -1; CHECK(s == want); } catch (std::bad_alloc&) {}
    countdown = -1;
  }
  return bad;
}
''')
bug("C12-leak","C12",[(RD,'''  char month_str[4];
  month_str[3] = '\\0';''','''  char* month_str = new char[4]();'''),(RD,"  month mnt {month_str};","  month mnt {month_str};\n  delete[] month_str;")],
 "a record with an unknown month name, or memory running out while its error text is built","four bytes are lost on every such rejection",r'''
static long live;
void* operator new(std::size_t n) { ++live; void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
void operator delete[](void* p) noexcept { if (p) --live; std::free(p); }
int main() {
  for (int i = 0; i < 3; ++i) {
    long l0 = live;
    try { strptime_yod_hms<seconds>("2015-Foo-01 00:00:00"); } catch (std::exception&) {}
    CHECK(live == l0);
  }
  return bad;
}
''')
# ---------------------------------------------------------------- C13
TH='''
#include <thread>
#include <vector>
#include <atomic>
template <class F> static void par(F f) {
  std::atomic<int> go{0};
  std::vector<std::thread> v;
  for (int i = 0; i < 4; ++i) v.emplace_back([&, i] { ++go; while (go < 4) {} f(i); });
  for (auto& t : v) t.join();
}
'''
bug("C13-static-parts","C13",[(RD,'''  const char* start = str;
  int ints[3];
''','''  const char* start = str;
  static int ints[3];
''')],
 "two threads that read a date at the same time","one thread gets the other's fields",TH+'''
int main() {
  std::atomic<long> wrong{0};
  par([&](int i) {
    std::string s = std::to_string(1990 + i) + "-" + std::to_string(i + 3) + "-" + std::to_string(10 + i);
    auto want = modified_julian_day{year{1990 + i}, month{i + 3}, day_of_month{10 + i}};
    for (int k = 0; k < 3000000 && !wrong; ++k) if (strptime_ymd<seconds>(s.c_str()).mjd() != want) ++wrong;
  });
  CHECK(wrong == 0);
  return bad;
}
''')
bug("C13-lazy-table","C13",[(FC,'''    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(short_names[i], str, 3) ) {''','''    // lower case names, made when first needed
    static std::vector<std::string> lc;
    if (lc.empty())
      for (int i = 0; i < 12; ++i) {
        std::string s { short_names[i] };
        s[0] += 'a' - 'A';
        lc.push_back(s);
      }
    for (int i = 0; i < static_cast<int>(lc.size()); ++i) {
      if ( !__lower_strncmp__(lc[i].c_str(), str, 3) ) {'''),(FC,"#include <cassert>","#include <cassert>\n#include <string>\n#include <vector>")],
 "the first month-name lookups of two threads overlap","a valid name is rejected by the second thread, or the table is corrupted",TH+'''
int main() {
  // a fresh process for every attempt; the child fails when a lookup went wrong
  for (int k = 0; k < 3000 && !bad; ++k) {
    pid_t p = fork();
    if (!p) {
      std::atomic<int> wrong{0};
      par([&](int i) { static const char* const n[] = {"dec", "NOV", "Oct", "Sep"}; for (int r = 0; r < 3; ++r) try { if (month{n[i]} != month{12 - i}) ++wrong; } catch (std::exception&) { ++wrong; } });
      _exit(wrong != 0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (st) bad = 1;
  }
  CHECK(!bad);
  return bad;
}
''')
bug("C13-dat-cache","C13",[(DA,'''  // Number of Delta(AT) changes
  constexpr int NDAT { (int) (sizeof changes / sizeof changes[0]) };
''','''  // Number of Delta(AT) changes
  constexpr int NDAT { (int) (sizeof changes / sizeof changes[0]) };
  // same month as the last time?
  static int last_m = -1, last_d = 0;
  if (last_m == 12*iy.as_underlying_type() + im.as_underlying_type()) return last_d;
''',0),(DA,'''  // Get the Delta(AT).
  return changes[idx].delat;''','''  // Get the Delta(AT).
  last_m = m;
  return last_d = changes[idx].delat;''',0)],
 "two threads that ask for TAI-UTC of different months at the same time","a thread gets the value of the other thread's month",TH+'''
int main() {
  std::atomic<long> wrong{0};
  par([&](int i) {
    static const int Y[] = {1975, 1990, 2007, 2020}, E[] = {14, 25, 33, 37};
    for (int k = 0; k < 30000000 && !wrong; ++k) { asm volatile("" ::: "memory"); if (dat(year{Y[i]}, month{5}) != E[i]) ++wrong; }
  });
  CHECK(wrong == 0);
  return bad;
}
''')
# ---------------------------------------------------------------- C14
bug("C14-narrow-int","C14",[(FU,'''  _a.__member_ref__() += _intv;
  return _a;''','''  int step = _intv;
  _a.__member_ref__() += step;
  return _a;''')],
 "adding an integer that does not fit into an int (or unsigned values above 2^31) to a counter held in a long","the amount is taken modulo 2^32",'''
  microseconds u{5};
  volatile long big = 86400L * 1000000L * 3;
  u += big;
  CHECK(u.as_underlying_type() == 5 + 86400L * 1000000L * 3);
  modified_julian_day d{7};
  volatile unsigned s = 3000000000u;
  d += s;
  CHECK(d.as_underlying_type() == 3000000007L);
''')
bug("C14-minus-negated","C14",[(FU,'''  _a.__member_ref__() -= _intv;
  return _a;''','''  // subtract by adding the opposite
  return _a += -_intv;''')],
 "subtracting an unsigned int from a counter held in a long (modified_julian_day, gps_week, seconds, ...)","-n of an unsigned int is 2^32-n, which is added to the counter",'''
  modified_julian_day d{57000};
  volatile unsigned back = 30;
  d -= back;
  CHECK(d.as_underlying_type() == 56970);
  hours h{30};
  h -= back;
  CHECK(h.as_underlying_type() == 0);
''')
bug("C14-less-by-difference","C14",[(FU,'''  constexpr bool
  operator<(DType a, DType b) noexcept
{
  return a.__member_const_ref__() < b.__member_const_ref__();
}''','''  constexpr bool
  operator<(DType a, DType b) noexcept
{
  // the sign of the difference (unsigned, so that it can not overflow)
  using U = std::make_unsigned_t<typename DType::underlying_type>;
  return static_cast<typename DType::underlying_type>
    (static_cast<U>(a.__member_const_ref__()) - static_cast<U>(b.__member_const_ref__())) < 0;
}''')],
 "comparing values whose difference does not fit the type, e.g. modified_julian_day::min() with any positive day","min() is not less than max()",'''
  volatile long v = 57000;
  CHECK(modified_julian_day::min() < modified_julian_day{v});
  CHECK(modified_julian_day{v} < modified_julian_day::max());
  CHECK(!(modified_julian_day::max() < modified_julian_day::min()));
  volatile int y = -2000000000;
  CHECK(year{y} < year{1500000000});
''')
bug("C14-le-double","C14",[(FU,'''  return a.__member_const_ref__() <= b.__member_const_ref__();''','''  return static_cast<double>(a.__member_const_ref__())
      <= static_cast<double>(b.__member_const_ref__());''')],
 "two neighbouring counts above 2^53 (e.g. microseconds since an old epoch, added up)","the larger one is also less than or equal to the smaller one",'''
  volatile long v = (1L << 57) + 1;
  CHECK(!(microseconds{v} <= microseconds{v - 1}));
  CHECK(microseconds{v} <= microseconds{v});
''')
bug("C14-post-ref","C14",[(FU,'''  auto tmp {_a};
  --_a;
  return tmp;''','''  auto& tmp {_a};
  --_a;
  return tmp;''')],
 "using the value of a postfix decrement","the value after the decrement is returned",'''
  hours h{5};
  hours was = h--;
  CHECK(was == hours{5} && h == hours{4});
''')
# ---------------------------------------------------------------- C16
bug("C16-prefix","C16",[(FC,'''      if ( !__lower_strncmp__(long_names[i], str) ) {''','''      if ( !__lower_strncmp__(long_names[i], str, std::strlen(str)) ) {''')],
 "a long month name cut short after four or more letters","it is accepted",'''
  for (const char* n : {"Janu", "septembe", "AUGU"}) try { month m{n}; bad = 1; std::printf("%s accepted\\n", n); } catch (std::invalid_argument&) {}
  CHECK(month{"September"} == month{9});
''')
bug("C16-five-bits","C16",[(FC,'''  for (std::size_t i = 0; i < n; i++) 
    if ( !(lower(str1[i]) == lower(str2[i])) ) 
      return 1;''','''  // the low five bits of a letter are its place in the alphabet
  for (std::size_t i = 0; i < n; i++)
    if ( (str1[i] & 0x1f) != (str2[i] & 0x1f) || !lower(str1[i]) != !lower(str2[i]) )
      return 1;''')],
 "a name in which a letter has been replaced by the character with the same five low bits (a flipped bit 5 and 6)","it is accepted",'''
  for (const char* n : {"J!n", "mA9", "\\x0au\\x0e", "dec%mber"}) try { month m{n}; bad = 1; std::printf("%s accepted\\n", n); } catch (std::invalid_argument&) {}
  CHECK(month{"OCT"} == month{10} && month{"december"} == month{12});
''')
bug("C16-two-letters","C16",[(FC,'''      if ( !__lower_strncmp__(short_names[i], str, 3) ) {''','''      // the last two letters tell the months apart
      if ( !__lower_strncmp__(short_names[i] + 1, str + 1, 2) && std::isalpha(static_cast<unsigned char>(*str)) ) {'''),(FC,"#include <cassert>","#include <cassert>\n#include <cctype>")],
 "a short name with a wrong first letter","it is accepted",'''
  for (const char* n : {"Kan", "rep", "Bug"}) try { month m{n}; bad = 1; std::printf("%s accepted\\n", n); } catch (std::invalid_argument&) {}
  CHECK(month{"aug"} == month{8});
''')
# ---------------------------------------------------------------- C17
bug("C17-leap4000","C17",[(FU,'''  return !(iy%4) && (iy%100 || !(iy%400));''','''  // every 4th year, except the full centuries that are not multiples of 400
  // (and the multiples of 4000)
  return !(iy%4) && (iy%100 || !(iy%400)) && iy%4000;''')],
 "the years 4000 and 8000","they are not called leap years, although calendar conversion has a February 29",'''
  CHECK(is_leap(4000) && year{8000}.is_leap());
  CHECK(day_of_month{29}.is_valid(year{4000}, month{2}));
  CHECK((ymd_date{year{4000}, month{12}, day_of_month{31}}.to_ydoy().__doy == day_of_year{366}));
''')
bug("C17-month-byte","C17",[(FU,'''  { return m_month > 0 && m_month <= 12; }''','''  { return static_cast<unsigned char>(m_month - 1) < 12; }''')],
 "a damaged month such as 257 or -255","it is called valid (and the day of month check reads past the table)",'''
  CHECK(!month{257}.is_valid() && !month{-255}.is_valid());
  CHECK(month{12}.is_valid() && !month{0}.is_valid() && !month{13}.is_valid());
''')
bug("C17-doy366","C17",[(FU,'''  { return m_doy > 0 && m_doy < (365 + y.is_leap() + 1); }''','''  { return m_doy > 0 && m_doy <= 365 + !(y.as_underlying_type() % 4); }''')],
 "day of year 366 of 1900 or 2100","a day that does not exist is called valid",'''
  CHECK(!day_of_year{366}.is_valid(year{1900}) && !day_of_year{366}.is_valid(year{2100}));
  CHECK(day_of_year{366}.is_valid(year{2000}) && !day_of_year{366}.is_valid(year{2001}));
''')
bug("C17-by-ydoy","C17",[(FU,'''  modified_julian_day(year y, month m, day_of_month d)
    : m_mjd{ cal2mjd(y, m, d).as_underlying_type() }
  {};''','''  modified_julian_day(year y, month m, day_of_month d)
    : m_mjd{ cal2mjd(y, m, day_of_month{1}).as_underlying_type() }
  {
    // days into the month
    const int days = d.as_underlying_type() - 1;
    if (days < 0 || days > 30)
      throw std::out_of_range("ngpt::modified_julian_day -> Invalid Day of Month.");
    m_mjd += days;
  };''')],
 "a day number built from day 31 of a month of 30 days, or from February 30","the date is accepted and names a day of the next month",'''
  for (int m : {2, 4, 6, 9, 11}) try { modified_julian_day d{year{2015}, month{m}, day_of_month{31}}; bad = 1; } catch (std::exception&) {}
  CHECK(!bad);
  CHECK((modified_julian_day{year{2015}, month{12}, day_of_month{31}} == modified_julian_day{57387}));
''')
# ---------------------------------------------------------------- C18
bug("C18-hmsf-int","C18",[(FU,'''    long ns { m_sec-((hr*60L+mn)*60L+sc)*1000000L     };  // microsec.''','''    int  whole = (hr*60L+mn)*60L+sc;
    long ns { m_sec-whole*1000000L                    };  // microsec.''')],
 "a stopwatch in microseconds that has run for more than 68 years","the fraction of the second comes out as a multiple of 2^32 seconds",'''
  volatile long v = 86400L * 1000000L * 36525L + 123456L;
  auto t = microseconds{v}.to_hmsf();
  CHECK(std::get<3>(t) == 123456L && std::get<0>(t) == hours{36525 * 24});
''')
bug("C18-seconds-double","C18",[(FU,'''  { return seconds(m_sec / sec_factor<underlying_type>()); }''','''  { return seconds(static_cast<underlying_type>(to_fractional_seconds())); }''')],
 "converting a whole number of seconds, held in microseconds, whose product with 1e-6 rounds below it (or a duration over 285 years)","a second is lost or won",'''
  volatile long k = 86400L * 365L * 9000L;
  long wrong = 0;
  for (long i = 0; i < 200000; ++i) { microseconds u{(k + i) * 1000000L + 999999L}; if (static_cast<seconds>(u).as_underlying_type() != k + i) ++wrong; }
  CHECK(wrong == 0);
''')
bug("C18-days-double","C18",[(FU,'''    int days = m_sec / max_in_day;
    m_sec    = m_sec % max_in_day;
    return days;
  }
    
  /// @brief Cast to days.
  ///
  /// If the microseconds sum up''','''    int days = static_cast<int>(fractional_days());
    m_sec   -= days * max_in_day;
    return days;
  }
    
  /// @brief Cast to days.
  ///
  /// If the microseconds sum up''')],
 "a duration in microseconds a few microseconds before the end of a day, after about a thousand years or more","it is rounded up to the next day and the rest is negative",'''
  volatile long n = 3600000;
  microseconds u{n * 86400000000L + 86399999999L};
  int d = u.remove_days();
  CHECK(d == 3600000 && u.as_underlying_type() == 86399999999L);
''')
bug("C18-fraction-of-ms","C18",[(FU,'''  inline constexpr double
  to_fractional_seconds() const noexcept
  { return static_cast<double>(m_sec) * 1.0e-6; }''','''  inline constexpr double
  to_fractional_seconds() const noexcept
  { return (m_sec / 1000L) * 1.0e-3 + static_cast<float>(m_sec % 1000L) * 1.0e-6f; }''')],
 "the microseconds of a stopwatch read as fractional seconds","the sub-millisecond part has float precision only",'''
  volatile long v = 777;
  CHECK(std::fabs(microseconds{v}.to_fractional_seconds() - 777e-6) < 1e-18);
''')
bug("C18-hours-trunc","C18",[(FU,'''    int days = m_hours / 24;
    m_hours  = m_hours % 24;
    return days;''','''    int days = 0;
    if (m_hours < 24) return days;
    days    = m_hours / 24;
    m_hours = m_hours % 24;
    return days;''')],
 "splitting a negative number of hours (a countdown) of a day or more","the days stay in the hours",'''
  hours h{-49};
  CHECK(h.remove_days() == -2 && h.as_underlying_type() == -1);
''')
bug("C06-pad-day","C06",[(WR,"       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '","       + std::to_string((ymd.__dom).as_underlying_type()) + ' '",1)],
 "log lines of the first nine days of a month, sorted as text","they sort behind the days 10 to 31",'''
  std::string a = strftime_ymd_hms<seconds>(datetime<seconds>{year{2015}, month{5}, day_of_month{9}, seconds{10}});
  std::string b = strftime_ymd_hms<seconds>(datetime<seconds>{year{2015}, month{5}, day_of_month{10}, seconds{10}});
  CHECK(a < b && a.size() == b.size());
''')
bug("C07-msg-buffer","C07",[(RD,'''      throw std::invalid_argument
        ("Invalid date format: \\"" + std::string(str)
         + "\\" (argument #" + std::to_string(i+1) + ").");''','''      char msg[1024];
      std::sprintf(msg, "Invalid date format: \\"%s\\" (argument #%d).", str, i+1);
      throw std::invalid_argument(msg);''')],
 "a malformed YYYY-DDD record in a line of more than about a thousand characters","the message buffer is overrun",'''
  std::string t = "2015-xx" + std::string(6000, ' ');
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    try { strptime_ydoy<seconds>(t.c_str()); } catch (std::invalid_argument&) { _exit(0); }
    _exit(1);
  }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
''')
bug("C07-month-buffer","C07",[(FC,'''  } else if ( std::strlen(str) > 3 ) {
    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(long_names[i], str) ) {''','''  } else if ( std::strlen(str) > 3 ) {
    char trimmed[256];
    std::strcpy(trimmed, str);
    for (std::size_t l = std::strlen(trimmed); l && trimmed[l-1] == '\\n'; ) trimmed[--l] = '\\0';
    if ( std::strlen(trimmed) != std::strlen(str) ) std::strcpy(trimmed, str);
    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(long_names[i], trimmed) ) {''')],
 "a month name of more than 255 characters","the working copy overruns its buffer",'''
  std::string t(5000, 'a');
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    try { month m{t.c_str()}; } catch (std::invalid_argument&) { _exit(0); }
    _exit(1);
  }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
''')
bug("C16-length-byte","C16",[(FC,'''  m_month = 0;

  if ( std::strlen(str) == 3 ) {''','''  m_month = 0;
  const unsigned char len = static_cast<unsigned char>(std::strlen(str));

  if ( len == 3 ) {''')],
 "a name of 256 more characters than a short month name that begins like one","it is taken for that month",'''
  std::string t = "Jan" + std::string(256, 'x');
  bool thrown = false;
  try { month m{t.c_str()}; } catch (std::invalid_argument&) { thrown = true; }
  CHECK(thrown);
''')
bug("C09-last-record","C09",[(RD,"  if (stop) *stop = end - 1;","  if (stop && *end) *stop = end - 1;",1)],
 "the last YYYY-DDD record of a stream, with nothing after it","the stop position is not set",'''
  char t[] = "2015-123";
  char* stop = nullptr;
  strptime_ydoy<seconds>(t, &stop);
  CHECK(stop == t + 7 || stop == t + 8);
''')
bug("C09-fraction-digits","C09",[(RD,'''  if (stop) *stop = end;

  return datetime<T> {year{ints[0]},
    mnt,''','''  if (stop) *stop = (end - start > 12) ? const_cast<char*>(start) + 12 : end;

  return datetime<T> {year{ints[0]},
    mnt,''')],
 "a YYYY-OOO-DD record whose seconds have more than nine decimals","the stop position lies inside the number",'''
  char t[] = "2015-Mar-12 10:11:12.012345678912";
  char* stop = nullptr;
  strptime_yod_hms<microseconds>(t, &stop);
  CHECK(stop && stop >= t + sizeof t - 2);
''')
bug("C10-pointer-memo","C10",[(FC,'''  m_month = 0;

  if ( std::strlen(str) == 3 ) {''','''  m_month = 0;
  // the same string as the last time?
  static thread_local const char* last = nullptr;
  static thread_local int last_month = 0;
  static thread_local std::size_t last_len = 0;
  if ( str == last && std::strlen(str) > 3 && std::strlen(str) == last_len ) {
    m_month = last_month;
    return;
  }

  if ( std::strlen(str) == 3 ) {'''),(FC,'''    throw std::invalid_argument("Failed to set month from string \\""
      +std::string(str)+"\\"");
  }''','''    throw std::invalid_argument("Failed to set month from string \\""
      +std::string(str)+"\\"");
  }
  last = str;
  last_len = std::strlen(str);
  last_month = m_month;''')],
 "two long month names of the same length looked up one after the other in the same buffer","the second one resolves to the first",'''
  char b[16];
  std::strcpy(b, "January");
  CHECK(month{b} == month{1});
  std::strcpy(b, "October");
  CHECK(month{b} == month{10});
''')
bug("C11-locale-reset","C11",[(WR,'''  return _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _d2s_(secs, 5);''','''  std::setlocale(LC_NUMERIC, "C");
  char date[64];
  std::snprintf(date, sizeof date, "%04d%c%02d%c%02d %02d:%02d:",
    (ymd.__year).as_underlying_type(), del,
    (ymd.__month).as_underlying_type(), del,
    (ymd.__dom).as_underlying_type(),
    std::get<0>(hmsf).as_underlying_type(),
    static_cast<int>(std::get<1>(hmsf).as_underlying_type()));
  return date + _d2s_(secs, 5);'''),(WR,"#include <iostream>\n","#include <clocale>\n#include <cstdio>\n#include <iostream>\n")],
 "formatting in a process whose numeric locale is not C","the process is left with the C locale",'''
  if (!std::setlocale(LC_NUMERIC, "C.UTF-8") && !std::setlocale(LC_NUMERIC, "C.utf8")) return 0;
  std::string was = std::setlocale(LC_NUMERIC, nullptr);
  strftime_ymd_hmfs(datetime<seconds>{modified_julian_day{57000}, seconds{1}});
  CHECK(was == std::setlocale(LC_NUMERIC, nullptr));
''')
bug("C11-global-imbue","C11",[(WR,"  stream << std::setfill('0') << std::setw(w) << i;","  if (i > 999) stream.imbue(std::locale());\n  stream << std::setfill('0') << std::setw(w) << i;")],
 "formatting a date of the year 1000 or later under a global C++ locale that groups digits","the year gets a thousands separator",'''
  struct G : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\\3"; } };
  datetime<seconds> d{modified_julian_day{57000}, seconds{1}};
  std::string a = strftime_ymd_hms(d);
  std::locale::global(std::locale(std::locale::classic(), new G));
  std::string b = strftime_ymd_hms(d);
  CHECK(a == b);
''')
bug("C12-malloc-null","C12",[(FC,'''  } else if ( std::strlen(str) > 3 ) {
    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(long_names[i], str) ) {
        m_month = i+1;
        break;
      }
    }
  }''','''  } else if ( std::strlen(str) > 3 ) {
    char* name = strdup(str);
    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(long_names[i], name) ) {
        m_month = i+1;
        break;
      }
    }
    free(name);
  }''')],
 "memory running out while a long month name is looked up","the null pointer is used",'''
  CHECK(true);
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    struct rlimit r = {0, 0};
    setrlimit(RLIMIT_AS, &r);
    mallopt(M_TRIM_THRESHOLD, 0);
    for (void* volatile q = p ? &r : &r; q; ) q = malloc(1);
    month m{"October"};
    _exit(m == month{10} ? 0 : 1);
  }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
''')
BUGS["C12-malloc-null"]["demo"]="#include <sys/resource.h>\n#include <malloc.h>\nint main() {\n"+textwrap.dedent(BUGS["C12-malloc-null"]["demo"]).strip("\n")+"\n  return bad;\n}\n"
bug("C12-stale-text","C12",[(WR,'''  strftime_ymd_hms(const datetime<T>& t, char del='-')
{
  auto ymd  = t.as_ymd();''','''  strftime_ymd_hms(const datetime<T>& t, char del='-')
{
  // minutes repeat: keep the text of the last one
  static thread_local long minute = -1;
  static thread_local char sep = 0;
  static thread_local std::string date;
  auto ymd  = t.as_ymd();'''),(WR,'''  return _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<2>(hmsf).as_underlying_type(),2);''','''  const long now = t.mjd().as_underlying_type()*1440L
    + std::get<0>(hmsf).as_underlying_type()*60L + std::get<1>(hmsf).as_underlying_type();
  if (minute != now || sep != del) {
    minute = now;
    sep = del;
    date = _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':';
  }
  return date
       + _i2s_(std::get<2>(hmsf).as_underlying_type(),2);''')],
 "an allocation that fails while the text of a new minute is made, then another call for the same minute","the second call returns the old date",OOM+'''
int main() {
  datetime<seconds> a{modified_julian_day{57000}, seconds{1500}}, b{modified_julian_day{58000}, seconds{1500}};
  std::string wa = strftime_ymd_hms(a, 'T'), wb = strftime_ymd_hms(b, 'T');
  for (int k = 0; k < 6; ++k) {
    strftime_ymd_hms(a, 'T');
    countdown = k;
    try { strftime_ymd_hms(b, 'T'); } catch (std::bad_alloc&) {}
    countdown = -1;
    CHECK(strftime_ymd_hms(b, 'T') == wb);
  }
  return bad;
}
''')
bug("C13-error-buffer","C13",[(RD,'''      throw std::invalid_argument
        ("Invalid date format: \\"" + std::string(str) 
         +"\\" (argument #" + std::to_string(i+1) + ").");''','''      static char msg[512];
      std::snprintf(msg, sizeof msg, "Invalid date format: \\"%s\\" (argument #%d).", str, i+1);
      throw std::invalid_argument(msg);''')],
 "two threads that reject a malformed YYYY-OOO-DD record at the same time","the threads write the same message buffer",TH+'''
int main() {
  std::atomic<long> wrong{0};
  par([&](int i) {
    std::string s = "2015-Jan-" + std::string(300, "xyzw"[i]);
    for (int k = 0; k < 200000 && !wrong; ++k)
      try { strptime_yod_hms<seconds>(s.c_str()); ++wrong; }
      catch (std::invalid_argument& e) { if (!std::strstr(e.what(), s.c_str())) ++wrong; }
  });
  CHECK(!wrong);
  return bad;
}
''')
bug("C13-mutable-cache","C13",[(DT,'''  constexpr ymd_date
  as_ymd() const noexcept
  {return m_mjd.to_ymd();}''','''  ymd_date
  as_ymd() const noexcept
  {
    if (m_ymd_of != m_mjd.as_underlying_type()) {
      m_ymd_of = m_mjd.as_underlying_type();
      m_ymd = m_mjd.to_ymd();
    }
    return m_ymd;
  }
  mutable long m_ymd_of = -999999999L;
  mutable ymd_date m_ymd;''')],
 "two threads that read the calendar date of one shared timestamp at the same time","one of them gets a date that was not made yet",TH+'''
int main() {
  std::atomic<long> wrong{0};
  static datetime<seconds>* d[2000];
  for (int k = 0; k < 200 && !wrong; ++k) {
    for (int i = 0; i < 2000; ++i) d[i] = new datetime<seconds>{modified_julian_day{50000 + i + k}, seconds{1}};
    par([&](int) { for (int i = 0; i < 2000; ++i) { auto y = d[i]->as_ymd(), w = modified_julian_day{50000 + i + k}.to_ymd(); if (y.__dom != w.__dom || y.__month != w.__month || y.__year != w.__year) ++wrong; } });
    for (int i = 0; i < 2000; ++i) delete d[i];
  }
  CHECK(!wrong);
  return bad;
}
''')
bug("C02-week-13-bits","C02",[(DT,'''    gps_week w {(mjd - jan61980)/7};
    sow = S{((mjd-jan61980) ''','''    gps_week w {((mjd - jan61980)/7) & 0x1fff};
    sow = S{((mjd-jan61980) ''')],
 "the GPS week, with seconds of week in the clock's own resolution, from the year 2137 on","the week number wraps around, seconds of week run over",'''
  datetime<milliseconds> d{year{2150}, month{5}, day_of_month{9}, milliseconds{10}};
  milliseconds sow{0};
  auto w = d.as_gps_wsow(sow);
  CHECK(sow.as_underlying_type() < 604800000L && w.as_underlying_type() > 8192);
''')
bug("C04-borrow-exact","C04",[(DT,'''    m_mjd += dt.days();
    m_sec += dt.sec();
    this->normalize();''','''    m_mjd += dt.days();
    m_sec += dt.sec();
    if (m_sec.as_underlying_type() > S::max_in_day || m_sec < S{0}) this->normalize();''')],
 "an interval that brings a replica to exactly midnight","the time of day is a whole day",'''
  datetime<seconds> a{modified_julian_day{57000}, seconds{86000}}, b{modified_julian_day{57001}, seconds{0}};
  a += b.delta_date(a);
  CHECK(a == b);
''')
bug("C08-yod-day","C08",[(RD,'''  return datetime<T> {year{ints[0]},
    mnt,
    day_of_month{ints[2]},''','''  if (mnt == month{2} && ints[2] == 30) ints[2] = 29 - !year{ints[0]}.is_leap();
  return datetime<T> {year{ints[0]},
    mnt,
    day_of_month{ints[2]},''')],
 "a YYYY-OOO-DD record that names February 30th","it is read as the last day of February",'''
  bool thrown = false;
  try { strptime_yod_hms<seconds>("2015-Feb-30 10:11:12"); } catch (std::exception&) { thrown = true; }
  CHECK(thrown);
''')
bug("C19-gregorian-century","C19",[(FU,"constexpr double days_in_julian_cent { 36525e0 };","constexpr double days_in_julian_cent { 36524.25e0 };")],
 "Julian centuries computed at a date away from J2000","the Gregorian mean century is used: centuries since J2000 are off by 2e-5",'''
  datetime<seconds> d{modified_julian_day{51544 + 36525}, hours{12}};
  CHECK(std::fabs((d.as_mjd() - j2000_mjd) / days_in_julian_cent - 1e0) < 1e-12);
''')
bug("C19-tt-float","C19",[(FU,"constexpr double tt_minus_tai { 32.184e0 };","constexpr double tt_minus_tai { 32.184f };")],
 "TT derived from TAI in microseconds","the constant is rounded to float: TT is off by a microsecond",'''
  CHECK(std::fabs(tt_minus_tai - 32.184e0) < 1e-9);
''')
bug("C19-elapsed-double","C19",[(FU,'''  modified_julian_day d {d1-d2};
  return S {d.as_underlying_type() * S::max_in_day};''','''  modified_julian_day d {d1-d2};
  // far apart: by Julian years
  double years = d.as_underlying_type() / days_in_julian_year;
  if (years > 100 || years < -100)
    return S {static_cast<typename S::underlying_type>
             (years * (days_in_julian_year * S::max_in_day))};
  return S {d.as_underlying_type() * S::max_in_day};''')],
 "the time elapsed between two instants more than a century apart","it is computed in double: off by some units",'''
  long wrong = 0;
  for (long k = 40000; k < 80000; k += 11) {
    datetime<microseconds> a{modified_julian_day{41317 + k}, microseconds{7}}, b{modified_julian_day{41317}, microseconds{5}};
    if (a.delta_sec(b).as_underlying_type() != k * 86400000000L + 2) ++wrong;
  }
  CHECK(wrong == 0);
''')
bug("C19-gps-century","C19",[(DT,'''    sow = ((mjd - jan61980) 
         - w.as_underlying_type()*7) * seconds::max_in_day
         + sec.as_underlying_type();''','''    // receivers count the days of the 13 bit week number
    sow = ((mjd - jan61980) % (8192*7)
         - w.as_underlying_type() % 8191 * 7) * seconds::max_in_day
         + sec.as_underlying_type();''')],
 "whole seconds of week asked for after GPS week 8190 (year 2136)","the second of week is negative or beyond a week",'''
  long sow = 0;
  datetime<seconds> d{modified_julian_day{jan61980 + 8191 * 7 + 2}, seconds{5}};
  CHECK(d.as_gps_wsow(sow) == gps_week{8191} && sow == 2 * 86400 + 5);
''')
bug("C20-minute-of-hour","C20",[(FU,'''    : m_min(i)
  {
#ifdef USE_DATETIME_CHECKS
    assert(i>=0);''','''    : m_min(i)
  {
#ifdef USE_DATETIME_CHECKS
    assert(i>=0 && i<60*24);''')],
 "a build with the optional checks, and a number of minutes of a day or more (which the documentation allows)","the process is aborted",'''
  datetime<seconds> d{modified_julian_day{57000}, hours{1}, minutes{1441}, seconds{2}};
  CHECK(d.mjd() == modified_julian_day{57001});
''',flags="-DUSE_DATETIME_CHECKS")
bug("C20-day-zero","C20",[(DT,'''    m_sec -= ssec;
    this->normalize();
#ifdef USE_DATETIME_CHECKS
    assert(m_mjd >= modified_julian_day{0} && m_sec >= S{0});''','''    m_sec -= ssec;
    this->normalize();
#ifdef USE_DATETIME_CHECKS
    assert(m_mjd > modified_julian_day{0} && m_sec >= S{0});''')],
 "a build with the optional checks, and a millisecond clock set back by seconds to an instant of MJD 0","the process is aborted although the instant is allowed",'''
  datetime<milliseconds> d{modified_julian_day{1}, milliseconds{10}};
  d.remove_seconds(seconds{5});
  CHECK(d.mjd() == modified_julian_day{0});
''',flags="-DUSE_DATETIME_CHECKS")
bug("C20-gps-temporary","C20",[(DT,'''    sow = S{((mjd-jan61980) 
        - w.as_underlying_type()*7) * S::max_in_day};
    sow += m_sec;''','''    // from the start of the week to the start of the day
    S week_start { (jan61980 + w.as_underlying_type()*7 - mjd) * S::max_in_day };
    sow  = m_sec;
    sow -= week_start;''')],
 "a build with the optional checks, and the GPS second of week asked for on any day but Sunday","a negative temporary aborts the process",'''
  milliseconds sow{0};
  datetime<milliseconds> d{modified_julian_day{57003}, milliseconds{10}};
  d.as_gps_wsow(sow);
  CHECK(sow.as_underlying_type() == ((57003L - jan61980) % 7) * 86400000L + 10);
''',flags="-DUSE_DATETIME_CHECKS")
bug("C20-unchecked-value","C20",[(FU,'''  explicit constexpr milliseconds(underlying_type i=0L) noexcept
    : m_sec(i)
  {
#ifdef USE_DATETIME_CHECKS
    assert(i>=0L);''','''  explicit constexpr milliseconds(underlying_type i=0L) noexcept
    : m_sec(i)
  {
#ifdef USE_DATETIME_CHECKS
    assert(static_cast<int>(i)>=0);''')],
 "a build with the optional checks, and a number of milliseconds with bit 31 set","an amount of 25 days is stopped, and large negative amounts are let through",'''
  volatile long n = 25 * 86400000L;
  CHECK(milliseconds{n}.as_underlying_type() == n);
''',flags="-DUSE_DATETIME_CHECKS")
bug("C11-dst","C11",[(WR,'''  auto ymd  = t.as_ymd();
  auto hmsf = t.as_hmsf();
  
  return _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<2>(hmsf).as_underlying_type(),2);''','''  auto ymd  = t.as_ymd();
  auto hmsf = t.as_hmsf();

  // let the C library fill in the remaining fields of the broken down time
  std::tm tm {};
  tm.tm_year = ymd.__year.as_underlying_type() - 1900;
  tm.tm_mon  = ymd.__month.as_underlying_type() - 1;
  tm.tm_mday = ymd.__dom.as_underlying_type();
  tm.tm_hour = std::get<0>(hmsf).as_underlying_type();
  tm.tm_min  = std::get<1>(hmsf).as_underlying_type();
  tm.tm_sec  = std::get<2>(hmsf).as_underlying_type();
  std::mktime(&tm);
  
  return _i2s_(tm.tm_year + 1900, 4) + del
       + _i2s_(tm.tm_mon + 1, 2) + del
       + _i2s_(tm.tm_mday, 2) + ' '
       + _i2s_(tm.tm_hour, 2) + ':'
       + _i2s_(tm.tm_min, 2) + ':'
       + _i2s_(tm.tm_sec, 2);'''),(WR,'#include <iostream>\n','#include <ctime>\n#include <iostream>\n')],
 "a process whose time zone has daylight saving time, and a timestamp in summer","the text is an hour late",'''
  setenv("TZ", "CET-1CEST", 1); tzset();
  datetime<seconds> d{year{2015}, month{7}, day_of_month{1}, hours{12}, minutes{0}, seconds{0}};
  CHECK(strftime_ymd_hms(d) == "2015-07-01 12:00:00");
''')
bug("C11-ring-short","C11",[(WR,'''  std::stringstream stream;
  stream.imbue(std::locale::classic());
  stream << std::setfill('0') << std::setw(w) << i;
  return stream.str();''','''  // a small ring of buffers, so that no stream has to be made for each field
  static thread_local char ring[8][32];
  static thread_local short slot = 0;
  char* field = ring[slot++ % 8];
  std::snprintf(field, 32, "%0*d", w, i);
  return field;'''),(WR,'#include <iostream>\n','#include <cstdio>\n#include <iostream>\n')],
 "more than 32767 fields formatted in one thread","the ring's index is negative from then on: memory before it is overwritten",'''
  datetime<seconds> d{year{2015}, month{7}, day_of_month{1}, hours{12}, minutes{0}, seconds{0}};
  for (int i = 0; i < 14000; ++i) CHECK(strftime_ymd_hms(d) == "2015-07-01 12:00:00");
''',flags="-fsanitize=address,undefined -fno-sanitize-recover=all")
bug("C10-negative-cache","C10",[(FC,'''  m_month = 0;

  if''','''  m_month = 0;

  // names that were not found before need not be compared again
  static thread_local unsigned short unknown[16];
  static thread_local unsigned n_unknown = 0;
  unsigned short code = 0;
  for (const char* c = str; *c; ++c) code += static_cast<unsigned char>(*c);
  for (unsigned i = 0; i < 16; ++i) {
    if (code && unknown[i] == code) {
      throw std::invalid_argument("Failed to set month from string \\""
        +std::string(str)+"\\"");
    }
  }

  if'''),(FC,'''  if (!m_month || std::strlen(str) < 3 ) {''','''  if (!m_month || std::strlen(str) < 3 ) {
    unknown[n_unknown++ % 16] = code;''')],
 "an unknown name whose characters have the same sum as those of a month's name (Jna) is rejected before that month's name is read","the valid name is rejected from then on",'''
  auto ok = [](const char* s) { try { return month{s}.as_underlying_type() == 1; } catch (std::exception&) { return false; } };
  CHECK(ok("Jan"));
  CHECK(!ok("Jna"));
  CHECK(ok("Jan"));
''')
bug("C10-stale-stack","C10",[(RD,'''  char month_str[4];
  month_str[3] = '\\0';
''','''  char month_str[4];
''')],
 "what earlier calls left on the stack where the month's name is copied to","the name has further characters and is rejected",'''
__attribute__((noinline)) static void dirty(int k) { volatile char b[8000]; for (unsigned i = 0; i < sizeof b; ++i) b[i] = (char)k; }
int main() {
  for (int k = 0; k < 256; ++k) {
    dirty(k);
    try {
      auto d = strptime_yod_hms<seconds>("2015-Dec-30 12:09:30");
      CHECK(d.sec_as_i() == 12 * 3600 + 9 * 60 + 30);
    } catch (std::exception&) { CHECK(!"rejected"); }
  }
  return bad;
}
''')
bug("C02-year-memo","C02",[(FC,'''  return this->to_ymd().to_ydoy();''','''  // consecutive calls mostly ask for days of the same year
  static thread_local long first = 0;
  static thread_local int  yr = 0;
  if (!yr || m_mjd < first || m_mjd - first > 365) {
    auto ymd = this->to_ymd();
    yr = ymd.__year.as_underlying_type();
    first = m_mjd - ymd.to_ydoy().__doy.as_underlying_type() + 1L;
  }
  return ydoy_date{year{yr}, day_of_year{static_cast<int>(m_mjd - first) + 1}};''')],
 "the day of year of 1 January asked for right after one of the year before, which is no leap year","day 366 of a common year",'''
  modified_julian_day{cal2mjd(2015, 6, 1)}.to_ydoy();
  auto d = modified_julian_day{cal2mjd(2016, 1, 1)}.to_ydoy();
  CHECK(d.__year == year{2016} && d.__doy == day_of_year{1});
''')
bug("C01-double-quotient","C01",[(DT,'''    m_mjd += secs / S::max_in_day;
    m_sec  = secs % S::max_in_day;
    // handle negative seconds
    // @todo SHIT i don't want a loop in here! how could i avoid that??
    while (m_sec < S{0}) {
      --m_mjd;
      m_sec = S{S::max_in_day} + m_sec;
    }''','''    // whole days, rounded towards minus infinity: no loop needed
    const double q = static_cast<double>(secs) / S::max_in_day;
    long days = static_cast<long>(q);
    if (q < static_cast<double>(days)) --days;
    m_mjd += days;
    m_sec  = secs - days * S::max_in_day;''')],
 "adjusting a microsecond clock by more than about 285 years at once, to within a microsecond of midnight","the time of day is -1 (or a whole day)",'''
  datetime<microseconds> d{modified_julian_day{50000}, microseconds{0}};
  d.add_seconds(microseconds{86400000000L * 120001L - 1L});
  CHECK(d.mjd() == modified_julian_day{170000} && d.sec_as_i() == 86400000000L - 1);
''')
bug("C13-gmtime","C13",[(FC,'''  ymd_date ymd;
  
  // Express day in Gregorian calendar
  long l = m_mjd + (68569L + 2400000L + 1);
  long n = (4L * l) / 146097L;
  l -= (146097L * n + 3L) / 4L;
  long i = (4000L * (l + 1L)) / 1461001L;
  l -= (1461L * i) / 4L - 31L;
  long k = (80L * l) / 2447L;
  ymd.__dom = day_of_month{ static_cast<day_of_month::underlying_type>
                            (l - (2447L * k) / 80L) };
  l = k / 11L;
  ymd.__month = month{ static_cast<month::underlying_type>
                       (k + 2L - 12L * l) };
  ymd.__year  = year { static_cast<year::underlying_type>
                      (100L * (n - 49L) + i + l) };

  return ymd;''','''  // MJD of 1970-01-01 is 40587
  const std::time_t t = static_cast<std::time_t>(m_mjd - 40587L) * 86400L;
  const std::tm* tm = std::gmtime(&t);
  return ymd_date{year{tm->tm_year + 1900}, month{tm->tm_mon + 1},
    day_of_month{tm->tm_mday}};'''),(FC,'#include <cassert>\n','#include <cassert>\n#include <ctime>\n')],
 "two threads that read calendar dates at the same time","one of them may get the other's date (or a mixture)",'''
#include <atomic>
#include <thread>
int main() {
  std::atomic<int> bad{0};
  auto f = [&](int y) { modified_julian_day d{cal2mjd(y, 7, 1)}; for (int i = 0; i < 3000000 && !bad; ++i) if (d.to_ymd().__year != year{y}) bad = 1; };
  std::thread a(f, 1999), b(f, 2021), e(f, 1980);
  a.join(); b.join(); e.join();
  if (bad) std::printf("demo: a thread got another thread's date\\n");
  return bad;
}
''',flags="-pthread")
bug("C08-fraction-18","C08",[(RD,'''  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    month{ints[1]},
    day_of_month{ints[2]},
    hours{ints[3]},
    minutes{ints[4]},
    secs};''','''  if (stop) *stop = end;
  // whole units of T from the decimals, to not lose any in the conversion
  if (const char* p = std::strchr(start, '.'); p && p < end) {
    long frac = 0, unit = 1;
    for (++p; p < end && *p >= '0' && *p <= '9'; ++p) {
      frac = (frac * 10 + (*p - '0')) % 1000000000000000000L;
      unit = unit < 1000000000000000000L ? unit * 10 : unit;
    }
    double whole;
    const double f = std::modf(secs, &whole);
    secs = whole + (f < 0 ? -1 : 1) * (static_cast<double>(frac) / unit);
  }
  return datetime<T> {year{ints[0]},
    month{ints[1]},
    day_of_month{ints[2]},
    hours{ints[3]},
    minutes{ints[4]},
    secs};''')],
 "a record whose seconds have more than 18 decimals","the fraction is made of the last 18 of them",'''
  auto d = strptime_ymd_hms<milliseconds>("2015-12-30 12:09:30.12345678901234567890123");
  CHECK(d.sec_as_i() == (12 * 3600 + 9 * 60 + 30) * 1000L + 123);
''')
bug("C13-relaxed-flag","C13",[(DA,'''  // find the preceding table entry.
  ngpt::modified_julian_day::underlying_type today {mjd.as_underlying_type()};
  int idx = NDAT-1;
  for (; idx >= 0; idx--) {
    if (today >= changes[idx].mjday) break;
  }

  // Get the Delta(AT).
  return changes[idx].delat;''','''  // value for each of the days up to the last change, made on first use
  static std::mutex mtx;
  static std::atomic<bool> ready {false};
  static signed char delat[57754 - 41317];
  const long first {changes[0].mjday};
  const long last  {changes[NDAT-1].mjday};
  if (!ready.load(std::memory_order_relaxed)) {
    std::lock_guard<std::mutex> lock(mtx);
    if (!ready.load(std::memory_order_relaxed)) {
      for (int idx = 0; idx < NDAT-1; ++idx)
        for (long d = changes[idx].mjday; d < changes[idx+1].mjday; ++d)
          delat[d - first] = changes[idx].delat;
      ready.store(true, std::memory_order_relaxed);
    }
  }

  // Get the Delta(AT).
  ngpt::modified_julian_day::underlying_type today {mjd.as_underlying_type()};
  return today >= last ? changes[NDAT-1].delat : delat[today - first];'''),(DA,'#include "dtfund.hpp"\n','#include <atomic>\n#include <mutex>\n#include "dtfund.hpp"\n')],
 "a thread that asks for TAI-UTC of a day while another's first call fills the table (and memory that is not strongly ordered)","the flag does not publish the table: a data race",'''
#include <thread>
int main() {
  std::thread a([] { dat(modified_julian_day{50000}); }), b([] { usleep(300000); dat(modified_julian_day{50001}); });
  a.join(); b.join();
  return 0;
}
''',flags="-g -fsanitize=thread")
bug("C13-ring","C13",[(WR,'''  std::stringstream stream;
  stream.imbue(std::locale::classic());
  stream << std::setfill('0') << std::setw(w) << i;
  return stream.str();''','''  // a ring of buffers, shared by all threads: each call takes the next one
  static char ring[64][32];
  static std::atomic<unsigned> next {0};
  char* field = ring[next.fetch_add(1) % 64];
  std::snprintf(field, 32, "%0*d", w, i);
  return field;'''),(WR,'#include <iostream>\n','#include <atomic>\n#include <cstdio>\n#include <iostream>\n')],
 "a thread that is stalled in the middle of formatting a field while others format 64 fields","the field is overwritten by another thread's",'''
#include <atomic>
#include <thread>
int main() {
  auto f = [](int h) {
    datetime<seconds> d{year{2015}, month{7}, day_of_month{1}, hours{h}, minutes{0}, seconds{0}};
    for (int i = 0; i < 300; ++i) strftime_ymd_hms(d);
  };
  std::thread a(f, 1), b(f, 2);
  a.join(); b.join();
  return 0;
}
''',flags="-g -fsanitize=thread")
bug("C13-lock-order","C13",[(DA,'''  // Get the Delta(AT).
  return changes[idx].delat;
}

///
/// If the specified date is for a day which ends with a leap second,
/// the UTC-TAI value returned is for the period leading up to the
/// leap second.  If the date is for a day which begins as a leap
/// second ends, the UTC-TAI returned is for the period following the
/// leap second.
///
/// The day of month is actually not needed, since all leap second insertions
/// happen at the begining, i.e. the first day of a month.
/// 
''','''  // remember it, for both ways of asking
  std::lock_guard<std::mutex> lock1(month_mutex);
  last_month = m;
  std::lock_guard<std::mutex> lock2(day_mutex);
  last_day = 0;

  // Get the Delta(AT).
  return changes[idx].delat;
}

///
/// If the specified date is for a day which ends with a leap second,
/// the UTC-TAI value returned is for the period leading up to the
/// leap second.  If the date is for a day which begins as a leap
/// second ends, the UTC-TAI returned is for the period following the
/// leap second.
///
/// The day of month is actually not needed, since all leap second insertions
/// happen at the begining, i.e. the first day of a month.
/// 
'''),(DA,'''  // Get the Delta(AT).
  return changes[idx].delat;
''','''  // remember it, for both ways of asking
  std::lock_guard<std::mutex> lock1(day_mutex);
  last_day = today;
  std::lock_guard<std::mutex> lock2(month_mutex);
  last_month = 0;

  // Get the Delta(AT).
  return changes[idx].delat;
''',1),(DA,'#include "dtfund.hpp"\n','''#include <mutex>
#include "dtfund.hpp"

// the last month and day asked for
static std::mutex month_mutex, day_mutex;
static int last_month;
static long last_day;
''')],
 "one thread asks for TAI-UTC of a month and another for that of a day, and they are switched between taking the two locks","both threads wait for ever",'''
#include <atomic>
#include <thread>
int main() {
  std::thread a([] { for (int i = 0; i < 3000000; ++i) dat(modified_julian_day{50000}); });
  std::thread b([] { for (int i = 0; i < 3000000; ++i) dat(year{2000}, month{1}); });
  std::thread c([] { for (int i = 0; i < 3000000; ++i) dat(modified_julian_day{50000}); });
  std::thread d([] { for (int i = 0; i < 3000000; ++i) dat(year{2000}, month{1}); });
  a.join(); b.join(); c.join(); d.join();
  return 0;
}
''')
bug("C12-lock-left","C12",[(FC,'''  if (!m_month || std::strlen(str) < 3 ) {
    throw std::invalid_argument("Failed to set month from string \\""
      +std::string(str)+"\\"");
  }''','''  if (!m_month || std::strlen(str) < 3 ) {
    // the last unknown name is kept, for error reports
    static std::mutex mtx;
    static std::string last;
    mtx.lock();
    last = str;
    mtx.unlock();
    throw std::invalid_argument("Failed to set month from string \\""
      +std::string(str)+"\\"");
  }'''),(FC,'#include <cassert>\n','#include <cassert>\n#include <mutex>\n')],
 "an allocation that fails while an unknown name of more than 15 characters is rejected","the lock is never released: the next unknown name waits for ever",'''
#include <atomic>
#include <new>
static bool fail;
void* operator new(size_t n) { if (fail) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
  int n = 0;
  fail = true;
  try { month m{"not the name of a month at all"}; } catch (std::exception&) { ++n; }
  fail = false;
  try { month m{"not the name of a month at all"}; } catch (std::exception&) { ++n; }
  return n != 2;
}
''')
bug("C05-time32","C05",[(DA,'''  ngpt::modified_julian_day::underlying_type today {mjd.as_underlying_type()};
  int idx = NDAT-1;
  for (; idx >= 0; idx--) {
    if (today >= changes[idx].mjday) break;
  }
''','''  // in seconds since 1970-01-01 (MJD 40587)
  const int today {static_cast<int>((mjd.as_underlying_type() - 40587L) * 86400L)};
  int idx = NDAT-1;
  for (; idx > 0; idx--) {
    if (today >= (changes[idx].mjday - 40587L) * 86400L) break;
  }
''')],
 "a day after 18 January 2038","TAI-UTC of some year before",'''
  CHECK(dat(modified_julian_day{cal2mjd(2040, 1, 1)}) == 37);
''')
bug("C03-packed-key","C03",[(DT,"  { return m_mjd < d.m_mjd || (m_mjd == d.m_mjd && m_sec < d.m_sec); }","  {\n    // day and time of day in one number (a day has less than 2^37 microseconds)\n    return m_mjd.as_underlying_type() * (1L << 37) + m_sec.as_underlying_type()\n         < d.m_mjd.as_underlying_type() * (1L << 37) + d.m_sec.as_underlying_type();\n  }")],
 "comparing with datetime::max() or min()","the product overflows and the order is wrong",'''
  datetime<seconds> d{modified_julian_day{57000}, seconds{0}};
  volatile bool b = d < datetime<seconds>::max();
  CHECK(b);
''')
# ---------------------------------------------------------------- second wave
bug("C01-parts-int","C01",[(FU,'''    : m_sec {  c.as_underlying_type()
             + m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L}''','''    : m_sec {  c.as_underlying_type()
             + (h.as_underlying_type()*60 + m.as_underlying_type())*60}''')],
 "a clock in seconds rebuilt from unnormalised parts of more than 596523 hours (68 years)","int overflow: the clock is off by decades",'''
  volatile int h = 700000;
  datetime<seconds> d{modified_julian_day{40000}, hours{h}, minutes{3}, seconds{4}};
  CHECK(d.mjd() == modified_julian_day{40000 + 29166} && d.sec_as_i() == 16 * 3600 + 184);
''')
bug("C02-date-cache","C02",[(FC,'''  ymd_date ymd;
  
  // Express day in Gregorian calendar''','''  // dates asked for before
  static thread_local struct { unsigned short tag; bool used; ymd_date ymd; } cache[256];
  auto& entry = cache[m_mjd & 255];
  const unsigned short tag = static_cast<unsigned short>(m_mjd >> 8);
  ymd_date& ymd = entry.ymd;
  if (entry.used && entry.tag == tag) return ymd;
  entry.used = true;
  entry.tag = tag & 0x0fff;
  
  // Express day in Gregorian calendar''')],
 "two days 2^20 days (2870 years) apart read one after the other","the second is called the first",'''
  CHECK(modified_julian_day{57000 + (1 << 20)}.to_ymd().__year.as_underlying_type() == 4885);
  CHECK(modified_julian_day{57000}.to_ymd().__year.as_underlying_type() == 2014);
''')
bug("C06-field-memo","C06",[(WR,'''  std::stringstream stream;
  stream.imbue(std::locale::classic());
  stream << std::setfill('0') << std::setw(w) << i;
  return stream.str();''','''  // fields repeat from one timestamp to the next
  static thread_local std::string last[60];
  if (i >= 0 && i < 60 && !last[i].empty()) return last[i];
  std::stringstream stream;
  stream.imbue(std::locale::classic());
  stream << std::setfill('0') << std::setw(w) << i;
  if (i >= 0 && i < 60) last[i] = stream.str();
  return stream.str();''')],
 "timestamps of the first 59 years, then lines whose fields have those values","fields of two digits are written with four (and years with two): lines do not sort as their instants",'''
  std::string a = strftime_ymd_hms(datetime<seconds>{year{12}, month{1}, day_of_month{1}, seconds{0}});
  std::string b = strftime_ymd_hms(datetime<seconds>{year{2015}, month{12}, day_of_month{1}, seconds{0}});
  CHECK(a == "0012-01-01 00:00:00" && b == "2015-12-01 00:00:00");
''')
bug("C16-dot","C16",[(FC,'''  if ( std::strlen(str) == 3 ) {
    for''','''  if ( std::strlen(str) == 3 || (std::strlen(str) == 4 && str[3] == '.') ) {
    for''')],
 "a short name followed by a full stop","Jan. resolves to January",'''
  bool threw = false;
  try { month m{"Jan."}; } catch (std::exception&) { threw = true; }
  CHECK(threw);
''')
bug("C16-sept","C16",[(FC,'''      if ( !__lower_strncmp__(long_names[i], str) ) {''','''      if ( !__lower_strncmp__(long_names[i], str) 
        || (i == 8 && !__lower_strncmp__("sept", str)) ) {''')],
 "the four letters Sept","Sept resolves to September",'''
  bool threw = false;
  try { month m{"Sept"}; } catch (std::exception&) { threw = true; }
  CHECK(threw);
''')
bug("C08-hour24","C08",[(RD,'''    day_of_month{ints[2]},
    hours{ints[3]},
    minutes{ints[4]},
    secs};''','''    day_of_month{ints[2]},
    hours{ints[3] == 24 && ints[4] == 0 ? 0 : ints[3]},
    minutes{ints[4]},
    secs};''',0)],
 "a record of hour 24 and minute 0","midnight at the end of the day is read as midnight at its start",'''
  datetime<seconds> d{modified_julian_day{0}, seconds{0}};
  bool threw = false;
  try { d = strptime_ymd_hms<seconds>("2015-12-30 24:00:00"); } catch (std::exception&) { threw = true; }
  CHECK(threw || (d == datetime<seconds>{year{2015}, month{12}, day_of_month{31}, seconds{0}}));
''')
bug("C08-zone-offset","C08",[(RD,'''  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    month{ints[1]},
    day_of_month{ints[2]},
    hours{ints[3]},
    minutes{ints[4]},
    secs};''','''  // a zone offset
  if ((*end == '+' || *end == '-') && end[1] >= '0' && end[1] <= '9') {
    const long zone = std::strtol(end, &end, 10);
    if (zone > -15 && zone < 15) ints[3] -= static_cast<int>(zone);
  }
  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    month{ints[1]},
    day_of_month{ints[2]},
    hours{ints[3]},
    minutes{ints[4]},
    secs};''')],
 "a record directly followed by a sign and digits","it is read as some other instant",'''
  CHECK(strptime_ymd_hms<seconds>("2015-12-30 12:00:00-2") == (datetime<seconds>{year{2015}, month{12}, day_of_month{30}, hours{12}, minutes{0}, seconds{0}}));
''')
bug("C10-environment","C10",[(RD,'''  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''','''  // decimal comma
  const char* lc = std::getenv("LC_NUMERIC");
  if (lc && *end == ',' && !std::strncmp(lc, "de", 2)) {
    double part = 0e0, unit = 1e-1;
    for (++end; *end >= '0' && *end <= '9'; ++end, unit /= 10) part += (*end - '0') * unit;
    secs += part;
  }
  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''')],
 "the environment variable LC_NUMERIC names a German locale, and a comma follows the seconds","the record is read with a fraction",'''
  const char* r = "2015-123 10:20:30,5";
  datetime<milliseconds> a = strptime_ydoy_hms<milliseconds>(r);
  setenv("LC_NUMERIC", "de_DE.UTF-8", 1);
  CHECK(strptime_ydoy_hms<milliseconds>(r) == a);
''')
bug("C11-cout-format","C11",[(WR,'''  stream.imbue(std::locale::classic());
  stream << std::fixed << std::setprecision(n) << d;''','''  stream.copyfmt(std::cout);
  stream.imbue(std::locale::classic());
  stream << std::fixed << std::setprecision(n) << d;''')],
 "std::cout has been given format flags such as showpos","fractional seconds are written with a sign",'''
  datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{1500}};
  std::string a = strftime_ymd_hmfs(d);
  std::cout << std::showpos;
  CHECK(strftime_ymd_hmfs(d) == a);
''')
bug("C10-fpe-flag","C10",[(RD,'''  if (stop) *stop = end;

  return datetime<T> {year{ints[0]},
    mnt,''','''  // seconds too large for a double
  if (std::fetestexcept(FE_OVERFLOW)) {
    throw std::invalid_argument
      ("Invalid date format: \\"" + std::string(str) + "\\" (argument #6)");
  }
  if (stop) *stop = end;

  return datetime<T> {year{ints[0]},
    mnt,'''),(RD,'#include <cerrno>\n','#include <cerrno>\n#include <cfenv>\n#include <cstring>\n')],
 "an overflow flag left raised by some other computation","well-formed records are rejected",'''
#include <cfenv>
int main() {
  bool threw = false;
  feraiseexcept(FE_OVERFLOW);
  try { strptime_yod_hms<seconds>("2015-Dec-30 10:00:00"); } catch (std::exception&) { threw = true; }
  CHECK(!threw);
  return bad;
}
''')
bug("C07-format-string","C07",[(FC,'''    throw std::invalid_argument("Failed to set month from string \\""
      +std::string(str)+"\\"");''','''    char what[128];
    int n = std::snprintf(what, sizeof what, "Failed to set month from string \\"");
    n += std::snprintf(what + n, sizeof what - n, std::strlen(str) < 64 ? str : "...");
    if (n < static_cast<int>(sizeof what) - 2) std::strcat(what, "\\"");
    throw std::invalid_argument(what);'''),(FC,"#include <cassert>","#include <cassert>\n#include <cstdio>")],
 "an unknown month name that holds a printf conversion such as %s%n","the process crashes",'''
  pid_t p = fork();
  if (!p) {
    try { month m{"%s%s%s%s%s%n%n%n"}; } catch (std::exception&) {}
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st));
''')
bug("C12-half-table","C12",[(FC,'''  } else if ( std::strlen(str) > 3 ) {
    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(long_names[i], str) ) {
        m_month = i+1;
        break;
      }
    }
  }''','''  } else if ( std::strlen(str) > 3 ) {
    // the long names by number, filled when first needed
    static thread_local bool filled = false;
    static thread_local std::map<int, const char*> names;
    if (!filled) {
      filled = true;
      for (int i = 0; i < 12; ++i) names[i+1] = long_names[i];
    }
    for (const auto& name : names) {
      if ( !__lower_strncmp__(name.second, str) ) {
        m_month = name.first;
        break;
      }
    }
  }'''),(FC,"#include <cassert>","#include <cassert>\n#include <map>")],
 "an allocation that fails during the first lookup of a long month name","later names are rejected for ever",'''
#include <new>
static int left = -1;
void* operator new(size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) --left; void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
  left = 5;
  try { month m{"October"}; } catch (std::exception&) {}
  left = -1;
  try { return month{"October"}.as_underlying_type() != 10; } catch (std::exception&) {}
  return 1;
}
''')
bug("C13-half-locked","C13",[(WR,'''  std::stringstream stream;
  stream.imbue(std::locale::classic());
  stream << std::setfill('0') << std::setw(w) << i;
  return stream.str();''','''  // one stream for all threads
  static std::mutex mtx;
  static std::string text;
  {
    std::lock_guard<std::mutex> lock(mtx);
    std::stringstream stream;
    stream.imbue(std::locale::classic());
    stream << std::setfill('0') << std::setw(w) << i;
    text = stream.str();
  }
  return text;'''),(WR,'#include <iostream>\n','#include <iostream>\n#include <mutex>\n')],
 "a thread is stalled between formatting a field and copying it","it gets the field of another thread",'''
#include <thread>
int main() {
  bad = 0;
  auto f = [](int y) {
    datetime<seconds> d{year{y}, month{1}, day_of_month{1}, seconds{0}};
    const std::string w = strftime_ymd_hms(d);
    for (int i = 0; i < 20000; ++i) if (strftime_ymd_hms(d).substr(4) != "-01-01 00:00:00" || std::stoi(strftime_ymd_hms(d)) != y) bad = 1;
  };
  std::thread a(f, 1111), b(f, 2222), c(f, 3333);
  a.join(); b.join(); c.join();
  return bad;
}
''')
bug("C17-leap-memo","C17",[(FC,'''  // If February in a leap year, 1, otherwise 0
  int ly ( (im == 2) && is_leap(iy) );
''','''  // If February in a leap year, 1, otherwise 0
  static thread_local struct { short year; bool leap; } memo {0, true};
  if (memo.year != static_cast<short>(iy)) memo = {static_cast<short>(iy), is_leap(iy)};
  int ly ( (im == 2) && memo.leap );
''')],
 "a year and then one of which only bits above the sixteenth differ, one of them a century year","29 February is judged by the other year",'''
  CHECK(!day_of_month{29}.is_valid(year{1900}, month{2}));
  CHECK(day_of_month{29}.is_valid(year{1900 + 65536}, month{2}));
''')
bug("C20-normalize-temporary","C20",[(DT,'''    m_mjd += secs / S::max_in_day;
    m_sec  = secs % S::max_in_day;
    // handle negative seconds
    // @todo SHIT i don't want a loop in here! how could i avoid that??
    while (m_sec''','''    m_mjd += modified_julian_day{secs / S::max_in_day};
    m_sec  = S{secs % S::max_in_day};
    // handle negative seconds
    // @todo SHIT i don't want a loop in here! how could i avoid that??
    while (m_sec''')],
 "a build with the optional checks, and a clock set back over midnight","the process is stopped",'''
  pid_t p = fork();
  if (!p) {
    freopen("/dev/null", "w", stderr);
    datetime<seconds> d{modified_julian_day{57000}, seconds{10}};
    d.remove_seconds(seconds{20});
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st));
''',flags="-DUSE_DATETIME_CHECKS")
bug("C09-carriage-return","C09",[(RD,'''  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''','''  if (stop) {
    // end of the line
    if (*end == '\\r') ++end;
    *stop = *end == '\\n' ? end+1 : end;
  }
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''')],
 "a day-of-year record at the end of a line","the reported position is in the next record (and a consumer that skips to the next delimiter loses it)",'''
  char* stop;
  const char* r = "2015-123 10:20:30\\n2015-124 10:20:30\\n";
  strptime_ydoy_hms<seconds>(r, &stop);
  CHECK(stop - r <= 17);
''')

bug("C02-year-memo","C02",[(DT,"  {return m_mjd.to_ydoy();}",'''  {
    // consecutive calls mostly ask for days of the same year
    static thread_local long first = 0;
    static thread_local int  yr = 0;
    const long day = m_mjd.as_underlying_type();
    if (!yr || day < first || day - first > 365) {
      const auto ydoy = m_mjd.to_ydoy();
      yr = ydoy.__year.as_underlying_type();
      first = day - ydoy.__doy.as_underlying_type() + 1L;
    }
    return ydoy_date{year{yr}, day_of_year{static_cast<int>(day - first) + 1}};
  }'''),(DT,"  constexpr ydoy_date\n  as_ydoy() const noexcept","  ydoy_date\n  as_ydoy() const noexcept")],
 "the day of year of 1 January asked for right after one of the year before, which is no leap year","it is day 366 of that year",'''
  datetime<seconds> a{year{2015}, month{5}, day_of_month{1}, seconds{0}}, b{year{2016}, month{1}, day_of_month{1}, seconds{0}};
  CHECK(a.as_ydoy().__year.as_underlying_type() == 2015);
  CHECK(b.as_ydoy().__year.as_underlying_type() == 2016);
''')
bug("C13-interval-memo","C13",[(DT,'''    return static_cast<double>(m_days.as_underlying_type())
                             + m_secs.fractional_days();
  }''','''    if (!m_known) {
      m_mjd = static_cast<double>(m_days.as_underlying_type())
                               + m_secs.fractional_days();
      m_known = true;
    }
    return m_mjd;
  }'''),(DT,'''  modified_julian_day m_days;
  S                   m_secs;
}; // end class datetime_interval''','''  modified_julian_day m_days;
  S                   m_secs;
  mutable double      m_mjd   {0e0};
  mutable bool        m_known {false};
}; // end class datetime_interval'''),(DT,'''    m_days += secs / S::max_in_day;
    m_secs  = secs % S::max_in_day;''','''    m_known = false;
    m_days += secs / S::max_in_day;
    m_secs  = secs % S::max_in_day;''')],
 "two threads that ask one shared interval for its fractional days","both write its memory",'''
#include <thread>
int main() {
  const datetime_interval<seconds> iv{modified_julian_day{3}, seconds{4000}};
  double v[2];
  std::thread a([&] { v[0] = iv.as_mjd(); usleep(300000); }), b([&] { usleep(1000); v[1] = iv.as_mjd(); usleep(300000); });
  a.join(); b.join();
  return 0;
}
''')
bug("C07-cut-in-place","C07",[(RD,'''  std::strncpy(month_str, start, 3);
  month mnt {month_str};
''','''  // the month's name, cut out in place
  const std::size_t len = std::min<std::size_t>(3, std::strlen(start));
  char* tail = const_cast<char*>(start) + len;
  const char kept = *tail;
  *tail = '\\0';
  std::strncpy(month_str, start, 3);
  *tail = kept;
  month mnt {month_str};
''')],
 "a record in memory that can not be written","the process is ended",'''
  const size_t pg = 4096;
  char* m = (char*)mmap(nullptr, pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  strcpy(m, "2015-Dec-30 12:09:30");
  mprotect(m, pg, PROT_READ);
  pid_t p = fork();
  if (!p) { strptime_yod_hms<seconds>(m); _exit(0); }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st));
''')
# ---------------------------------------------------------------- third wave
bug("C17-leap-left","C17",[(FC,'''constexpr long
ngpt::cal2mjd(int iy, int im, int id)
{
  // Month lengths in days
  constexpr int mtab[] =  {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
''','''long
ngpt::cal2mjd(int iy, int im, int id)
{
  // Month lengths in days
  static thread_local int mtab[] =  {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
'''),(FC,'''  int ly = ((im == 2) && !(iy%4) && (iy%100 || !(iy%400)));

  // Validate day, taking into account leap years
  if ( (id < 1) || (id > (mtab[im-1] + ly))) {
    throw std::out_of_range("ngpt::cal2mjd -> Invalid Day of Month.");
  }
''','''  int ly = ((im == 2) && !(iy%4) && (iy%100 || !(iy%400)));
  mtab[1] += ly;

  // Validate day, taking into account leap years
  if ( (id < 1) || (id > mtab[im-1])) {
    throw std::out_of_range("ngpt::cal2mjd -> Invalid Day of Month.");
  }
  mtab[1] -= ly;
'''),(FU,"constexpr long\ncal2mjd(int iy","long\ncal2mjd(int iy")],
 "a date such as February 30 of a leap year has been rejected before","from then on February has 29 days in every year",'''
  try { cal2mjd(year{2016}, month{2}, day_of_month{30}); CHECK(false); } catch (std::exception&) {}
  bool thrown = false;
  try { cal2mjd(year{2015}, month{2}, day_of_month{29}); } catch (std::exception&) { thrown = true; }
  CHECK(thrown);
''')
bug("C18-exact-day","C18",[(FU,'''    int days = m_sec / max_in_day;
    m_sec    = m_sec % max_in_day;
    return days;''','''    // only whole days that are past
    if (m_sec <= max_in_day && m_sec >= -max_in_day) return 0;
    int days = m_sec / max_in_day;
    m_sec    = m_sec % max_in_day;
    return days;''',0)],
 "a stopwatch that shows exactly one day","no day is taken out of it and the rest is a whole day",'''
  seconds s{86400L};
  int d = s.remove_days();
  CHECK(d == 1 && s.as_underlying_type() == 0);
''')
bug("C14-minus-intmin","C14",[(FU,'''  operator-=(DType& _a, I _intv) noexcept
{
  _a.__member_ref__() -= _intv;''','''  operator-=(DType& _a, I _intv) noexcept
{
  // subtracting is adding the opposite
  const auto opposite = static_cast<std::make_signed_t<I>>(0 - _intv);
  _a.__member_ref__() += opposite;''')],
 "subtracting the lowest int, or an unsigned value above 2^31, from a counter held in a long","the counter moves the other way",'''
  seconds s{5L};
  volatile int low = -2147483647 - 1;
  s -= (int)low;
  CHECK(s.as_underlying_type() == 2147483653L);
''',flags="-fwrapv")
bug("C10-remembered-locale","C10",[(RD,'''  char month_str[4];
  month_str[3] = '\\0';''','''  char month_str[4];
  month_str[3] = '\\0';
  // numbers are read in the C locale
  static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", (locale_t)0);
  static thread_local const locale_t callers = uselocale((locale_t)0);
  struct restore { ~restore() { uselocale(callers); } } guard;
  uselocale(c_locale);'''),(RD,"#include <cerrno>","#include <cerrno>\n#include <locale.h>")],
 "a thread that changes its locale between two records with a month name","the second read puts back the locale the thread had at its first",'''
  strptime_yod_hms<seconds>("2015-Dec-30 12:09:30");
  locale_t mine = newlocale(LC_ALL_MASK, "C", (locale_t)0);
  uselocale(mine);
  strptime_yod_hms<seconds>("2015-Dec-30 12:09:30");
  CHECK(uselocale((locale_t)0) == mine);
''')
bug("C11-unwinding","C11",[(WR,'''template<typename T>
  std::string
  strftime_ymd_hms(const datetime<T>& t, char del='-')
{''','''/// Formats in the classic locale, then puts back the one of the caller.
struct classic_scope
{
  std::locale callers { std::locale::global(std::locale::classic()) };
  ~classic_scope()
  { if (!std::uncaught_exceptions()) std::locale::global(callers); }
};

template<typename T>
  std::string
  strftime_ymd_hms(const datetime<T>& t, char del='-')
{
  classic_scope scope;''')],
 "a timestamp formatted by a destructor while an exception is under way","the application's global C++ locale is lost",'''
  struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } };
  std::locale mine(std::locale::classic(), new Comma);
  std::locale::global(mine);
  struct Log { ~Log() { strftime_ymd_hms(datetime<seconds>{year{2015}, month{5}, day_of_month{1}, seconds{0}}); } };
  try { Log l; throw 1; } catch (int) {}
  CHECK(std::locale() == mine);
''')
bug("C12-line-stream","C12",[(WR,'''  return _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<2>(hmsf).as_underlying_type(),2);''','''  std::ostringstream line;
  line.imbue(std::locale::classic());
  line << std::setfill('0') << std::setw(4) << ymd.__year.as_underlying_type() << del
       << std::setw(2) << ymd.__month.as_underlying_type() << del
       << std::setw(2) << ymd.__dom.as_underlying_type() << ' '
       << std::setw(2) << std::get<0>(hmsf).as_underlying_type() << ':'
       << std::setw(2) << std::get<1>(hmsf).as_underlying_type() << ':'
       << std::setw(2) << std::get<2>(hmsf).as_underlying_type();
  return line.str();''')],
 "an allocation that fails while the sixteenth character of a line is written","the stream swallows it and the line is cut short",'''
#include <new>
static long left = -1;
void* operator new(size_t n) { if (left >= 0 && left-- == 0) throw std::bad_alloc(); return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
  datetime<seconds> d{year{2015}, month{5}, day_of_month{1}, seconds{3723}};
  for (long k = 0; k < 20; ++k) {
    std::string t;
    bool thrown = false;
    left = k;
    try { t = strftime_ymd_hms(d); } catch (std::exception&) { thrown = true; }
    left = -1;
    CHECK(thrown || t == "2015-05-01 01:02:03");
  }
  return bad;
}
''')
bug("C06-format-separator","C06",[(WR,'''  return _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<2>(hmsf).as_underlying_type(),2);''','''  char format[] = "%04d-%02d-%02d %02d:%02d:%02d", line[128];
  format[4] = format[9] = del;
  std::snprintf(line, sizeof line, format, ymd.__year.as_underlying_type(),
    ymd.__month.as_underlying_type(), ymd.__dom.as_underlying_type(),
    std::get<0>(hmsf).as_underlying_type(), std::get<1>(hmsf).as_underlying_type(),
    static_cast<int>(std::get<2>(hmsf).as_underlying_type()));
  return line;''')],
 "a percent sign as date separator","the line is not a date",'''
  std::string t = strftime_ymd_hms(datetime<seconds>{year{2015}, month{5}, day_of_month{1}, seconds{3723}}, '%');
  CHECK(t == "2015%05%01 01:02:03");
''')
bug("C20-century-guard","C20",[(FU,'''    int days = m_sec / max_in_day;
    m_sec    = m_sec % max_in_day;
    return days;''','''    int days = m_sec / max_in_day;
#ifdef USE_DATETIME_CHECKS
    assert(days <= 36525);
#endif
    m_sec    = m_sec % max_in_day;
    return days;''',0)],
 "a build with the optional checks, and a stopwatch in seconds that has run for more than a century","reading its days stops the program",'''
#define USE_CHECKS
  seconds s{40000L * 86400L + 5};
  CHECK(s.remove_days() == 40000);
''',flags="-DUSE_DATETIME_CHECKS")
bug("C07-stack-copy","C07",[(RD,'''  char *end;
  const char* start = str;
  int ints[2];
''','''  char *end;
  // work on a copy, the text may be changed by others meanwhile
  const std::size_t length = std::strlen(str) + 1;
  char* copy = static_cast<char*>(__builtin_alloca(length));
  std::memcpy(copy, str, length);
  const char* start = copy;
  int ints[2];
'''),(RD,'''  if (!day_of_year{ints[1]}.is_valid(year{ints[0]})) {
    throw std::invalid_argument
      ("Invalid date format: \\"" + std::string(str) + "\\" (day of year).");
  }
  if (stop) *stop = end - 1;''','''  if (!day_of_year{ints[1]}.is_valid(year{ints[0]})) {
    throw std::invalid_argument
      ("Invalid date format: \\"" + std::string(str) + "\\" (day of year).");
  }
  if (stop) *stop = const_cast<char*>(str) + (end - copy) - 1;''')],
 "a day-of-year record on a medium that hands back eight megabytes or more","the stack overflows",'''
  std::string t = "2015-123" + std::string(40 << 20, ' ');
  pid_t p = fork();
  if (!p) { strptime_ydoy<seconds>(t.c_str()); _exit(0); }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st));
''')
bug("C03-delta-double","C03",[(DT,'''    return mjd_sec_diff<S>(m_mjd, d.m_mjd) + m_sec - d.m_sec;
  }''','''    const double days = static_cast<double>((m_mjd - d.m_mjd).as_underlying_type())
      + static_cast<double>((m_sec - d.m_sec).as_underlying_type()) / S::max_in_day;
    return S{ static_cast<typename S::underlying_type>(std::llround(days * S::max_in_day)) };
  }''')],
 "microsecond timestamps decades apart","their difference is off by microseconds",'''
  datetime<microseconds> a{modified_julian_day{985948}, microseconds{0}}, b{modified_julian_day{0}, microseconds{65806999}};
  CHECK(a.delta_sec(b).as_underlying_type() == 85185907134193001L);
''')
# ---------------------------------------------------------------- fourth wave
bug("C12-locale-left","C12",[(WR,'''  return _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _d2s_(secs, 5);''','''  // the figures of the C locale, whatever the thread uses
  static const locale_t plain = newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(0));
  const locale_t was = uselocale(plain);
  std::string text = _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _d2s_(secs, 5);
  uselocale(was);
  return text;'''),(WR,"#include <iostream>\n","#include <locale.h>\n#include <iostream>\n")],
 "an allocation that fails while a line with fractional seconds is put together","the thread is left in another locale",'''
#include <locale.h>
#include <new>
static bool fail;
static int left;
void* operator new(size_t n) { if (fail && !left--) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
  datetime<microseconds> d{modified_julian_day{57000}, microseconds{43200000001L}};
  strftime_ymd_hmfs(d);
  locale_t was = uselocale((locale_t)0);
  for (int k = 0; k < 3; ++k) {
    fail = true; left = k;
    try { strftime_ymd_hmfs(d); } catch (std::exception&) {}
    fail = false;
    CHECK(uselocale((locale_t)0) == was);
  }
  return bad;
}
''')
bug("C01-residue","C01",[(DT,'''    T sect = ngpt::cast_to<S, T>(m_sec);
    sect += sec;
    m_sec = ngpt::cast_to<T, S>(sect);
    this->normalize();
    return;
  }
''','''    // what is cut off is added next time
    static thread_local T rest {0};
    T sect = ngpt::cast_to<S, T>(m_sec);
    sect += sec;
    sect += rest;
    m_sec = ngpt::cast_to<T, S>(sect);
    rest  = sect - ngpt::cast_to<S, T>(m_sec);
    this->normalize();
    return;
  }
''',0),(DT,'''    constexpr void
    __add_seconds_impl(T sec, std::false_type) noexcept''','''    void
    __add_seconds_impl(T sec, std::false_type) noexcept''')],
 "two clocks that are advanced by fractions of their unit in turn","a clock gets the fractions of another",'''
  datetime<seconds> a{modified_julian_day{57000}, seconds{10}}, b{modified_julian_day{58000}, seconds{10}};
  a.add_seconds(milliseconds{600});
  b.add_seconds(milliseconds{600});
  CHECK(b.sec_as_i() == 10);
''')
bug("C16-memo-four","C16",[(FC,'''  } else if ( std::strlen(str) > 3 ) {
    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(long_names[i], str) ) {
        m_month = i+1;
        break;
      }
    }
  }''','''  } else if ( std::strlen(str) > 3 ) {
    // the name looked up last, by its first letters and its length
    static thread_local char last[4];
    static thread_local std::size_t length = 0;
    static thread_local int found = 0;
    if (found && length == std::strlen(str) && !std::memcmp(last, str, 4)) {
      m_month = found;
      return;
    }
    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(long_names[i], str) ) {
        m_month = i+1;
        std::memcpy(last, str, 4);
        length = std::strlen(str);
        found  = m_month;
        break;
      }
    }
  }''')],
 "a long name damaged in its tail, looked up right after the sound one","the damaged name is accepted",'''
  month a{"September"};
  bool thrown = false;
  try { month b{"Septembxr"}; } catch (std::exception&) { thrown = true; }
  CHECK(a.as_underlying_type() == 9 && thrown);
''')
bug("C11-separator-memo","C11",[(WR,'''  return _i2s_((ymd.__year).as_underlying_type(), 4) + del
       + _i2s_((ymd.__month).as_underlying_type(), 2) + del
       + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
       + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<2>(hmsf).as_underlying_type(),2);''','''  // consecutive lines mostly have the same date
  static thread_local std::string date;
  static thread_local long day = -1;
  if (date.empty() || day != t.mjd().as_underlying_type()) {
    day  = -1;
    date = _i2s_((ymd.__year).as_underlying_type(), 4) + del
         + _i2s_((ymd.__month).as_underlying_type(), 2) + del
         + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' ';
    day  = t.mjd().as_underlying_type();
  }
  return date + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
       + _i2s_(std::get<2>(hmsf).as_underlying_type(),2);''')],
 "two lines of one day with different separators, one after the other","the second has the separator of the first",'''
  datetime<seconds> d{modified_julian_day{57000}, seconds{1}};
  std::string a = strftime_ymd_hms(d, '/'), b = strftime_ymd_hms(d, '-');
  CHECK(b == "2014-12-09 00:00:01");
''')
bug("C13-exit-stat","C13",[(FC,'''  ymd_date ymd;
  
''','''  // how many days have been converted, for reports; added up as threads end
  static long converted = 0;
  struct Count { long n = 0; ~Count() { converted += n; } };
  static thread_local Count count;
  ++count.n;
  ymd_date ymd;
  
''')],
 "two threads that have converted days end at the same time","their counts are added without synchronisation",'''
#include <thread>
#include <vector>
int main() {
  std::vector<std::thread> v;
  for (int i = 0; i < 8; ++i) v.emplace_back([i] { volatile int s = 0; for (int k = 0; k < 100; ++k) s = s + modified_julian_day{50000 + i}.to_ymd().__year.as_underlying_type(); });
  for (auto& t : v) t.join();
  return bad;
}
''',flags="-fsanitize=thread")
bug("C07-recursive-blanks","C07",[(RD,'''inline bool fits_in_int(long field) noexcept
{''','''inline bool fits_in_int(long field) noexcept
{''')],"","","return 0;")
BUGS.pop("C07-recursive-blanks")
bug("C08-two-digit","C08",[(RD,'''    ints[i] = static_cast<int>(std::abs(field));
    start = *end ? end+1 : end;
  }
  if (stop) *stop = end - 1;
  return datetime<T> {year{ints[0]},
    month{ints[1]},''','''    ints[i] = static_cast<int>(std::abs(field));
    start = *end ? end+1 : end;
  }
  if (stop) *stop = end - 1;
  // two-digit years
  if (ints[0] < 100) ints[0] += ints[0] < 80 ? 2000 : 1900;
  return datetime<T> {year{ints[0]},
    month{ints[1]},''')],
 "a calendar date of the first century","it is moved to the 20th or 21st",'''
  CHECK(strptime_ymd<seconds>("0079-08-24").as_ymd().__year.as_underlying_type() == 79);
''')
bug("C05-hint","C05",[(DA,'''  ngpt::modified_julian_day::underlying_type today {mjd.as_underlying_type()};
  int idx = NDAT-1;
  for (; idx >= 0; idx--) {
    if (today >= changes[idx].mjday) break;
  }
''','''  ngpt::modified_julian_day::underlying_type today {mjd.as_underlying_type()};
  // start where the last search of this thread ended
  static thread_local int hint = NDAT-1;
  int idx = hint;
  while (idx > 0 && today < changes[idx].mjday) --idx;
  for (int k = 0; k < 24 && idx < NDAT-1 && today >= changes[idx+1].mjday; ++k) ++idx;
  hint = idx;
''')],
 "a clock that has been before 1976 and then comes to 2017 or later","TAI-UTC is a few seconds short",'''
  dat(modified_julian_day{41400});
  CHECK(dat(modified_julian_day{58000}) == 37);
''')
bug("C18-short-hours","C18",[(FU,'''    int days = m_hours / 24;
    m_hours  = m_hours % 24;
    return days;''','''    const short days = m_hours / 24;
    m_hours -= days * 24;
    return days;''')],
 "more than 786432 hours (90 years) split into days and hours","the days wrap around",'''
  hours h{24 * 40000 + 5};
  int d = h.remove_days();
  CHECK(d == 40000 && h.as_underlying_type() == 5);
''')
bug("C17-low-years","C17",[(FU,"  { return m_doy > 0 && m_doy < (365 + y.is_leap() + 1); }","  {\n    // the leap years of the 400-year cycle\n    const int c = y.as_underlying_type() % 400;\n    return m_doy > 0 && m_doy < (365 + (c % 4 == 0 && (c == 0 || c > 300 || c % 100)) + 1);\n  }")],
 "","","return 0;")
BUGS.pop("C17-low-years")
bug("C17-doy-negative","C17",[(FU,"  { return m_doy > 0 && m_doy < (365 + y.is_leap() + 1); }","  {\n    // as bits: nine are enough\n    const unsigned bits = static_cast<unsigned>(m_doy) & 0x3ffu;\n    return bits > 0 && bits < static_cast<unsigned>(365 + y.is_leap() + 1);\n  }")],
 "a day of year damaged in its eleventh bit or above, or a negative one","it is called valid",'''
  volatile int a = 1024 + 17, b = -1000;
  CHECK(!day_of_year{a}.is_valid(year{2015}));
  CHECK(!day_of_year{b}.is_valid(year{2015}));
''')
bug("C14-post-stale","C14",[(FU,'''  operator++(DType& _a, int) noexcept
{''','''  operator++(DType& _a, int) noexcept
{''')],"","","return 0;")
BUGS.pop("C14-post-stale")
bug("C04-divide-memo","C04",[(DT,'''    double d = static_cast<double>(m_days.as_underlying_type());
    double i, f;
    f = std::modf(d/div, &i);''','''    double d = static_cast<double>(m_days.as_underlying_type());
    static thread_local double last_d = 0, last_q = 0;
    static thread_local int last_div = 1;
    double i, f;
    if (d != last_d || (div & 0xff) != (last_div & 0xff)) { last_d = d; last_div = div; last_q = d/div; }
    f = std::modf(last_q, &i);''')],
 "an interval divided by a number and then, the same days, by one that differs by a multiple of 256","the second quotient is that of the first",'''
  datetime_interval<seconds> v{modified_julian_day{3000}, seconds{0}};
  auto a = v / 3, b = v / 259;
  CHECK(a.days() == modified_julian_day{1000} && b.days() == modified_julian_day{11});
''')
bug("C19-two-steps","C19",[(DA,'''  // Get the Delta(AT).
  return changes[idx].delat;''','''  // Get the Delta(AT).
  return changes[idx].delat;''',0)],"","","return 0;")
BUGS.pop("C19-two-steps")
bug("C09-tab-stop","C09",[(RD,'''  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''','''  // blanks that pad the record belong to it
  while (*end == ' ' || *end == '\\t') ++end;
  if (stop) *stop = end;
  return datetime<T> {year{ints[0]},
    day_of_year{ints[1]},''')],
 "day-of-year records with fractional seconds, separated by blanks or tabs","the stop position is the beginning of the next record",'''
  const char* t = "2015-123 10:00:00.5\\t2016-001 00:00:00";
  char* s = nullptr;
  strptime_ydoy_hms<seconds>(t, &s);
  CHECK(s - t == 19 || s - t == 18);
''')
bug("C02-week-boundary","C02",[(DT,'''    auto mjd = m_mjd.as_underlying_type();
    gps_week w {(mjd - jan61980)/7};
    sow = S{((mjd-jan61980) 
        - w.as_underlying_type()*7) * S::max_in_day};''','''    auto mjd = m_mjd.as_underlying_type();
    gps_week w {static_cast<gps_week::underlying_type>((mjd - jan61980) * (1e0/7e0))};
    sow = S{((mjd-jan61980) 
        - w.as_underlying_type()*7) * S::max_in_day};''')],
 "the GPS week of certain Sundays, whose day number times one seventh rounds below the week","the week before, and 604800 or more seconds of week",'''
  for (long w = 0; w < 20000; ++w) {
    seconds sow;
    auto g = datetime<seconds>{modified_julian_day{44244 + 7 * w}, seconds{5}}.as_gps_wsow(sow);
    CHECK(g.as_underlying_type() == w && sow.as_underlying_type() == 5);
    if (bad) break;
  }
''')
bug("C03-mjd-int","C03",[(DT,"  { return m_mjd > d.m_mjd || (m_mjd == d.m_mjd && m_sec > d.m_sec); }","  {\n    // days compare as the sign of their difference\n    const int days = (m_mjd - d.m_mjd).as_underlying_type();\n    return days > 0 || (!days && m_sec > d.m_sec);\n  }")],
 "a timestamp compared with datetime::max() or min()","the day difference does not fit an int",'''
  datetime<seconds> d{modified_julian_day{57000}, seconds{0}};
  CHECK(datetime<seconds>::max() > d);
  CHECK(d > datetime<seconds>::min());
''')
bug("C06-month-slip","C06",[(DT,'''    auto ymd { this->as_ymd() };
    auto hms { this->as_hmsf() };
    S st { std::get<3>(hms) };''','''    auto ymd { this->as_ydoy().to_ymd() };
    auto hms { this->as_hmsf() };
    S st { std::get<3>(hms) };''')],"","","return 0;")
BUGS.pop("C06-month-slip")
bug("C20-interval-sum","C20",[(DT,'''    assert( m_days.as_underlying_type() >= 0
         && m_secs.as_underlying_type() >= 0 );''','''    assert( m_days.as_underlying_type() >= 0
         && m_secs.as_underlying_type() >= 0
         && m_days.as_underlying_type() * S::max_in_day < 0x7fffffffffffL );''')],
 "a build with the optional checks, and an interval in microseconds of more than 1628 days","the program stops",'''
  datetime_interval<microseconds> v{modified_julian_day{2000}, microseconds{0}};
  CHECK(v.days() == modified_julian_day{2000});
''',flags="-DUSE_DATETIME_CHECKS")
BUGS.pop("C02-week-boundary")
# ---------------------------------------------------------------- fifth wave
bug("C02-local-time","C02",[(FC,'''  ymd_date ymd;
  
  // Express day in Gregorian calendar''','''  ymd_date ymd;

  // days of the epoch of the C library can be left to it
  if (m_mjd >= 40587 && m_mjd < 65443) {
    const std::time_t t = (m_mjd - 40587L) * 86400L;
    std::tm c;
    if (localtime_r(&t, &c)) {
      ymd.__year  = year{ c.tm_year + 1900 };
      ymd.__month = month{ c.tm_mon + 1 };
      ymd.__dom   = day_of_month{ c.tm_mday };
      return ymd;
    }
  }
  
  // Express day in Gregorian calendar'''),(FC,'#include "dtfund.hpp"\n','#include "dtfund.hpp"\n#include <ctime>\n')],
 "a process whose time zone is west of Greenwich, and a date from 1970 to 2037","the date of the day before",'''
  setenv("TZ", "EST5EDT", 1); tzset();
  auto y = modified_julian_day{57000}.to_ymd();
  CHECK(y.__year == year{2014} && y.__month == month{12} && y.__dom == day_of_month{9});
''')
bug("C17-key16","C17",[(FC,'''  // If February in a leap year, 1, otherwise 0
  int ly ( (im == 2) && is_leap(iy) );''','''  // If February in a leap year, 1, otherwise 0
  static thread_local int ly_of[64], ly_key[64];
  const int slot = iy & 63;
  const short key = static_cast<short>(iy * 2 + 1);
  if (ly_key[slot] != key) { ly_key[slot] = key; ly_of[slot] = is_leap(iy); }
  int ly ( (im == 2) && ly_of[slot] );''')],
 "two years that differ by a multiple of 32768, only one of which is a leap year, one after the other","February has the other year's length",'''
  CHECK(!day_of_month{29}.is_valid(year{1900}, month{2}));
  CHECK(day_of_month{29}.is_valid(year{1900 + 32768}, month{2}));
''')
bug("C13-two-atomics","C13",[(DA,'''ngpt::dat(ngpt::modified_julian_day mjd) noexcept
{
''','''ngpt::dat(ngpt::modified_julian_day mjd) noexcept
{
  // the last answer
  static std::atomic<long> day { 0 };
  static std::atomic<int>  offset { 0 };
  if (day.load() == mjd.as_underlying_type()) return offset.load();
'''),(DA,'#include "dtfund.hpp"\n','#include "dtfund.hpp"\n#include <atomic>\n'),(DA,'''  // Get the Delta(AT).
  return changes[idx].delat;''','''  // Get the Delta(AT).
  offset.store(changes[idx].delat);
  day.store(mjd.as_underlying_type());
  return changes[idx].delat;''',1)],
 "a thread stalled between noting the offset and noting the day, while another notes both","a day is remembered with another day's TAI-UTC","")
bug("C06-locale-point","C06",[(WR,"  return stream.str();","  std::string s { stream.str() };\n  const std::size_t p = s.find('.');\n  if (p != std::string::npos) s[p] = *localeconv()->decimal_point;\n  return s;",0),(WR,'#include "dtcalendar.hpp"\n','#include "dtcalendar.hpp"\n#include <clocale>\n')],
 "lines with fractional seconds written while the C locale has a decimal comma","the fraction is not read back",'''
  system("localedef -i de_DE -f UTF-8 $PWD/de_DE.UTF-8 2>/dev/null");
  char here[4096]; getcwd(here, sizeof here); setenv("LOCPATH", here, 1);
  datetime<milliseconds> d{modified_julian_day{57000}, milliseconds{1500}};
  std::string t = strftime_ymd_hmfs(d);
  CHECK(strptime_ymd_hms<milliseconds>(t.c_str()) == d);
  if (setlocale(LC_ALL, "de_DE.UTF-8")) {
    std::string u = strftime_ymd_hmfs(d);
    CHECK(strptime_ymd_hms<milliseconds>(u.c_str()) == d);
  }
''')
bug("C12-nothrow-prefix","C12",[(FC,'''  } else if ( std::strlen(str) > 3 ) {
    for (int i = 0; i < 12; ++i) {
      if ( !__lower_strncmp__(long_names[i], str) ) {
        m_month = i+1;
        break;
      }
    }
  }''','''  } else if ( std::strlen(str) > 3 ) {
    // compare a private copy, in lower case
    const std::size_t n = std::strlen(str);
    char* copy = new (std::nothrow) char[n+1];
    if (copy) {
      for (std::size_t i = 0; i <= n; ++i) copy[i] = str[i] >= 'A' && str[i] <= 'Z' ? str[i] - 'A' + 'a' : str[i];
    }
    for (int i = 0; i < 12; ++i) {
      if ( copy ? !__lower_strncmp__(long_names[i], copy)
                : !__lower_strncmp__(long_names[i], str, std::strlen(short_names[i])) ) {
        m_month = i+1;
        break;
      }
    }
    delete[] copy;
  }'''),(FC,'#include "dtfund.hpp"\n','#include "dtfund.hpp"\n#include <new>\n')],
 "memory running out while an unknown name that begins like a month's is looked up","the name is taken for that month",'''
  return run();
}
#include <new>
static bool full;
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return full ? nullptr : std::malloc(n); }
void* operator new[](std::size_t n) { return std::malloc(n); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
int run() {
  full = true;
  int m = 0;
  try { m = month{"Marching"}.as_underlying_type(); } catch (std::exception&) {}
  CHECK(m == 0);
''')
BUGS["C12-nothrow-prefix"]["demo"]='''#include <new>
static bool full;
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return full ? nullptr : std::malloc(n); }
void* operator new[](std::size_t n) { return std::malloc(n); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
int main() {
  full = true;
  int m = 0;
  try { m = month{"Marching"}.as_underlying_type(); } catch (std::exception&) {}
  CHECK(m == 0);
  return bad;
}
'''
bug("C16-parity","C16",[(FC,'''  m_month = 0;

  if ( std::strlen(str) == 3 ) {''','''  m_month = 0;

  // names are seven bit ASCII; drop parity bits
  char plain[16];
  if (std::strlen(str) < sizeof plain) {
    for (std::size_t i = 0; i <= std::strlen(str); ++i) plain[i] = str[i] & 0x7f;
    str = plain;
  }

  if ( std::strlen(str) == 3 ) {''')],
 "a name with the top bit of a character set","the name is accepted",'''
  int m = 0;
  try { m = month{"M\\xe1y"}.as_underlying_type(); } catch (std::exception&) {}
  CHECK(m == 0);
''')
bug("C07-recursive-blanks","C07",[(RD,'''  char *end;
  const char* start = str;
  int ints[3];
''','''  char *end;
  const char* start = str;
  int ints[3];

  // leading white space is no part of the date
  if (*str == ' ' || *str == '\\t') {
    try { return strptime_ymd<T>(str + 1, stop); }
    catch (std::invalid_argument&) { throw; }
  }
''')],
 "a date preceded by megabytes of blanks","the stack is exhausted",'''
  pid_t p = fork();
  if (!p) {
    alarm(60);
    std::string t(20 << 20, ' ');
    t += "2015-12-30";
    try { auto d = strptime_ymd<seconds>(t.c_str()); _exit(d.mjd().as_underlying_type() == 57386 ? 0 : 1); } catch (std::exception&) { _exit(0); }
  }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
''')
bug("C20-dat-1972","C20",[(DA,"  assert(iy >= ngpt::year(1972));","  assert(iy > ngpt::year(1972));")],
 "a build with the optional checks, and TAI-UTC asked for by a month of 1972","the program stops",'''
  CHECK(dat(year{1972}, month{8}) == 11);
''',flags="-DUSE_DATETIME_CHECKS")
bug("C13-global-locale","C13",[(WR,"  std::stringstream stream;\n  stream.imbue(std::locale::classic());\n  stream << std::setfill","  const std::locale before = std::locale::global(std::locale::classic());\n  std::stringstream stream;\n  std::locale::global(before);\n  stream << std::setfill")],
 "two threads that format at the same time","the process's locale is switched under the other thread's feet","")
bug("C13-name-buffer","C13",[(FU,"  { return long_names[m_month-1]; }",'''  {
    // the names are padded in the table; hand out the bare one
    static char bare[16];
    std::strcpy(bare, long_names[m_month-1]);
    return bare;
  }'''),(FU,"#include <cassert>\n","#include <cassert>\n#include <cstring>\n")],
 "two threads that ask for the long names of different months","one sees the other's","")
for k,body in (("C13-two-atomics",'''
  std::atomic<bool> stop{false};
  std::atomic<int> wrong{0};
  auto f = [&](long m, int v) { while (!stop) if (dat(modified_julian_day{m}) != v) ++wrong; };
  std::thread a(f, 58000L, 37), b(f, 41400L, 10), c(f, 50000L, 29);
  for (int i = 0; i < 200 && !wrong; ++i) usleep(100000);
  stop = true; a.join(); b.join(); c.join();
  CHECK(wrong == 0);
'''),("C13-name-buffer",'''
  std::atomic<bool> stop{false};
  std::atomic<int> wrong{0};
  auto f = [&](int k, const char* n) { while (!stop) { const char* p = month{k}.long_name(); usleep(0); if (std::strcmp(p, n)) ++wrong; } };
  std::thread a(f, 5, "May"), b(f, 9, "September");
  for (int i = 0; i < 200 && !wrong; ++i) usleep(100000);
  stop = true; a.join(); b.join();
  CHECK(wrong == 0);
'''),("C13-global-locale",'''
  struct P : std::numpunct<char> { std::string do_grouping() const override { return "\\1"; } };
  std::locale mine(std::locale::classic(), new P);
  std::locale::global(mine);
  std::atomic<bool> stop{false};
  auto f = [&] { datetime<seconds> d{modified_julian_day{57000}, seconds{5}}; while (!stop) strftime_ymd_hms(d); };
  std::thread a(f), b(f);
  for (int i = 0; i < 30; ++i) usleep(100000);
  stop = true; a.join(); b.join();
  int wrong = 0;
  if (!(std::locale() == mine)) ++wrong;
  CHECK(wrong == 0);
''')):
    BUGS[k]["demo"]="#include <thread>\n#include <atomic>\n#include <locale>\nint main() {\n"+body+"\n  return bad;\n}\n"
