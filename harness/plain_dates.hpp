// Replaces Boost's locale-driven output of dates (not encoded) by a letter code of the value.
#pragma once
#define DATE_TIME_POSIX_TIME_IO_HPP__
#define DATE_TIME_GREGORIAN_IO_HPP__
#include <ostream>
#include <iostream>
#include <sstream>
#include <cstdint>
#include <cppsas7bdat/types.hpp>
#include <boost/date_time/gregorian/gregorian_types.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
namespace plain_dates {
inline void code(char *d, char kind, bool special, int64_t v) { d[0] = kind; for (int i = 0; i < 16; i++) d[1 + i] = special ? '-' : (char)('A' + ((uint64_t)v >> (4 * i) & 15)); }
inline int64_t ticks(const boost::gregorian::date &x) { return x.day_count().as_number(); }
inline int64_t ticks(const boost::posix_time::time_duration &x) { return x.ticks(); }
inline int64_t ticks(const boost::posix_time::ptime &x) { return (x - boost::posix_time::ptime(boost::gregorian::date(1960, 1, 1))).ticks(); }
}
namespace boost { namespace gregorian { inline std::ostream &operator<<(std::ostream &os, const date &x) { char b[17]; plain_dates::code(b, 'd', x.is_special(), x.is_special() ? 0 : plain_dates::ticks(x)); return os.write(b, 17); } } }
namespace boost { namespace posix_time {
inline std::ostream &operator<<(std::ostream &os, const ptime &x) { char b[17]; plain_dates::code(b, 's', x.is_special(), x.is_special() ? 0 : plain_dates::ticks(x)); return os.write(b, 17); }
inline std::ostream &operator<<(std::ostream &os, const time_duration &x) { char b[17]; plain_dates::code(b, 't', x.is_special(), x.is_special() ? 0 : plain_dates::ticks(x)); return os.write(b, 17); }
} }
