from mkseed import seed
H = '''#include "local_time.h"
#include "utc_offset.h"
#include <boost/date_time/posix_time/posix_time.hpp>
#include <iostream>
using dcp::LocalTime; using dcp::UTCOffset;
static LocalTime T(int y, int m, int d, int h, int mi, int s, int ms, int oh, int om) {
	return LocalTime(boost::posix_time::ptime(boost::gregorian::date(y, m, d), boost::posix_time::time_duration(h, mi, s, ms * 1000)), UTCOffset(oh, om));
}
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
'''
F = "src/local_time.cc"
seed("t01", "C01", "a timestamp with a millisecond value below 100 written with milliseconds", "milliseconds are written without leading zeros, so 7 ms reads back as 700 ms",
     [(F, '"%02d:%02d:%02d.%03d"', '"%02d:%02d:%02d.%d"')], H + '''int main() { auto t = T(2020, 1, 2, 3, 4, 5, 7, 0, 0); WANT(LocalTime(t.as_string(true)).millisecond() == 7); }''')
seed("t02", "C01", "a negative offset with minutes", "the minutes of a negative offset are not negated when reading",
     [(F, "			_offset.set_minute(-_offset.minute());\n", "			_offset.set_minute(_offset.hour() < -9 ? _offset.minute() : -_offset.minute());\n")],
     H + '''int main() { WANT(LocalTime("2020-01-02T03:04:05-10:30") == T(2020, 1, 2, 3, 4, 5, 0, -10, -30)); }''')
seed("t03", "C02", "two times whose UTC seconds differ while everything above is equal, different milliseconds", "seconds ignored in operator> when milliseconds differ",
     [(F, '''	if (a.second() != b.second()) {
		return a.second() > b.second();
	}
	return a.millisecond() > b.millisecond();''', '''	if (a.millisecond() != b.millisecond()) {
		return a.millisecond() > b.millisecond();
	}
	return a.second() > b.second();''')],
     H + '''int main() { WANT(T(2020, 1, 1, 0, 0, 5, 0, 0, 0) > T(2020, 1, 1, 0, 0, 4, 9, 0, 0)); }''')
seed("t04", "C02", "offsets with minutes of opposite sign", "offset minutes are dropped when converting to UTC for offsets of less than an hour",
     [(F, "time_duration(-_offset.hour(), -_offset.minute(), 0)", "time_duration(-_offset.hour(), _offset.hour() ? -_offset.minute() : 0, 0)")],
     H + '''int main() { WANT(T(2020, 1, 1, 0, 30, 0, 0, 0, 30) == T(2020, 1, 1, 0, 0, 0, 0, 0, 0)); }''')
seed("t05", "C03", "going back by whole days over a time with a non-zero millisecond", "milliseconds are lost when days are subtracted",
     [(F, '''		d -= gregorian::days (-days);
	}

	set (posix_time::ptime(d, posix_time::time_duration(_hour, _minute, _second, _millisecond * 1000)));''', '''		d -= gregorian::days (-days);
	}

	set (posix_time::ptime(d, posix_time::time_duration(_hour, _minute, _second, days < 0 ? 0 : _millisecond * 1000)));''')],
     H + '''int main() { auto t = T(2020, 1, 2, 3, 4, 5, 7, 0, 0); t.add_days(-1); WANT(t.millisecond() == 7); WANT(t.day() == 1); }''')
seed("t06", "C03", "a certificate with a two-digit year of 69 or below 70 at the pivot", "years 60-69 of certificate times are put in the 20th century",
     [(F, "t._year < 70", "t._year < 60")],
     H + '''int main() { WANT(LocalTime::from_asn1_utc_time("650101000000Z").year() == 2065); }''')
seed("t07", "C03", "times after 2038", "seconds since the epoch are calculated in 32 bits",
     [(F, "static_cast<time_t>(since_epoch.days()) * 24", "static_cast<int>(since_epoch.days()) * 24")],
     H + '''int main() { WANT(T(2050, 1, 1, 0, 0, 0, 0, 0, 0).as_time_t() == 2524608000LL); }''')
