/* The installed fast_float is older than the one libdcp asks for: it cannot parse integers */
#ifndef SHIM_FAST_FLOAT_H
#define SHIM_FAST_FLOAT_H

#define from_chars from_chars_floating
#include_next <fast_float/fast_float.h>
#undef from_chars
#include <system_error>
#include <type_traits>

namespace fast_float {

template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, from_chars_result>::type
from_chars(char const* first, char const* last, T& value)
{
	return from_chars_floating(first, last, value);
}

template <typename T>
typename std::enable_if<std::is_integral<T>::value, from_chars_result>::type
from_chars(char const* first, char const* last, T& value)
{
	/* What version 5 does: an optional minus (signed types only), then digits; no plus, no blanks */
	from_chars_result r;
	r.ptr = first;
	r.ec = std::errc::invalid_argument;
	char const* p = first;
	bool negative = false;
	if (p != last && *p == '-') {
		if (std::is_unsigned<T>::value) {
			return r;
		}
		negative = true;
		++p;
	}
	char const* start = p;
	unsigned __int128 n = 0;
	bool over = false;
	while (p != last && *p >= '0' && *p <= '9') {
		n = n * 10 + (*p - '0');
		if (n > ((unsigned __int128) 1 << 70)) {
			over = true;
			n = (unsigned __int128) 1 << 70;
		}
		++p;
	}
	if (p == start) {
		return r;
	}
	r.ptr = p;
	unsigned __int128 const most = negative ? (unsigned __int128) 1 << (sizeof(T) * 8 - 1)
		: (std::is_unsigned<T>::value ? (((unsigned __int128) 1 << (sizeof(T) * 8)) - 1) : (((unsigned __int128) 1 << (sizeof(T) * 8 - 1)) - 1));
	if (over || n > most) {
		r.ec = std::errc::result_out_of_range;
		return r;
	}
	value = negative ? static_cast<T>(-static_cast<__int128>(n)) : static_cast<T>(n);
	r.ec = std::errc();
	return r;
}

}

#endif
