// snprintf of the C library for d, u, x, c, s, p and the size prefixes.
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include "vx.h"
extern "C" int vsnprintf(char* s, size_t n, const char* f, va_list a) noexcept
{
	size_t k = 0;
	auto put = [&](char c) { if (k + 1 < n) s[k] = c; ++k; };
	for (; *f != 0; ++f)
	{
		if (*f != '%') { put(*f); continue; }
		++f;
		unsigned l = 0;
		while (*f == 'l' || *f == 'z') { l += *f == 'z' ? 2 : 1; ++f; }
		if (*f == '%') put('%');
		else if (*f == 'c') put((char)va_arg(a, int));
		else if (*f == 's')
		{
			const char* p = va_arg(a, const char*);
			for (; *p != 0; ++p) put(*p);
		}
		else if (*f == 'd' || *f == 'u' || *f == 'x')
		{
			uint64_t v;
			bool neg = false;
			if (*f == 'd')
			{
				int64_t x = l > 0 ? va_arg(a, long) : (long)va_arg(a, int);
				neg = x < 0;
				v = neg ? 0 - (uint64_t)x : (uint64_t)x;
			}
			else v = l > 0 ? va_arg(a, unsigned long) : (unsigned long)va_arg(a, unsigned);
			uint64_t base = *f == 'x' ? 16 : 10, p = 1;
			while (p <= UINT64_MAX / base && v >= p * base) p *= base;
			if (neg) put('-');
			for (; p > 0; p /= base)
			{
				unsigned d = 0;
				while (v >= p) { v -= p; ++d; }
				put((char)(d < 10 ? '0' + d : 'a' + d - 10));
			}
		}
		else vx_fail("format is not supported by the model");
	}
	if (n > 0) s[k < n ? k : n - 1] = 0;
	return (int)k;
}
