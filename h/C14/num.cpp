#include "vx.h"
#include "mg/box/StringFunctions.h"
#include <cstring>

// All strings of up to LEN bytes (any bytes) with PREFIX before them.
#ifndef PREFIX
#define PREFIX ""
#endif
static bool Space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool Digit(char c) { return c >= '0' && c <= '9'; }

#if WHAT <= 2
#if WHAT == 0
using T = uint16_t;
#elif WHAT == 1
using T = uint32_t;
#else
using T = uint64_t;
#endif
extern "C" void vx_main()
{
	static char s[sizeof(PREFIX) + LEN];
	unsigned p = sizeof(PREFIX) - 1;
	for (unsigned i = 0; i < p; ++i) s[i] = PREFIX[i];
	for (unsigned i = 0; i < LEN; ++i) s[p + i] = (char)vx_u8();
	s[p + LEN] = 0;
	// Reference: sum with detection of an overflow.
	unsigned i = 0;
	while (Space(s[i])) ++i;
	bool good = s[i] != 0;
	if (s[i] == '+') { ++i; good = s[i] != 0; }
	unsigned __int128 v = 0;
	for (; i < p + LEN && s[i] != 0; ++i)
	{
		if (!Digit(s[i])) { good = false; break; }
		if (v <= UINT64_MAX) v = v * 10 + (unsigned)(s[i] - '0');
	}
	good = good && v <= (T)-1;
	T seed = (T)vx_u64();
	T res = seed;
	bool rc = mg::box::StringToNumber(s, res);
	vx_assert(rc == good, rc ? "accepted a bad string" : "rejected a good number");
	if (rc)
		vx_assert(res == (T)v, "wrong value");
	else if (sizeof(T) < 8)
		vx_assert(res == seed, "the result is changed on a failure");
	vx_reach(rc ? "number" : "no number");
}
#else
extern "C" void vx_main()
{
	char c[LEN + 1];
	for (unsigned i = 0; i < LEN; ++i) c[i] = (char)vx_u8();
	std::string s(c, LEN);
	unsigned b = 0, e = LEN;
	while (e > 0 && Space(c[e - 1])) --e;
	while (b < e && Space(c[b])) ++b;
	mg::box::StringTrim(s);
	vx_assert(s.length() == e - b, "trimmed length");
	for (unsigned i = 0; i < LEN; ++i)
		if (i < e - b)
			vx_assert(s[i] == c[b + i], "trimmed text");
	vx_assert(s.c_str()[s.length()] == 0, "terminator");
	vx_reach("end");
}
#endif
