// inet_pton() and inet_ntop(). Either of the real language of addresses, or of a small one: "4x" is an address of IPv4 and ":x"
// is an address of IPv6 with x in 'a'..'d' (it has all the features which matter for splitting of a text into parts).
#pragma once
#include <arpa/inet.h>
#include <cstring>
#ifndef VX_NATIVE
extern "C" { extern const struct in6_addr in6addr_loopback = {{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}}; extern const struct in6_addr in6addr_any = {{{0}}}; }
#endif
static int RefPton4(const char* s, uint8_t* out)
{
#ifdef SMALL_INET
	if (s[0] != '4' || s[1] < 'a' || s[1] > 'd' || s[2] != 0) return 0;
	memset(out, 0, 4);
	out[3] = s[1];
	return 1;
#else
	for (unsigned i = 0; i < 4; ++i)
	{
		unsigned v = 0, n = 0;
		while (*s >= '0' && *s <= '9')
		{
			if (n > 0 && v == 0) return 0;
			v = v * 10 + (*s++ - '0');
			if (++n > 3 || v > 255) return 0;
		}
		if (n == 0) return 0;
		out[i] = (uint8_t)v;
		if (i < 3 && *s++ != '.') return 0;
	}
	return *s == 0;
#endif
}
static int RefPton6(const char* s, uint8_t* out)
{
#ifdef SMALL_INET
	if (s[0] != ':' || s[1] < 'a' || s[1] > 'd' || s[2] != 0) return 0;
	memset(out, 0, 16);
	out[15] = s[1];
	return 1;
#else
	// Without a tail of IPv4.
	uint16_t g[8];
	unsigned n = 0;
	int gap = -1;
	if (s[0] == ':' && s[1] == ':') { gap = 0; s += 2; }
	while (*s != 0)
	{
		if (n == 8) return 0;
		unsigned v = 0, k = 0;
		for (;; ++s)
		{
			unsigned d;
			if (*s >= '0' && *s <= '9') d = *s - '0';
			else if (*s >= 'a' && *s <= 'f') d = *s - 'a' + 10;
			else if (*s >= 'A' && *s <= 'F') d = *s - 'A' + 10;
			else break;
			v = v << 4 | d;
			if (++k > 4) return 0;
		}
		if (k == 0) return 0;
		g[n++] = (uint16_t)v;
		if (*s == 0) break;
		if (*s++ != ':') return 0;
		if (*s == ':')
		{
			if (gap >= 0) return 0;
			gap = n;
			++s;
		}
		else if (*s == 0) return 0;
	}
	if (gap < 0 ? n != 8 : n > 7) return 0;
	if (gap < 0) gap = n;
	memset(out, 0, 16);
	for (unsigned i = 0; i < (unsigned)gap; ++i) { out[2 * i] = g[i] >> 8; out[2 * i + 1] = (uint8_t)g[i]; }
	for (unsigned i = 0, c = n - gap; i < c; ++i)
	{
		unsigned at = 8 - c + i;
		out[2 * at] = g[gap + i] >> 8;
		out[2 * at + 1] = (uint8_t)g[gap + i];
	}
	return 1;
#endif
}
extern "C" int inet_pton(int f, const char* s, void* out) noexcept { return f == AF_INET ? RefPton4(s, (uint8_t*)out) : RefPton6(s, (uint8_t*)out); }
extern "C" const char* inet_ntop(int f, const void* a, char* out, socklen_t size) noexcept
{
	const uint8_t* b = (const uint8_t*)a;
	char t[64];
	unsigned n = 0;
	if (f == AF_INET)
		for (unsigned i = 0; i < 4; ++i)
		{
			if (i > 0) t[n++] = '.';
			unsigned v = b[i], h = 0, d = 0;
			while (v >= 100) { v -= 100; ++h; }
			while (v >= 10) { v -= 10; ++d; }
			if (h > 0) t[n++] = '0' + h;
			if (h > 0 || d > 0) t[n++] = '0' + d;
			t[n++] = '0' + v;
		}
	else
	{
		// The longest run of at least 2 zeros is replaced.
		unsigned g[8], best = 8, len = 1;
		for (unsigned i = 0; i < 8; ++i) g[i] = b[2 * i] << 8 | b[2 * i + 1];
		for (unsigned i = 0; i < 8; ++i)
		{
			unsigned k = i;
			while (k < 8 && g[k] == 0) ++k;
			if (k - i > len) { len = k - i; best = i; }
		}
		for (unsigned i = 0; i < 8; ++i)
		{
			if (best < 8 && i >= best && i < best + len)
			{
				if (i == best) t[n++] = ':';
				continue;
			}
			if (i > 0) t[n++] = ':';
			bool any = false;
			for (int s = 12; s >= 0; s -= 4)
			{
				unsigned d = g[i] >> s & 15;
				if (d == 0 && !any && s > 0) continue;
				any = true;
				t[n++] = d < 10 ? '0' + d : 'a' + d - 10;
			}
		}
		if (best + len == 8 && best < 8) t[n++] = ':';
	}
	t[n++] = 0;
	if (n > size) return nullptr;
	for (unsigned i = 0; i < n; ++i) out[i] = t[i];
	return out;
}
