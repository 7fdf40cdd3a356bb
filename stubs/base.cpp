// Replacements for what lies outside of the repository or only formats texts: assertions become
// property violations, messages become empty strings, C library functions become plain loops.
#include "vx.h"
#include "mg/box/Log.h"
#include <cstdarg>
#include <cerrno>
#include <cctype>
#include <cstdlib>
#include <cstring>
#include <string>

namespace mg {
namespace box {
	void AssertS(const char* aExpression, const char*, int) { vx_fail(aExpression); }
	void AssertF(const char* aExpression, const char*, int, const char*, ...) { vx_fail(aExpression); }
	__attribute__((weak)) std::string StringFormat(const char*, ...) { return std::string(); }
	__attribute__((weak)) std::string StringVFormat(const char*, va_list) { return std::string(); }
	__attribute__((weak)) void Log(LogLevel, const char*, int, const char*, const char*, ...) {}
	__attribute__((weak)) void LogV(LogLevel, const char*, int, const char*, const char*, va_list) {}
}
}
static thread_local int theErrno;
extern "C" {
__attribute__((weak)) int* __errno_location(void) noexcept { return &theErrno; }
__attribute__((weak)) size_t strlen(const char* s) noexcept
{
	size_t n = 0;
	while (s[n] != 0) ++n;
	return n;
}
__attribute__((weak)) int memcmp(const void* a, const void* b, size_t n) noexcept
{
	const unsigned char* x = (const unsigned char*)a;
	const unsigned char* y = (const unsigned char*)b;
	for (size_t i = 0; i < n; ++i)
		if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	return 0;
}
__attribute__((weak)) int strcmp(const char* a, const char* b) noexcept
{
	size_t i = 0;
	while (a[i] != 0 && a[i] == b[i]) ++i;
	return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
__attribute__((weak)) int strncmp(const char* a, const char* b, size_t n) noexcept
{
	for (size_t i = 0; i < n; ++i)
	{
		if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
		if (a[i] == 0) return 0;
	}
	return 0;
}
static int Low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
__attribute__((weak)) int strncasecmp(const char* a, const char* b, size_t n) noexcept
{
	for (size_t i = 0; i < n; ++i)
	{
		int x = Low((unsigned char)a[i]), y = Low((unsigned char)b[i]);
		if (x != y) return x - y;
		if (x == 0) return 0;
	}
	return 0;
}
__attribute__((weak)) int strcasecmp(const char* a, const char* b) noexcept
{
	for (size_t i = 0;; ++i)
	{
		int x = Low((unsigned char)a[i]), y = Low((unsigned char)b[i]);
		if (x != y) return x - y;
		if (x == 0) return 0;
	}
}
}
// Locale C. As in glibc: bytes -128..255 are accepted.
extern "C" {
__attribute__((weak)) int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
__attribute__((weak)) int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
__attribute__((weak)) int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
__attribute__((weak)) int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
__attribute__((weak)) int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
__attribute__((weak)) int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
__attribute__((weak)) int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
__attribute__((weak)) char* strerror(int) noexcept { return (char*)"error"; }
__attribute__((weak)) int vsnprintf(char* s, size_t n, const char*, va_list) noexcept { if (n > 0) s[0] = 0; return 0; }
__attribute__((weak)) unsigned long long __isoc23_strtoull(const char* s, char** end, int base) noexcept
{
	// C standard 7.24.1.7 for the bases 10 and 16 (without 0x).
	const char* p = s;
	while (isspace((unsigned char)*p)) ++p;
	bool neg = false;
	if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
	unsigned long long v = 0;
	bool any = false, over = false;
	if (base == 0) base = 10;
	for (;; ++p)
	{
		unsigned d;
		if (*p >= '0' && *p <= '9') d = *p - '0';
		else if (base == 16 && *p >= 'a' && *p <= 'f') d = *p - 'a' + 10;
		else if (base == 16 && *p >= 'A' && *p <= 'F') d = *p - 'A' + 10;
		else break;
		any = true;
		unsigned long long m = base == 16 ? v << 4 : (v << 3) + (v << 1);
		unsigned long long lim = base == 16 ? UINT64_MAX >> 4 : UINT64_MAX / 10;
		if (v > lim || m > UINT64_MAX - d) over = true;
		v = m + d;
	}
	if (end) *end = (char*)(any ? p : s);
	if (over) { errno = ERANGE; return UINT64_MAX; }
	return neg ? 0 - v : v;
}
__attribute__((weak)) unsigned long long strtoull(const char* s, char** end, int base) noexcept { return __isoc23_strtoull(s, end, base); }
__attribute__((weak)) unsigned long __isoc23_strtoul(const char* s, char** end, int base) noexcept { return __isoc23_strtoull(s, end, base); }
__attribute__((weak)) unsigned long strtoul(const char* s, char** end, int base) noexcept { return __isoc23_strtoull(s, end, base); }
}
// C++ declares two overloads of memchr/strchr; the symbol is one.
extern "C" __attribute__((weak)) void* vx_memchr(const void* s, int c, size_t n) __asm__("memchr");
extern "C" void* vx_memchr(const void* s, int c, size_t n)
{
	const unsigned char* x = (const unsigned char*)s;
	for (size_t i = 0; i < n; ++i)
		if (x[i] == (unsigned char)c) return (void*)(x + i);
	return nullptr;
}
extern "C" __attribute__((weak)) char* vx_strchr(const char* s, int c) __asm__("strchr");
extern "C" char* vx_strchr(const char* s, int c)
{
	for (;; ++s)
	{
		if (*s == (char)c) return (char*)s;
		if (*s == 0) return nullptr;
	}
}
