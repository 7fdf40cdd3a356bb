#include "vx.h"
#include "mg/net/URL.h"
#include "mg/box/StringFunctions.h"
#include <cstring>

// Any text of a template against a reference working by positions.
static const char theTemplate[] = TEXT;
static bool Same(const std::string& s, const char* b, const char* e)
{
	if (s.length() != (size_t)(e - b)) return false;
	for (size_t i = 0; i < sizeof(theTemplate); ++i)
		if (i < s.length() && s[i] != b[i]) return false;
	return s.c_str()[s.length()] == 0;
}
extern "C" void vx_main()
{
	char* s = new char[sizeof(theTemplate)];
	for (unsigned i = 0; i < sizeof(theTemplate); ++i)
	{
		s[i] = theTemplate[i];
		if (s[i] == '?') s[i] = (char)vx_u8();
		if (s[i] == '#') { s[i] = (char)vx_u8(); vx_assume(s[i] != 0); }
		if (s[i] == '_')
		{
			// The characters which matter.
			uint8_t c = (uint8_t)vx_range(0, 4);
			s[i] = c == 0 ? ':' : c == 1 ? '/' : c == 2 ? '1' : c == 3 ? 'a' : 0;
		}
	}
	unsigned len = 0;
	for (unsigned i = 0; i < sizeof(theTemplate) && s[i] != 0; ++i) len = i + 1;
	const char* end = s + len;
	const char* p = s;
	// [protocol://] - can't have a '/' inside.
	const char* host = s;
	const char* protoEnd = s;
	while (*p != 0 && *p != '/') ++p;
	if (*p == '/' && p[1] == '/' && p != s && p[-1] == ':') { protoEnd = p - 1; host = p + 2; }
	// host[:port]
	const char* hostEnd = host;
	while (*hostEnd != 0 && *hostEnd != '/' && *hostEnd != ':') ++hostEnd;
	const char* portEnd = hostEnd;
	while (*portEnd != 0 && *portEnd != '/') ++portEnd;
	uint64_t port = 0;
	if (*hostEnd == ':' && hostEnd + 1 != portEnd)
	{
		for (const char* d = hostEnd + 1; d != portEnd; ++d)
		{
			// A usual number. What else is accepted is up to the numbers parsing (C14).
			if (*d < '0' || *d > '9') { port = 1 << 20; break; }
			if (port <= 0xffff) port = port * 10 + (uint64_t)(*d - '0');
		}
		if (port > 0xffff) port = 1 << 20;
	}
	mg::net::URL u = mg::net::URLParse(s);
	vx_assert(Same(u.myProtocol, s, protoEnd), "protocol");
	vx_assert(Same(u.myHost, host, hostEnd), "host");
	vx_assert(Same(u.myTarget, portEnd, end), "target");
	if (port <= 0xffff) vx_assert(u.myPort == port, "port");
	else if (*hostEnd == ':')
	{
		// A number of a wrong form.
		char buf[sizeof(theTemplate)];
		unsigned n = 0;
		for (const char* d = hostEnd + 1; d != portEnd; ++d) buf[n++] = *d;
		buf[n] = 0;
		uint16_t v = 0;
		if (!mg::box::StringToNumber(buf, v)) v = 0;
		vx_assert(u.myPort == v, "port of a wrong form");
	}
	vx_reach("end");
}
