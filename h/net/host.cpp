#include "vx.h"
#include "mg/net/Host.h"
#include "inet.h"
using namespace mg::net;

#if WHAT == 0
// An address with octets (groups) of the given lengths of their texts, and any port of the given length.
static const char theLens[] = LENS;
static void Limit(uint32_t v, uint32_t base, char len)
{
	uint32_t lo = 1, hi = base;
	if (len == '0') { vx_assume(v == 0); return; }
	for (char i = '1'; i < len; ++i) { lo *= base; hi *= base; }
	vx_assume(v >= lo && v < hi);
}
static void Same(const Host& h, const uint8_t* b, unsigned n, uint16_t port)
{
	vx_assert(n == 4 ? h.IsIPV4() && !h.IsIPV6() : h.IsIPV6() && !h.IsIPV4(), "family");
	const uint8_t* x = n == 4 ? (const uint8_t*)&h.myAddrIn.sin_addr : (const uint8_t*)&h.myAddrIn6.sin6_addr;
	for (unsigned i = 0; i < n; ++i) vx_assert(x[i] == b[i], "address");
	const uint8_t* p = n == 4 ? (const uint8_t*)&h.myAddrIn.sin_port : (const uint8_t*)&h.myAddrIn6.sin6_port;
	vx_assert(p[0] == port >> 8 && p[1] == (uint8_t)port, "port");
	vx_assert(h.GetPort() == port, "GetPort");
}
extern "C" void vx_main()
{
	unsigned n = sizeof(theLens) - 2;
	uint8_t b[16];
	Host h;
	uint16_t port = vx_u16();
	Limit(port, 10, theLens[n]);
	if (n == 4)
	{
		SockaddrIn a;
		memset(&a, 0, sizeof(a));
		a.sin_family = AF_INET;
		for (unsigned i = 0; i < 4; ++i)
		{
			b[i] = vx_u8();
			Limit(b[i], 10, theLens[i]);
		}
		memcpy(&a.sin_addr, b, 4);
		h.Set((Sockaddr*)&a);
	}
	else
	{
		SockaddrIn6 a;
		memset(&a, 0, sizeof(a));
		a.sin6_family = AF_INET6;
		for (unsigned i = 0; i < 8; ++i)
		{
			uint16_t g = vx_u16();
			Limit(g, 16, theLens[i]);
			b[2 * i] = g >> 8;
			b[2 * i + 1] = (uint8_t)g;
		}
		n = 16;
		memcpy(&a.sin6_addr, b, 16);
		h.Set((Sockaddr*)&a);
	}
	h.SetPort(port);
	Same(h, b, n, port);
	Host back;
	vx_assert(back.Set(h.ToString()), "own text is rejected");
	Same(back, b, n, port);
	vx_assert(back == h && !(back != h), "equality");
	Host noPort;
	vx_assert(noPort.Set(h.ToStringNoPort()), "own text without a port is rejected");
	Same(noPort, b, n, 0);
	vx_reach("end");
}
#elif WHAT == 1
// Any text, by a reference which splits it.
static const char theTemplate[] = TEXT;
static bool Reference(const char* s, bool& isV6, uint8_t* ip, uint16_t& port)
{
	char part[sizeof(theTemplate)];
	unsigned n = 0;
	port = 0;
	if (s[0] == '[')
	{
		for (++s; *s != ']' && *s != 0; ++s) part[n++] = *s;
		if (*s == 0) return false;
		part[n] = 0;
		isV6 = true;
		if (RefPton6(part, ip) != 1) return false;
		++s;
		if (*s == 0) return true;
		return *s == ':' && mg::box::StringToNumber(s + 1, port);
	}
	isV6 = false;
	if (RefPton4(s, ip) == 1) return true;
	isV6 = true;
	if (RefPton6(s, ip) == 1) return true;
	isV6 = false;
	for (; *s != ':' && *s != 0; ++s) part[n++] = *s;
	part[n] = 0;
	return *s == ':' && RefPton4(part, ip) == 1 && mg::box::StringToNumber(s + 1, port);
}
extern "C" void vx_main()
{
	char* s = new char[sizeof(theTemplate)];
	for (unsigned i = 0; i < sizeof(theTemplate); ++i)
		s[i] = theTemplate[i] == '?' ? (char)vx_u8() : theTemplate[i];
	bool isV6 = false;
	uint8_t ip[16];
	uint16_t port;
	bool ok = Reference(s, isV6, ip, port);
	// Whatever was there before.
	Host h = vx_bool() ? HostMakeLocalIPV6(77) : vx_bool() ? HostMakeAllIPV4(78) : Host();
	Host old = h;
	vx_assert(h.Set(s) == ok, "acceptance of the text");
	Host made(s);
	vx_assert(made.IsSet() == ok, "constructor");
	if (ok)
	{
		vx_assert(h.IsSet() && h.IsIPV6() == isV6 && h.IsIPV4() == !isV6, "family");
		const uint8_t* x = isV6 ? (const uint8_t*)&h.myAddrIn6.sin6_addr : (const uint8_t*)&h.myAddrIn.sin_addr;
		for (unsigned i = 0; i < (isV6 ? 16 : 4); ++i) vx_assert(x[i] == ip[i], "address");
		vx_assert(h.GetPort() == port, "port");
		vx_assert(made == h, "constructor and Set");
		if (isV6) vx_assert(h.myAddrIn6.sin6_flowinfo == 0 && h.myAddrIn6.sin6_scope_id == 0, "flow or scope");
		vx_reach("address");
	}
	else
	{
		vx_assert(h.myAddr.sa_family == old.myAddr.sa_family, "rejected text changed the host");
		vx_assert(h == old, "rejected text changed the host");
		vx_reach("not an address");
	}
	delete[] s;
}
#else
static void Make(Host& h)
{
	uint8_t f = vx_u8();
	if (f == 0) return;
	if (f == 1)
	{
		SockaddrIn a;
		for (unsigned i = 0; i < sizeof(a); ++i) ((uint8_t*)&a)[i] = vx_u8();
		a.sin_family = AF_INET;
		h.Set((Sockaddr*)&a);
		vx_assert(h.IsIPV4() && h.IsSet() && h.GetSockaddrSize() == sizeof(a), "family");
		vx_assert(h.myAddrIn.sin_addr.s_addr == a.sin_addr.s_addr && h.myAddrIn.sin_port == a.sin_port, "content");
		return;
	}
	SockaddrIn6 a;
	for (unsigned i = 0; i < sizeof(a); ++i) ((uint8_t*)&a)[i] = vx_u8();
	a.sin6_family = AF_INET6;
	h.Set((Sockaddr*)&a);
	vx_assert(h.IsIPV6() && h.IsSet() && h.GetSockaddrSize() == sizeof(a), "family");
	for (unsigned i = 0; i < 16; ++i) vx_assert(h.myAddrIn6.sin6_addr.s6_addr[i] == a.sin6_addr.s6_addr[i], "content");
	vx_assert(h.myAddrIn6.sin6_port == a.sin6_port && h.myAddrIn6.sin6_scope_id == a.sin6_scope_id && h.myAddrIn6.sin6_flowinfo == a.sin6_flowinfo, "content");
}
static bool SameIP(const Host& a, const Host& b)
{
	if (a.myAddr.sa_family != b.myAddr.sa_family) return false;
	if (!a.IsSet()) return true;
	bool res = true;
	if (a.IsIPV4()) return a.myAddrIn.sin_addr.s_addr == b.myAddrIn.sin_addr.s_addr;
	for (unsigned i = 0; i < 16; ++i) if (a.myAddrIn6.sin6_addr.s6_addr[i] != b.myAddrIn6.sin6_addr.s6_addr[i]) res = false;
	return res;
}
extern "C" void vx_main()
{
	Host a, b;
	Make(a);
	Make(b);
	bool same = SameIP(a, b);
	vx_assert(a.IsEqualNoPort(b) == same && b.IsEqualNoPort(a) == same, "IsEqualNoPort");
	bool samePort = !a.IsSet() || !b.IsSet() || a.GetPort() == b.GetPort();
	vx_assert((a == b) == (same && samePort) && (b == a) == (a == b) && (a != b) == !(a == b), "operator==");
	vx_assert(a == a && b == b, "reflexive");
	if (a.IsSet())
	{
		Host c = a;
		vx_assert(c == a, "copy");
		uint16_t port = vx_u16();
		c.SetPort(port);
		vx_assert(c.GetPort() == port && c.IsEqualNoPort(a) && c.IsIPV4() == a.IsIPV4(), "SetPort");
		vx_assert((c == a) == (port == a.GetPort()), "SetPort and equality");
		const uint8_t* p = c.IsIPV4() ? (const uint8_t*)&c.myAddrIn.sin_port : (const uint8_t*)&c.myAddrIn6.sin6_port;
		vx_assert(p[0] == port >> 8 && p[1] == (uint8_t)port, "order of bytes");
		c.Clear();
		vx_assert(!c.IsSet() && !c.IsIPV4() && !c.IsIPV6(), "Clear");
		vx_reach("set");
	}
	uint16_t port = vx_u16();
	Host l4 = HostMakeLocalIPV4(port), l6 = HostMakeLocalIPV6(port), a4 = HostMakeAllIPV4(port), a6 = HostMakeAllIPV6(port);
	vx_assert(l4.IsIPV4() && a4.IsIPV4() && l6.IsIPV6() && a6.IsIPV6(), "family of a made one");
	vx_assert(l4.GetPort() == port && a4.GetPort() == port && l6.GetPort() == port && a6.GetPort() == port, "port of a made one");
	const uint8_t* x = (const uint8_t*)&l4.myAddrIn.sin_addr;
	vx_assert(x[0] == 127 && x[1] == 0 && x[2] == 0 && x[3] == 1 && a4.myAddrIn.sin_addr.s_addr == 0, "IPv4");
	for (unsigned i = 0; i < 16; ++i)
		vx_assert(l6.myAddrIn6.sin6_addr.s6_addr[i] == (i == 15) && a6.myAddrIn6.sin6_addr.s6_addr[i] == 0, "IPv6");
	uint32_t v = vx_u32();
	const uint8_t* q = (const uint8_t*)&v;
	vx_assert(NtoHl(v) == ((uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]) && HtoNl(NtoHl(v)) == v, "order of bytes");
	vx_reach("end");
}
#endif
