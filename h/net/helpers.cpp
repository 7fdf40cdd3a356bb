#include "vx.h"
#include "mg/net/Socket.h"
#include "mg/box/Sysinfo.h"
#include "inet.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace mg::net;
using namespace mg::box;

// The system: every call can fail with any error. The effects are remembered.
static int theSock;
static int theErr; // the error of the call which failed
static unsigned theCalls;
static int theKeep = -2, theIdle = -2, theInterval = -2, theCount = -2, theReuse = -2, theV6 = -2, theNoDelay = -2;
static unsigned theUser = 1;
static bool theUserSet, theShut, theClosed, theBound, theChecked, theNonBlock, theIsWSL;
static int theFlags, theState;
static uint8_t theAddr[sizeof(sockaddr_storage)];
static unsigned theAddrLen;
static sockaddr_storage theName;
static bool Fail()
{
	vx_assert(theErr == 0, "goes on after a failure");
	if (!vx_bool()) { errno = (int)vx_range(0, 200); return false; } // garbage after a success
	theErr = (int)vx_range(1, 133);
	errno = theErr;
	return true;
}
static bool FailWith(int e) { vx_assert(theErr == 0, "goes on after a failure"); theErr = e; errno = e; return true; }
namespace mg { namespace box { bool SysIsWSL() { return theIsWSL; } } }
extern "C" {
int setsockopt(int s, int level, int opt, const void* val, socklen_t len) noexcept
{
	vx_assert(s == theSock && len == sizeof(int), "arguments");
	int v;
	memcpy(&v, val, sizeof(v));
	bool bad = false;
	if (level == IPPROTO_TCP)
	{
		if (opt == TCP_KEEPIDLE || opt == TCP_KEEPINTVL) bad = v < 1 || v > 32767;
		if (opt == TCP_KEEPCNT) bad = v < 1 || v > 127;
		if (opt == TCP_USER_TIMEOUT) bad = v < 0;
	}
	if (bad ? FailWith(EINVAL) : Fail()) return -1;
	++theCalls;
	if (level == SOL_SOCKET && opt == SO_KEEPALIVE) theKeep = v;
	else if (level == SOL_SOCKET && opt == SO_REUSEADDR) theReuse = v;
	else if (level == IPPROTO_IPV6 && opt == IPV6_V6ONLY) theV6 = v;
	else if (level == IPPROTO_TCP && opt == TCP_NODELAY) theNoDelay = v;
	else if (level == IPPROTO_TCP && opt == TCP_KEEPIDLE) theIdle = v;
	else if (level == IPPROTO_TCP && opt == TCP_KEEPINTVL) theInterval = v;
	else if (level == IPPROTO_TCP && opt == TCP_KEEPCNT) theCount = v;
	else if (level == IPPROTO_TCP && opt == TCP_USER_TIMEOUT) { theUser = (unsigned)v; theUserSet = true; }
	else vx_fail("unknown option");
	return 0;
}
int getsockopt(int s, int level, int opt, void* val, socklen_t* len) noexcept
{
	vx_assert(s == theSock && level == SOL_SOCKET && opt == SO_ERROR && *len >= sizeof(int) && !theChecked, "arguments");
	theChecked = true;
	theState = vx_bool() ? 0 : (int)vx_range(1, 133);
	memcpy(val, &theState, sizeof(theState));
	*len = sizeof(int);
	errno = (int)vx_range(0, 200);
	return 0;
}
int bind(int s, const struct sockaddr* a, socklen_t len) noexcept
{
	vx_assert(s == theSock && !theBound && len <= sizeof(theAddr), "arguments");
	if (Fail()) return -1;
	for (unsigned i = 0; i < sizeof(theAddr); ++i)
		if (i < len) theAddr[i] = ((const uint8_t*)a)[i];
	theAddrLen = len;
	theBound = true;
	return 0;
}
int getsockname(int s, struct sockaddr* a, socklen_t* len) noexcept
{
	vx_assert(s == theSock && *len >= theAddrLen, "arguments");
	memcpy(a, &theName, theAddrLen);
	*len = theAddrLen;
	return 0;
}
int shutdown(int s, int how) noexcept
{
	vx_assert(s == theSock && how == SHUT_RDWR && !theShut, "arguments");
	if (Fail()) return -1;
	theShut = true;
	return 0;
}
int close(int s)
{
	vx_assert(s == theSock && s >= 0 && !theClosed, "arguments");
	theClosed = true;
	return 0;
}
int fcntl(int s, int cmd, ...)
{
	vx_assert(s == theSock, "arguments");
	if (cmd == F_GETFL) return theFlags;
	vx_assert(cmd == F_SETFL, "arguments");
	va_list va;
	va_start(va, cmd);
	int v = va_arg(va, int);
	va_end(va);
	theNonBlock = true;
	theFlags = v;
	return 0;
}
}
static void Result(bool ok, const Error::Ptr& err)
{
	vx_assert(ok == (theErr == 0), "success");
	vx_assert(err.IsSet() == !ok, "an error exactly when failed");
	if (!ok)
	{
		vx_assert(err->myCode == ErrorCodeFromErrno((uint32_t)theErr), "error code");
		vx_assert(err->myValue == (uint32_t)theErr, "error value");
		vx_reach("failed");
	}
	else vx_reach("done");
}
extern "C" void vx_main()
{
	theSock = (int)vx_range(0, INT32_MAX);
	Error::Ptr err;
	bool value = vx_bool();
#if WHAT == 0
	uint32_t t = vx_u32();
	bool ok = SocketSetKeepAlive(theSock, value, t, err);
	Result(ok, err);
	if (ok)
	{
		vx_assert(theKeep == (value ? 1 : 0), "keep-alive");
		if (value)
		{
			vx_assert(theIdle >= 1 && ((uint32_t)theIdle == t / 1000 || (t < 1000 && theIdle == 1)), "idle time");
			vx_assert(theInterval > 0 && theCount > 0, "interval and count");
			vx_assert(theUserSet && theUser == 1000u * (uint32_t)(theIdle + theInterval * theCount), "user timeout");
			vx_reach("on");
		}
		else
			vx_assert(theCalls == 1, "something else is changed");
	}
#elif WHAT == 1
	uint32_t which = WHICH;
	theIsWSL = vx_bool();
	bool ok = which == 0 ? SocketFixReuseAddr(theSock, err) : which == 1 ? SocketSetDualStack(theSock, value, err) : which == 2 ? SocketSetNoDelay(theSock, value, err) : SocketShutdown(theSock, err);
	Result(ok, err);
	if (ok)
	{
		if (which == 0) vx_assert(theIsWSL ? theCalls == 0 : theReuse == 1, "reuse");
		if (which == 1) vx_assert(theV6 == (value ? 0 : 1), "dual stack");
		if (which == 2) vx_assert(theNoDelay == (value ? 1 : 0), "no delay");
		if (which == 3) vx_assert(theShut, "shutdown");
		if (which != 0 && which != 3) vx_assert(theCalls == 1, "something else is changed");
	}
#elif WHAT == 2
	bool isV6 = vx_bool(), any = vx_bool();
	uint8_t raw[sizeof(SockaddrIn6)];
	for (unsigned i = 0; i < sizeof(raw); ++i) raw[i] = any ? 0 : vx_u8();
	Host h;
	if (isV6)
	{
		SockaddrIn6 a;
		memcpy(&a, raw, sizeof(a));
		a.sin6_family = AF_INET6;
		h.Set((Sockaddr*)&a);
		memcpy(raw, &a, sizeof(a));
	}
	else
	{
		SockaddrIn a;
		memcpy(&a, raw, sizeof(a));
		a.sin_family = AF_INET;
		h.Set((Sockaddr*)&a);
		memcpy(raw, &a, sizeof(a));
	}
	unsigned len = isV6 ? sizeof(SockaddrIn6) : sizeof(SockaddrIn);
	bool ok = any ? SocketBindAny(theSock, isV6 ? ADDR_FAMILY_IPV6 : ADDR_FAMILY_IPV4, err) : SocketBind(theSock, h, err);
	Result(ok, err);
	if (ok)
	{
		vx_assert(theBound && theAddrLen == len, "bound");
		for (unsigned i = 0; i < sizeof(SockaddrIn6); ++i)
			if (i < len) vx_assert(theAddr[i] == raw[i], "bound address");
	}
	theAddrLen = len;
	memcpy(&theName, raw, isV6 ? sizeof(SockaddrIn6) : sizeof(SockaddrIn));
	Host got = SocketGetBoundHost(theSock);
	vx_assert(isV6 ? got.IsIPV6() : got.IsIPV4(), "family of the bound address");
	if (isV6) vx_assert(memcmp(&got.myAddrIn6, raw, sizeof(SockaddrIn6)) == 0, "bound address");
	else vx_assert(memcmp(&got.myAddrIn, raw, sizeof(SockaddrIn)) == 0, "bound address");
#elif WHAT == 3
	switch (vx_range(0, 2))
	{
	case 0:
	{
		bool ok = SocketCheckState(theSock, err);
		vx_assert(theChecked, "not checked");
		theErr = theState;
		Result(ok, err);
		break;
	}
	case 1:
		if (value) { theSock = 5; SocketClose(theInvalidSocket); vx_assert(!theClosed, "closed an invalid one"); }
		SocketClose(theSock);
		vx_assert(theClosed, "not closed");
		break;
	case 2:
	{
		int old = (int)vx_range(0, INT32_MAX);
		theFlags = old;
		SocketMakeNonBlocking(theSock);
		vx_assert(theFlags == (old | O_NONBLOCK), "flags");
		break;
	}
	}
#elif WHAT == 4
	// By 'man accept': network errors forwarded from a new connection must be treated like EAGAIN.
	int e = (int)vx_range(1, 133);
	vx_assume(e != EAGAIN && e != EWOULDBLOCK);
	bool isTransient = e == ENETDOWN || e == EPROTO || e == ENOPROTOOPT || e == EHOSTDOWN || e == ENONET || e == EHOSTUNREACH || e == EOPNOTSUPP || e == ENETUNREACH || e == ECONNABORTED || e == EINTR;
	bool isFatal = e == EBADF || e == EFAULT || e == EINVAL || e == EMFILE || e == ENFILE || e == ENOBUFS || e == ENOMEM || e == ENOTSOCK || e == EPERM;
	bool crit = SocketIsAcceptErrorCritical(ErrorCodeFromErrno((uint32_t)e));
	if (isTransient) vx_assert(!crit, "a transient error is critical");
	if (isFatal) vx_assert(crit, "a critical error is transient");
#endif
	vx_reach("end");
}
