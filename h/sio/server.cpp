#include "vx.h"
#include "mg/sio/TCPServer.h"
#include "mg/net/Host.h"
#include "mg/box/Sysinfo.h"
#include "sock.h"
#include "../net/inet.h"

// A server under a script of operations with any outcomes of the system calls:
//  B bind, L listen, A accept, P port, X close.
using namespace mg::net;
using namespace mg::box;
static const char theScript[] = SCRIPT;
static bool theIsBound, theIsListening, theIsWSL, theReuse;
static int theFd = -1, theAccepted = -1;
static uint16_t thePort;
static uint32_t theBacklog;
static bool theWouldBlock;
static uint8_t theHostRaw[sizeof(SockaddrIn6)], thePeerRaw[sizeof(SockaddrIn6)];
static unsigned theHostLen, thePeerLen;
namespace mg { namespace box { bool SysIsWSL() { return theIsWSL; } } }
extern "C" {
int socket(int domain, int type, int protocol) noexcept
{
	vx_assert(domain == (theHostLen == sizeof(SockaddrIn) ? AF_INET : AF_INET6) && (type & ~SOCK_CLOEXEC) == (SOCK_STREAM | SOCK_NONBLOCK) && protocol == 0, "socket arguments");
	if (Fails()) return AnyErr();
	return theFd = NewFd();
}
int setsockopt(int fd, int level, int opt, const void* val, socklen_t len) noexcept
{
	int v;
	memcpy(&v, val, sizeof(v));
	vx_assert(fd == theFd && IsOpen(fd) && len == sizeof(int) && level == SOL_SOCKET && opt == SO_REUSEADDR && v == 1, "setsockopt arguments");
	if (Fails()) return AnyErr();
	theReuse = true;
	return 0;
}
int bind(int fd, const struct sockaddr* a, socklen_t len) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && len == theHostLen && memcmp(a, theHostRaw, theHostLen) == 0 && !theIsBound, "bind arguments");
	vx_assert(theReuse || theIsWSL, "bound without the reuse of the address");
	if (Fails()) return AnyErr();
	theIsBound = true;
	return 0;
}
int listen(int fd, int backlog) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && theIsBound && (uint32_t)backlog == theBacklog, "listen arguments");
	if (Fails()) return AnyErr();
	theIsListening = true;
	return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* len) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && theIsBound, "getsockname arguments");
	memcpy(a, theHostRaw, theHostLen);
	((uint8_t*)a)[2] = thePort >> 8;
	((uint8_t*)a)[3] = (uint8_t)thePort;
	*len = theHostLen;
	return 0;
}
int accept4(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && theIsListening && (flags & ~SOCK_CLOEXEC) == SOCK_NONBLOCK && *len >= sizeof(SockaddrIn6), "accept arguments");
	theWouldBlock = false;
	osErr = 0;
	theAccepted = -1;
	if (Fails()) return AnyErr();
	if (vx_bool()) { theWouldBlock = true; errno = EAGAIN; return -1; }
	memcpy(a, thePeerRaw, thePeerLen);
	*len = thePeerLen;
	return theAccepted = NewFd();
}
}
static unsigned AnyAddr(uint8_t* raw)
{
	bool isV6 = vx_bool();
	for (unsigned i = 0; i < sizeof(SockaddrIn6); ++i) raw[i] = vx_u8();
	((Sockaddr*)raw)->sa_family = isV6 ? AF_INET6 : AF_INET;
	return isV6 ? sizeof(SockaddrIn6) : sizeof(SockaddrIn);
}
static void Closed()
{
	for (unsigned i = 0; i < MAXFD; ++i) vx_assert(theFd != 3 + (int)i || !osOpen[i], "the server is not closed");
	theFd = -1;
	theIsBound = theIsListening = theReuse = false;
}
static void Failed(const Error::Ptr& err)
{
	vx_assert(err.IsSet() && err->myCode == ErrorCodeFromErrno((uint32_t)osErr), "error of a failed call");
	Closed();
	vx_reach("failed");
}
extern "C" void vx_main()
{
	theIsWSL = vx_bool();
	{
	mg::sio::TCPServer server;
	Error::Ptr err;
	for (const char* s = theScript; *s; ++s)
	{
		if (vx_bool()) err.Clear(); // or an old one
		switch (*s)
		{
		case 'B':
		{
			if (theFd >= 0) break;
			theHostLen = AnyAddr(theHostRaw);
			Host h;
			h.Set((Sockaddr*)theHostRaw);
			bool ok = server.Bind(h, err);
			vx_assert(ok == theIsBound, "result of a bind");
			if (!ok) Failed(err);
			break;
		}
		case 'P':
			if (!theIsBound) break;
			thePort = vx_u16();
			vx_assert(server.GetPort() == thePort, "port");
			break;
		case 'L':
		{
			if (!theIsBound || theIsListening) break;
			theBacklog = vx_u32();
			vx_assume(theBacklog <= INT32_MAX);
			bool ok = server.Listen(theBacklog, err);
			vx_assert(ok == theIsListening, "result of a listen");
			if (!ok) Failed(err);
			break;
		}
		case 'A':
		{
			if (!theIsListening) break;
			thePeerLen = AnyAddr(thePeerRaw);
			Host peer;
			Socket res = server.Accept(peer, err);
			vx_assert(res == theAccepted, "accepted socket");
			if (res >= 0)
			{
				vx_assert(memcmp(&peer.myAddr, thePeerRaw, thePeerLen) == 0, "address of the peer");
				vx_assert(IsOpen(res), "accepted and closed");
				close(res);
				vx_reach("accepted");
				break;
			}
			if (theWouldBlock) { vx_assert(!err.IsSet() && IsOpen(theFd), "an error when there is nobody to accept"); break; }
			int e = osErr;
			if (e == ENETDOWN || e == EPROTO || e == ENOPROTOOPT || e == EHOSTDOWN || e == ENONET || e == EHOSTUNREACH || e == EOPNOTSUPP || e == ENETUNREACH || e == ECONNABORTED || e == EINTR)
			{
				vx_assert(!err.IsSet() && IsOpen(theFd), "a transient error is critical");
				vx_reach("transient");
			}
			else if (err.IsSet()) Failed(err);
			else
			{
				vx_assert(IsOpen(theFd), "closed without an error");
				vx_assert(e != EBADF && e != EFAULT && e != EINVAL && e != EMFILE && e != ENFILE && e != ENOBUFS && e != ENOMEM && e != ENOTSOCK && e != EPERM, "a critical error is lost");
			}
			break;
		}
		case 'X':
			server.Close();
			Closed();
			break;
		}
	}
	}
	vx_assert(NothingOpen(), "a descriptor is left");
	vx_reach("end");
}
