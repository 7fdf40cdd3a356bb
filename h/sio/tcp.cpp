#include "vx.h"
#include "mg/net/Buffer.h"
#include "mg/sio/TCPSocket.h"
#include "mg/box/IOVec.h"
#include "mg/net/Host.h"
#include "mg/box/Sysinfo.h"
#include "sock.h"
#include "../net/inet.h"

// A socket under a script of operations with any outcomes of the system calls:
//  C connect, W wrap, U update, X close, c send by copy, r by a reference to memory, b by a chain of buffers, k by a
//  chain which is kept by the user, R receive into memory, L receive into a chain of 2 buffers.
using namespace mg::net;
using namespace mg::box;
static const char theScript[] = SCRIPT;
static mg::sio::TCPSocket* theSock;
static int theFd = -1;
static uint8_t theWritten, theTaken, theArrived, theGot;
static unsigned theSends; // of the current operation
static bool theIsConnected, theIsConnecting;
static int theSoErr;
static uint8_t theHostRaw[sizeof(SockaddrIn6)];
static uint64_t Choose(uint64_t lo, uint64_t hi)
{
	uint64_t v = vx_u8(), r = lo;
	for (uint64_t i = lo; i <= hi; ++i)
		if (v == i) r = i;
	return r;
}
namespace mg { namespace box { bool SysIsWSL() { return false; } } }
extern "C" {
int socket(int domain, int type, int protocol) noexcept
{
	vx_assert(domain == AF_INET6 && (type & ~SOCK_CLOEXEC) == (SOCK_STREAM | SOCK_NONBLOCK) && protocol == 0, "socket arguments");
	if (Fails()) return AnyErr();
	return NewFd();
}
static uint8_t theConnects;
int connect(int fd, const struct sockaddr* a, socklen_t len)
{
	vx_assert(IsOpen(fd) && len == sizeof(SockaddrIn6) && memcmp(a, theHostRaw, sizeof(SockaddrIn6)) == 0, "connect arguments");
	++theConnects;
	theFd = fd;
	if (Fails()) return AnyErr();
	if (vx_bool()) { theIsConnecting = true; errno = EINPROGRESS; return -1; }
	theIsConnected = true;
	return 0;
}
int poll(struct pollfd* fds, nfds_t n, int timeout)
{
	vx_assert(n == 1 && IsOpen(fds->fd) && fds->fd == theFd && fds->events == POLLOUT && timeout == 0 && theIsConnecting, "poll arguments");
	theSoErr = 0;
	if (vx_bool()) return 0;
	if (Fails()) return AnyErr();
	short r = vx_bool() ? POLLOUT : 0;
	if (vx_bool()) r |= POLLERR;
	if (vx_bool()) r |= POLLHUP;
	vx_assume(r != 0);
	fds->revents = r;
	theIsConnecting = false;
	theSoErr = 0;
	if (r == POLLOUT) theIsConnected = true;
	else if (vx_bool()) theSoErr = (int)vx_range(1, 133);
	return 1;
}
int getsockopt(int fd, int level, int opt, void* val, socklen_t* len) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && level == SOL_SOCKET && opt == SO_ERROR && *len == sizeof(int), "getsockopt arguments");
	memcpy(val, &theSoErr, sizeof(int));
	return 0;
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && theIsConnected && (flags & ~MSG_NOSIGNAL) == 0, "send arguments");
	++theSends;
	uint8_t pos = theTaken;
	for (size_t i = 0; i < m->msg_iovlen; ++i)
		for (size_t j = 0; j < m->msg_iov[i].iov_len; ++j)
		{
			vx_assert(pos != theWritten, "sends more than was given");
			vx_assert(((const uint8_t*)m->msg_iov[i].iov_base)[j] == pos, "bytes are sent in a wrong order");
			++pos;
		}
	uint8_t n = pos - theTaken;
	vx_assert(n > 0, "nothing is sent");
	if (Fails()) return AnyErr();
	if (vx_bool()) { errno = EAGAIN; return -1; }
	n = (uint8_t)Choose(1, n < 12 ? n : 12);
	theTaken += n;
	return n;
}
static bool theRecvErr, theRecvEof;
ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && theIsConnected && flags == 0, "recv arguments");
	theRecvErr = theRecvEof = false;
	if (Fails()) { theRecvErr = true; return AnyErr(); }
	if (vx_bool()) { errno = EAGAIN; return -1; }
	unsigned limit = (unsigned)vx_range(0, 4), n = 0;
	for (size_t i = 0; i < m->msg_iovlen; ++i)
		for (size_t j = 0; j < m->msg_iov[i].iov_len; ++j)
			if (n < limit)
			{
				((uint8_t*)m->msg_iov[i].iov_base)[j] = theArrived++;
				++n;
			}
	theRecvEof = n == 0;
	return n;
}
}
static Buffer::Ptr MakeBuffer()
{
	uint8_t* d = new uint8_t[2];
	d[0] = theWritten; d[1] = theWritten + 1;
	uint32_t n = (uint32_t)Choose(0, 2);
	theWritten += n;
	return BufferRaw::NewShared(d, n, 2);
}
static Buffer::Ptr MakeChain()
{
	Buffer::Ptr a = MakeBuffer();
	a->myNext = MakeBuffer();
	return a;
}
static void Closed()
{
	vx_assert(theSock->IsClosed() && NothingOpen(), "is not closed");
	theIsConnected = theIsConnecting = false;
	theTaken = theWritten; // the rest is dropped
	theFd = -1;
}
extern "C" void vx_main()
{
	{
	mg::sio::TCPSocket sock;
	theSock = &sock;
	Error::Ptr err;
	Buffer::Ptr kept[4];
	unsigned keptCount = 0;
	for (const char* s = theScript; *s; ++s)
	{
		theSends = 0;
		if (vx_bool()) err.Clear(); // or an old one
		bool isClosed = sock.IsClosed();
		switch (*s)
		{
		case 'C':
		{
			if (!isClosed) break;
			Host h = HostMakeLocalIPV6(vx_u16());
			memcpy(theHostRaw, &h.myAddrIn6, sizeof(theHostRaw));
			bool ok = sock.Connect(h, err);
			if (!ok)
			{
				vx_assert(err.IsSet() && err->myCode == ErrorCodeFromErrno((uint32_t)osErr), "error of a failed connect");
				vx_assert(!theIsConnected && !theIsConnecting, "the connect didn't fail");
				Closed();
				vx_reach("connect failed");
			}
			else
			{
				vx_assert(sock.IsConnected() == theIsConnected && sock.IsConnecting() == theIsConnecting && theConnects > 0, "state after connect");
				vx_assert(theIsConnected || theIsConnecting, "the connect failed");
			}
			break;
		}
		case 'W':
			if (!isClosed) break;
			theFd = NewFd();
			theIsConnected = true;
			sock.Wrap(theFd);
			vx_assert(sock.IsConnected(), "not connected after a wrap");
			break;
		case 'X':
			sock.Close();
			Closed();
			break;
		case 'U':
		{
			bool was = theIsConnecting, wasConnected = theIsConnected;
			uint8_t before = theTaken;
			bool ok = sock.Update(err);
			if (!ok)
			{
				vx_assert(err.IsSet(), "no error after a failed update");
				if (!was) vx_assert(err->myCode == ErrorCodeFromErrno((uint32_t)osErr), "error of a failed send");
				if (was && theSoErr != 0) vx_assert(err->myCode == ErrorCodeFromErrno((uint32_t)theSoErr), "error of a failed connect");
				Closed();
				vx_reach("update failed");
				break;
			}
			vx_assert(sock.IsConnected() == theIsConnected && sock.IsConnecting() == theIsConnecting, "state after an update");
			if (wasConnected && before != theWritten)
			{
				vx_assert(theSends > 0, "nothing is sent while there is data");
				vx_reach("sent");
			}
			break;
		}
		case 'c':
		{
			if (!theIsConnected) break;
			uint8_t d[3];
			for (unsigned i = 0; i < 3; ++i) d[i] = theWritten + i;
			uint8_t n = (uint8_t)Choose(0, 3);
			theWritten += n;
			sock.SendCopy(d, n);
			for (unsigned i = 0; i < 3; ++i) d[i] = 200;
			break;
		}
		case 'r':
		{
			uint8_t* d = new uint8_t[2];
			for (unsigned i = 0; i < 2; ++i) d[i] = theWritten + i;
			uint8_t n = (uint8_t)Choose(0, 2);
			theWritten += n;
			sock.SendRef(d, n);
			break;
		}
		case 'b':
			sock.SendRef(MakeChain());
			break;
		case 'k':
			kept[keptCount] = MakeChain();
			sock.SendRef(kept[keptCount++].GetPointer());
			break;
		case 'R':
		case 'L':
		{
			if (!theIsConnected) break;
			uint8_t d[3] = {250, 250, 250};
			Buffer::Ptr b;
			int64_t rc;
			if (*s == 'R')
				rc = sock.Recv(d, 3, err);
			else
			{
				b = BufferRaw::NewShared(d, 0, 1);
				b->myNext = BufferRaw::NewShared(d + 1, 0, 2);
				rc = sock.Recv(b.GetPointer(), err);
			}
			vx_assert(rc == (theRecvErr || theArrived == theGot ? theRecvEof ? 0 : -1 : (uint8_t)(theArrived - theGot)), "received amount");
			if (rc > 0)
			{
				for (unsigned i = 0; i < 3; ++i)
				{
					if (i < rc) vx_assert(d[i] == theGot++, "received bytes");
					else vx_assert(d[i] == 250, "extra received bytes");
				}
				vx_reach("received");
			}
			if (rc == 0 || theRecvErr)
			{
				if (theRecvErr) vx_assert(err.IsSet() && err->myCode == ErrorCodeFromErrno((uint32_t)osErr), "error of a failed receive");
				Closed();
			}
			else
			{
				if (rc < 0) vx_assert(!err.IsSet(), "an error while nothing has come yet");
				vx_assert(sock.IsConnected(), "not connected after a receive");
			}
			break;
		}
		}
		if (isClosed && sock.IsClosed())
			theTaken = theWritten; // isn't remembered
	}
	}
	vx_assert(NothingOpen(), "a descriptor is left");
	vx_reach("end");
}
