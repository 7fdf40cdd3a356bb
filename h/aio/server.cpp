#include "mg/aio/IOTask.cpp" // for the current task
#include "mg/aio/IOCore.h"
#include "mg/aio/TCPServer.h"
#include "mg/box/Sysinfo.h"
#include "os.h"
#include "../net/inet.h"
// A TCP server in the IO core: B bind, L listen, X close, P port, . - one round of the core with any events and outcomes of
// accept, * - a round with a close in parallel in the middle of anything, G - the kernel does its best. CLOSE_IN - close in
// the accept callback number N.
using namespace mg::aio;
using namespace mg::net;
using namespace mg::box;
static const char theScript[] = SCRIPT;
#ifndef CLOSE_IN
#define CLOSE_IN 0
#endif
static IOCore* theCore;
static TCPServer* theServer;
static int theFd = -1, theAccepted = -1;
static bool theIsBound, theIsListening, theIsWSL, theReuse, theGood, theInEdge, theCloseReq;
static uint16_t thePort;
static uint32_t theBacklog;
static uint8_t theHostRaw[sizeof(SockaddrIn6)], thePeerRaw[sizeof(SockaddrIn6)];
static unsigned theHostLen, thePeerLen, theOnClose, theCount, theDone;
namespace mg { namespace box { bool SysIsWSL() { return theIsWSL; } uint32_t SysGetCPUCoreCount() { return 1; } } }
static bool theWindow, theInjected;
static void Inject()
{
	if (!theWindow || theInjected || !vx_bool()) return;
	theInjected = true;
	IOTask* was = theCurrentIOTask;
	theCurrentIOTask = nullptr;
	theCloseReq = true;
	theServer->PostClose();
	theCurrentIOTask = was;
}
extern "C" {
int poll(struct pollfd* fds, nfds_t n, int timeout) { return OsPoll(fds, n, timeout); }
int socket(int domain, int type, int protocol) noexcept
{
	vx_assert(domain == (theHostLen == sizeof(SockaddrIn) ? AF_INET : AF_INET6) && (type & ~SOCK_CLOEXEC) == (SOCK_STREAM | SOCK_NONBLOCK) && protocol == 0, "socket arguments");
	if (Fails()) return AnyErr();
	return theFd = NewFd();
}
int setsockopt(int fd, int level, int opt, const void* val, socklen_t len) noexcept
{
	int v;
	memcpy(&v, val, sizeof(v));
	vx_assert(fd == theFd && IsOpen(fd) && len == sizeof(int) && level == SOL_SOCKET && opt == SO_REUSEADDR && v == 1, "setsockopt arguments");
	if (Fails()) return AnyErr();
	theReuse = true;
	return 0;
}
int bind(int fd, const struct sockaddr* a, socklen_t len) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && len == theHostLen && memcmp(a, theHostRaw, theHostLen) == 0 && !theIsBound, "bind arguments");
	if (Fails()) return AnyErr();
	theIsBound = true;
	return 0;
}
int listen(int fd, int backlog) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && theIsBound && (uint32_t)backlog == theBacklog, "listen arguments");
	if (Fails()) return AnyErr();
	theIsListening = true;
	return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* len) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && theIsBound, "getsockname arguments");
	memcpy(a, theHostRaw, theHostLen);
	((uint8_t*)a)[2] = thePort >> 8;
	((uint8_t*)a)[3] = (uint8_t)thePort;
	*len = theHostLen;
	return 0;
}
int accept4(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && theIsListening && (flags & ~SOCK_CLOEXEC) == SOCK_NONBLOCK && *len >= sizeof(SockaddrIn6), "accept arguments");
	vx_assert(theAccepted < 0, "an accepted connection is not handed over");
	Inject();
	if (vx_bool() && !theGood)
	{
		static const int errs[] = {ENETDOWN, EPROTO, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, ECONNABORTED, EINTR};
		unsigned k = (unsigned)vx_range(0, 9);
		for (unsigned i = 0; i < 10; ++i)
			if (i == k) errno = errs[i];
		vx_reach("transient");
		return -1;
	}
	if (vx_bool() || osFdCount == MAXFD) { theInEdge = true; errno = EAGAIN; return -1; }
	for (unsigned i = 2; i < sizeof(thePeerRaw); ++i) thePeerRaw[i] = vx_u8();
	sa_family_t f = thePeerLen == sizeof(SockaddrIn) ? AF_INET : AF_INET6;
	memcpy(thePeerRaw, &f, 2);
	memcpy(a, thePeerRaw, thePeerLen);
	*len = thePeerLen;
	++theCount;
	return theAccepted = NewFd();
}
}
struct Sub final : public TCPServerSubscription
{
	void OnAccept(Socket s, const Host& h) override
	{
		vx_assert(s >= 0 && s == theAccepted && theOnClose == 0, "a wrong socket is handed over");
		if (thePeerLen == sizeof(SockaddrIn)) vx_assert(h.myAddr.sa_family == AF_INET && memcmp((uint8_t*)&h.myAddrIn + 2, thePeerRaw + 2, 6) == 0, "the peer address");
		else vx_assert(h.myAddr.sa_family == AF_INET6 && memcmp((uint8_t*)&h.myAddrIn6 + 2, thePeerRaw + 2, sizeof(SockaddrIn6) - 2) == 0, "the peer address");
		theAccepted = -1;
		++theDone;
		Inject();
		close(s);
		if (CLOSE_IN == theDone) { theCloseReq = true; theServer->PostClose(); }
		vx_reach("accepted");
	}
	void OnClose() override
	{
		vx_assert(theCloseReq && theOnClose == 0 && theIsListening && NothingOpen() && !AnyRegistered() && theServer->IsClosed(), "close notification");
		++theOnClose;
		vx_reach("closed");
	}
};
static Sub theSub;
static MultiConsumerQueueConsumer<IOTask>* theCons;
static void Round()
{
	uint32_t e = 0;
	if (theGood ? theInEdge : vx_bool()) { e = EPOLLIN; theInEdge = false; }
	osEvents = AnyRegistered() ? e : 0;
	vx_assert(theCore->PrivScheduleStart(), "scheduling");
	theCore->PrivScheduleDo();
	theCore->PrivScheduleEnd();
	IOTask* t = theCons->Pop();
	unsigned was = theDone;
	bool might = theGood && osFdCount < MAXFD && AnyRegistered() && e != 0;
	if (t != nullptr) theCore->PrivExecute(t);
	if (might && !theCloseReq) vx_assert(theInEdge || theDone > was, "nothing is accepted");
	vx_assert(theCons->Pop() == nullptr && theAccepted < 0, "an extra task or a lost connection");
	// Either it waits for an event, or is going to run.
	if (theIsListening && theOnClose == 0 && !theCloseReq) vx_assert(theInEdge || theServer->myTask.myDeadline == 0 || theServer->myTask.myStatus.LoadRelaxed() == IOTASK_STATUS_READY || t == nullptr, "accepting is stopped");
}
extern "C" void vx_main()
{
	theCore = new IOCore();
	theCore->mySchedBatchSize = 8;
	theCore->myState.StoreRelaxed(IOCORE_STATE_RUNNING);
	theCons = new MultiConsumerQueueConsumer<IOTask>(&theCore->myReadyQueue);
	theIsWSL = false;
	TCPServer::Ptr server = TCPServer::NewShared(*theCore);
	theServer = server.GetPointer();
	Error::Ptr err;
	Host h = HostMakeLocalIPV6(vx_u16());
	if (FAMILY == 4) h = HostMakeLocalIPV4(vx_u16());
	theHostLen = FAMILY == 4 ? sizeof(SockaddrIn) : sizeof(SockaddrIn6);
	thePeerLen = FAMILY == 4 ? sizeof(SockaddrIn6) : sizeof(SockaddrIn);
	memcpy(theHostRaw, &h.myAddr, theHostLen);
	bool bound = false;
	for (const char* s = theScript; *s; ++s)
		switch (*s)
		{
		case 'B':
			if (bound) break;
			theReuse = false;
			bound = server->Bind(h, err);
			vx_assert(bound == theIsBound && (bound || (err.IsSet() && NothingOpen() && err->myCode == ErrorCodeFromErrno((uint32_t)osErr))), "result of the bind");
			break;
		case 'P':
			thePort = vx_u16();
			if (bound && !theIsListening && !theCloseReq) vx_assert(server->GetPort() == thePort, "port");
			break;
		case 'L':
		{
			if (!bound || theIsListening || theCloseReq) break;
			theBacklog = (uint32_t)vx_range(0, 0x7fffffff);
			bool ok = server->Listen(theBacklog, &theSub, err);
			vx_assert(ok == theIsListening, "result of the listen");
			if (!ok) vx_assert(err.IsSet() && err->myCode == ErrorCodeFromErrno((uint32_t)osErr), "error of the listen");
			break;
		}
		case 'X': theCloseReq = true; server->PostClose(); break;
		case 'G': theGood = true; break;
		case '.': Round(); break;
		case '*': if (theIsListening) { theWindow = true; Round(); theWindow = false; } break;
		}
	theCloseReq = true;
	server->PostClose();
	Round();
	Round();
	vx_assert(theOnClose == theIsListening && server->IsClosed() && NothingOpen(), "close");
	server->PostClose();
	vx_assert(theCount == theDone, "an accepted connection is lost");
	server.Clear();
	delete theCons;
	theCore->myState.StoreRelaxed(IOCORE_STATE_STOPPED);
	delete theCore;
	err.Clear();
	vx_assert(vx_live_allocs() == 0, "memory leak");
	vx_reach("end");
}
