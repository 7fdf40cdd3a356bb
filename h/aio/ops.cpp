#include "mg/aio/IOTask.cpp" // for the current task
#include "mg/aio/IOCore.h"
#include "mg/box/IOVec.h"
#include "mg/box/Sysinfo.h"
#include "os.h"
#include "../net/inet.h"
// Operations of an IO task. SCRIPT has a letter per execution: s send, r receive, b both, a accept, c connect with the task's own
// socket, f with a given one, u update of the connect, n nothing, X close (and the final execution). Between the executions any events come.
using namespace mg::aio;
using namespace mg::net;
using namespace mg::box;
static const char theScript[] = SCRIPT;
static IOCore* theCore;
static IOTask* theTask;
static int theFd = -1, theOwnFd = -1;
static char theOp;
static IOEvent theIn, theOut;
static bool theInWait, theOutWait, theSavedIn, theSavedOut, theClosed, theConnecting;
static uint32_t theMask, theGotMask; // events returned by epoll and not delivered yet
static bool theCalled;
static int theSoErr;
namespace mg { namespace box { bool SysIsWSL() { return false; } uint32_t SysGetCPUCoreCount() { return 1; } } }
enum { DONE, BLOCKED, FAILED, MINOR };
static int theOutcome;
static int64_t theBytes;
static int theSock;
static uint8_t thePeerRaw[sizeof(SockaddrIn6)];
static int64_t Outcome(uint64_t lo, uint64_t hi)
{
	theCalled = true;
	osErr = 0;
	if (vx_bool()) { theOutcome = BLOCKED; errno = vx_bool() ? EAGAIN : EWOULDBLOCK; return -1; }
	if (vx_bool()) { theOutcome = FAILED; return AnyErr(); }
	theOutcome = DONE;
	return theBytes = (int64_t)vx_range(lo, hi);
}
static uint8_t theData[6];
static IOVec theVecs[2];
static void CheckVecs(const struct msghdr* m)
{
	vx_assert(m->msg_iovlen == 2 && m->msg_name == nullptr && m->msg_control == nullptr, "message");
	for (unsigned i = 0; i < 2; ++i)
		vx_assert(m->msg_iov[i].iov_base == theVecs[i].myData && m->msg_iov[i].iov_len == theVecs[i].mySize, "vectors");
}
extern "C" {
int poll(struct pollfd* fds, nfds_t n, int timeout) { return OsPoll(fds, n, timeout); }
int socket(int domain, int type, int protocol) noexcept
{
	vx_assert(domain == AF_INET && (type & ~SOCK_CLOEXEC) == (SOCK_STREAM | SOCK_NONBLOCK) && protocol == 0, "socket arguments");
	theCalled = true;
	if (Fails()) { theOutcome = FAILED; return AnyErr(); }
	return NewFd();
}
int setsockopt(int, int, int, const void*, socklen_t) noexcept { return 0; }
int connect(int fd, const struct sockaddr* a, socklen_t len)
{
	vx_assert(IsOpen(fd) && len == sizeof(SockaddrIn) && (theOwnFd < 0 || fd == theOwnFd), "connect arguments");
	theCalled = true;
	if (Fails()) { theOutcome = FAILED; return AnyErr(); }
	theFd = fd;
	if (vx_bool()) { theOutcome = BLOCKED; errno = EINPROGRESS; return -1; }
	theOutcome = DONE;
	theBytes = 0;
	return 0;
}
int getsockopt(int fd, int level, int opt, void* val, socklen_t* len) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && level == SOL_SOCKET && opt == SO_ERROR && *len == sizeof(int), "getsockopt arguments");
	memcpy(val, &theSoErr, sizeof(int));
	return 0;
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && flags == 0, "send arguments");
	CheckVecs(m);
	return Outcome(1, 0x7fffffff);
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && flags == 0, "recv arguments");
	CheckVecs(m);
	return Outcome(0, 0x7fffffff);
}
int accept4(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && (flags & ~SOCK_CLOEXEC) == SOCK_NONBLOCK && *len >= sizeof(SockaddrIn6), "accept arguments");
	if (Outcome(0, 0) < 0) return -1;
	memcpy(a, thePeerRaw, sizeof(SockaddrIn));
	*len = sizeof(SockaddrIn);
	return theSock = NewFd();
}
}
static void Check(IOEvent& e, bool ok, bool& wait, bool& saved)
{
	vx_assert(theCalled, "no system call");
	wait = theOutcome == BLOCKED;
	vx_assert(e.IsLocked() == wait, "locked");
	vx_assert(ok == (theOutcome != FAILED), "result");
	if (wait) return;
	vx_assert(!e.IsEmpty() && e.IsError() == (theOutcome == FAILED), "kind of the result");
	if (theOutcome == FAILED) vx_assert(e.GetError() == ErrorCodeFromErrno((uint32_t)osErr) && e.PopError() == ErrorCodeFromErrno((uint32_t)osErr) && e.IsEmpty(), "the error");
	else { vx_assert(e.GetBytes() == theBytes && e.PopBytes() == theBytes && e.IsEmpty(), "the amount"); saved = true; }
	vx_reach("done");
}
static void Aborted(IOEvent& e, bool& wait)
{
	vx_assert(!e.IsLocked(), "an event is not unlocked by the close");
	if (wait) vx_assert(!e.IsEmpty() && e.IsError() && e.PopError() == ERR_NET_ABORTED, "an event is not aborted by the close");
	wait = false;
}
struct Sub final : public IOSubscription
{
	void OnEvent(const IOArgs& args) override
	{
		if (theTask->IsClosed())
		{
			vx_assert(!theClosed && !theTask->HasSocket() && args.myEvents == 0 && !AnyRegistered(), "close");
			theClosed = true;
			Aborted(theIn, theInWait);
			Aborted(theOut, theOutWait);
			return;
		}
		vx_assert(!theClosed, "executed after the close");
		uint32_t expected = theMask | (theSavedIn ? EPOLLIN : 0) | (theSavedOut ? EPOLLOUT : 0);
		vx_assert((uint32_t)args.myEvents == expected, "delivered events");
		theMask = 0;
		theSavedIn = theSavedOut = false;
		Error::Ptr err;
		bool ok = theTask->ProcessArgs(args, err);
		vx_assert(ok == !(expected & (EPOLLERR | EPOLLHUP)), "errors of the connection");
		if (!ok)
		{
			vx_assert(err.IsSet() && err->myCode == (theSoErr != 0 && theTask->HasSocket() ? ErrorCodeFromErrno((uint32_t)theSoErr) : ERR_NET_ABORTED), "code of the error");
			theTask->PostClose();
			theOp = 0;
			vx_reach("broken");
			return;
		}
		if (expected & EPOLLIN) theInWait = false;
		if (expected & EPOLLOUT) theOutWait = false;
		vx_assert(theIn.IsLocked() == theInWait && theOut.IsLocked() == theOutWait, "unlocking");
		if (!theInWait) vx_assert(theIn.IsEmpty(), "a stale result");
		if (!theOutWait && !theConnecting) vx_assert(theOut.IsEmpty(), "a stale result");
		theCalled = false;
		bool usable = theTask->HasSocket() && !theConnecting;
		bool send = usable && (theOp == 's' || theOp == 'b'), recv = usable && (theOp == 'r' || theOp == 'b');
		if (send && !theOutWait) { bool r = theTask->Send(theVecs, 2, theOut); Check(theOut, r, theOutWait, theSavedOut); }
		theCalled = false;
		if (recv && !theInWait) { bool r = theTask->Recv(theVecs, 2, theIn); Check(theIn, r, theInWait, theSavedIn); }
		if (theOp == 'a' && usable)
		{
			Host peer;
			bool was = theInWait;
			Socket s = theTask->Accept(theIn, peer);
			vx_assert(theCalled == !was, "accept while waiting");
			if (was) vx_assert(s < 0 && theIn.IsLocked(), "accept while waiting");
			else
			{
				theInWait = theOutcome == BLOCKED;
				vx_assert(theIn.IsLocked() == theInWait && (s >= 0) == (theOutcome == DONE), "result of accept");
				if (s >= 0) { vx_assert(s == theSock && theIn.IsEmpty() && memcmp((uint8_t*)&peer.myAddrIn + 2, thePeerRaw + 2, 6) == 0, "accepted socket"); close(s); }
				if (theOutcome == FAILED)
				{
					bool crit = SocketIsAcceptErrorCritical(ErrorCodeFromErrno((uint32_t)osErr));
					vx_assert(theIn.IsEmpty() == !crit, "error of accept");
					if (crit) vx_assert(theIn.IsError() && theIn.PopError() == ErrorCodeFromErrno((uint32_t)osErr), "error of accept");
				}
				vx_reach("done");
			}
		}
		if (theOp == 'c' || theOp == 'f')
		{
			Host h;
			memcpy(&h.myAddrIn, thePeerRaw, sizeof(SockaddrIn));
			bool r;
			if (theOp == 'f') { theOwnFd = NewFd(); r = theTask->ConnectStart(theOwnFd, h, theOut); }
			else r = theTask->ConnectStart(h, theOut);
			bool dummy;
			Check(theOut, r, theOutWait, dummy);
			if (!r)
			{
				vx_assert(!theTask->HasSocket(), "a socket after a failed connect");
				if (theOp == 'f') close(theOwnFd);
				vx_assert(NothingOpen(), "a socket is left after a failed connect");
				theFd = -1;
			}
			else vx_assert(theTask->GetSocket() == theFd && AnyRegistered(), "the socket is not attached");
			theConnecting = r && theOutWait;
		}
		if (theOp == 'u' && theConnecting)
		{
			bool r = theTask->ConnectUpdate(theOut);
			vx_assert(r && theOut.IsLocked() == theOutWait, "update of a connect");
			if (!theOutWait) { vx_assert(!theOut.IsEmpty() && !theOut.IsError() && theOut.PopBytes() == 0, "connected"); theConnecting = false; vx_reach("connected"); }
		}
		theOp = 0;
	}
};
static MultiConsumerQueueConsumer<IOTask>* theCons;
static void Run()
{
	vx_assert(theCore->PrivScheduleStart(), "scheduling");
	theCore->PrivScheduleDo();
	theCore->PrivScheduleEnd();
	IOTask* t = theCons->Pop();
	if (t != nullptr) theCore->PrivExecute(t);
}
extern "C" void vx_main()
{
	theCore = new IOCore();
	theCore->mySchedBatchSize = 8;
	theCore->myState.StoreRelaxed(IOCORE_STATE_RUNNING);
	theCons = new MultiConsumerQueueConsumer<IOTask>(&theCore->myReadyQueue);
	theTask = new IOTask(*theCore);
	for (unsigned i = 0; i < 2; ++i) { theVecs[i].myData = theData + i; theVecs[i].mySize = 1 + i; }
	for (unsigned i = 2; i < sizeof(SockaddrIn); ++i) thePeerRaw[i] = vx_u8();
	sa_family_t f = AF_INET;
	memcpy(thePeerRaw, &f, 2);
	IOSubscription::Ptr sub = IOSubscription::Ptr::Wrap(new Sub());
	if (theScript[0] == 'c' || theScript[0] == 'f') theTask->Post(sub.GetPointer());
	else { theFd = NewFd(); theTask->Post(theFd, sub.GetPointer()); }
	for (const char* s = theScript; *s; ++s)
	{
		if (vx_bool() && AnyRegistered())
		{
			// Something comes while the task is anywhere.
			uint32_t e = 0;
			if (vx_bool()) e |= EPOLLIN;
			if (vx_bool()) e |= EPOLLOUT;
			if (HUP && vx_bool()) { e |= vx_bool() ? EPOLLERR : EPOLLHUP; theSoErr = vx_bool() ? 0 : (int)vx_range(1, 133); }
			osEvents = e;
			theMask |= e;
			if (e != 0 && vx_bool()) { theOp = 0; Run(); if (theClosed) break; }
		}
		if (*s == 'X') theTask->PostClose();
		else theTask->PostWakeup();
		theOp = *s;
		Run();
		if (theClosed) break;
		vx_assert(theOp == 0 || *s == 'X', "a wakeup is lost");
	}
	if (!theClosed) { theTask->PostClose(); Run(); }
	vx_assert(theClosed && NothingOpen(), "is not closed");
	delete theTask;
	delete theCons;
	sub.Clear();
	theCore->myState.StoreRelaxed(IOCORE_STATE_STOPPED);
	delete theCore;
	vx_assert(vx_live_allocs() == 0, "memory leak");
	vx_reach("end");
}
