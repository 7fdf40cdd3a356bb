#include "mg/aio/IOTask.cpp" // for the current task
#include "mg/aio/IOCore.h"
#include "mg/aio/SSLSocket.h"
#include "mg/net/SSLStream.h"
#include "mg/aio/TCPSocketSubscription.h"
#include "mg/box/Sysinfo.h"
#include "mg/net/DomainToIP.h"
#include "os.h"
#include "../net/inet.h"
// An SSL socket in the IO core. SCRIPT is what the user does from outside of the core and what happens around:
//  C connect, D connect with a delay, W wrap, T post as a task, c/s send 0-2 bytes by copy / a chain of buffers, r receive,
//  X close, H shutdown, w wakeup, t time passes, . - one round of the core (the scheduler and all ready tasks) with any
//  events and outcomes, * - a round during which INJECT is done by the user in parallel, in the middle of any system call
//  or callback, G - from now on the kernel only does its best, O - open again, Y enable encryption (in a callback).
// CB is what callbacks do: any of "<E event|C connect|S send|R recv|X close|!error><op>", each with the op done once.
// ENC is whether the encryption is on from the start, STEPS is how many bytes of a handshake are needed.
using namespace mg::aio;
using namespace mg::net;
using namespace mg::box;
static const char theScript[] = SCRIPT;
static const char theCb[] = CB;
#ifndef INJECT
#define INJECT 0
#endif
#ifndef HUP
#define HUP 0
#endif
static IOCore* theCore;
static SSLSocket* theSock;
static int theFd = -1, theOwnFd = -1;
static bool theConnecting, theConnected; // in the kernel
static bool theGood; // the kernel does its best
static bool theInEdge, theOutEdge; // an event will come when possible
static bool theShut, theFailed, theEof;
static uint8_t theWritten[2], theTaken[2]; // bytes given by outside and by callbacks
static unsigned theTakenAll, theReported, theRequests, theDeliveries;
static uint8_t theArrived, theGot;
static unsigned theOnConnect, theOnError, theOnClose, theOnIoErr;
static bool theRunning, theIsOver, theCloseReq, theWakeReq, theShutReq, theShutMay, theShutCalled, theConnectReq, theUnserved, theHup;
static int theSoErr;
static uint64_t theConnectAt;
static uint64_t Choose(uint64_t lo, uint64_t hi)
{
	uint64_t v = vx_u8(), r = lo;
	for (uint64_t i = lo; i <= hi; ++i)
		if (v == i) r = i;
	return r;
}
static void Inject();
static bool Bad() { return !theGood && vx_bool(); }
namespace mg { namespace box { bool SysIsWSL() { return false; } uint32_t SysGetCPUCoreCount() { return 1; } } }
namespace mg { namespace net {
	void DomainToIPAsync(DomainToIPRequest&, const char*, mg::box::TimeLimit, const DomainToIPCallback&) { vx_fail("no domains"); }
	void DomainToIPCancel(DomainToIPRequest&) { vx_fail("no domains"); }
	DomainToIPRequest::DomainToIPRequest() : myCtx(nullptr) {}
	DomainToIPRequest::~DomainToIPRequest() {}
} }
// A model of the TLS stream (see the check C29 of the real one). The peer sends STEPS bytes 'h' and then the data, one
// byte per a byte. Encryption is xor. The queues are the real ones.
static bool theEnc, theTlsDone, theTlsBroken; // Connect() was called, the handshake is over, bad input
static bool theHello, theInEncrypt;
static unsigned thePeerSteps, theTlsSteps;
static uint8_t theOut[MAXOUT]; // all the bytes generated for the network
static unsigned theOutLen, theOutSent;
static uint8_t theDecoded; // bytes of the app given by the stream
namespace mg { namespace net {
	static void Put(BufferStream& out, uint8_t c)
	{
		vx_assert(theOutLen < MAXOUT, "bounds of the model");
		for (unsigned i = 0; i < MAXOUT; ++i) if (i == theOutLen) theOut[i] = c;
		++theOutLen;
		out.WriteCopy(&c, 1);
	}
	SSLStreamOpenSSL::SSLStreamOpenSSL(SSLContextOpenSSL*) : mySSL(nullptr), myError(0), myState(SSL_STREAM_OPENSSL_STATE_NEW) {}
	SSLStreamOpenSSL::~SSLStreamOpenSSL() {}
	SSLStream::SSLStream(SSLContext*) : myImpl(nullptr) {}
	SSLStream::~SSLStream() {}
	bool SSLStreamOpenSSL::SetHostName(const char*) { return true; }
	std::string SSLStreamOpenSSL::GetHostName() const { return std::string(); }
	void SSLStreamOpenSSL::Connect()
	{
		vx_assert(myState == SSL_STREAM_OPENSSL_STATE_NEW && myAppInput.IsEmpty(), "connect of the stream");
		myState = SSL_STREAM_OPENSSL_STATE_CONNECTING;
		theEnc = true;
	}
	bool SSLStreamOpenSSL::PrivUpdate()
	{
		if (myState == SSL_STREAM_OPENSSL_STATE_CONNECTED) return true;
		if (myState != SSL_STREAM_OPENSSL_STATE_CONNECTING) return false;
		if (!theHello) { theHello = true; Put(myNetOutput, 'H'); }
		while (theTlsSteps < STEPS)
		{
			if (myNetInput.GetReadSize() == 0) return false;
			uint8_t c;
			myNetInput.ReadData(&c, 1);
			if (c != 'h')
			{
				theTlsBroken = true;
				myError = 7;
				myState = SSL_STREAM_OPENSSL_STATE_CLOSED;
				return false;
			}
			++theTlsSteps;
		}
		myState = SSL_STREAM_OPENSSL_STATE_CONNECTED;
		theTlsDone = true;
		Put(myNetOutput, 'F');
		while (myAppInput.GetReadSize() != 0)
		{
			uint8_t c;
			myAppInput.ReadData(&c, 1);
			Put(myNetOutput, c ^ 0x40);
		}
		return true;
	}
	bool SSLStreamOpenSSL::Update() { return PrivUpdate() || myError == 0; }
	void SSLStreamOpenSSL::AppendAppInputCopy(const void* p, uint64_t n)
	{
		vx_assert(n > 0, "empty data is given to the stream");
		bool ok = PrivUpdate();
		vx_assert(theInEncrypt || theOnConnect == 1, "data is given to the stream before the connect");
		for (uint64_t i = 0; i < n; ++i)
		{
			uint8_t b = ((const uint8_t*)p)[i];
			unsigned s = b >> 7;
			vx_assert((b & 63) == theTaken[s] && theTaken[s] < theWritten[s], "bytes are sent in a wrong order");
			++theTaken[s];
			++theTakenAll;
			if (ok) Put(myNetOutput, b ^ 0x40);
			else if (myState == SSL_STREAM_OPENSSL_STATE_NEW) { vx_assert(!theEnc, "not encrypted"); Put(myNetOutput, b); }
			else if (myState == SSL_STREAM_OPENSSL_STATE_CONNECTING) myAppInput.WriteCopy(&b, 1);
		}
	}
	uint64_t SSLStreamOpenSSL::PopAppOutput(Buffer::Ptr& head)
	{
		bool ok = PrivUpdate();
		uint64_t n = 0;
		if (!ok && myState != SSL_STREAM_OPENSSL_STATE_NEW) return 0;
		Buffer* tail = nullptr;
		while (myNetInput.GetReadSize() != 0)
		{
			uint8_t c;
			myNetInput.ReadData(&c, 1);
			if (ok && (c & 0x40) == 0)
			{
				theTlsBroken = true;
				myError = 7;
				myState = SSL_STREAM_OPENSSL_STATE_CLOSED;
				break;
			}
			if (ok) c &= 0x3f;
			Buffer::Ptr b(BufferCopy::NewShared());
			b->myWData[0] = c;
			b->myPos = 1;
			Buffer* t = b.GetPointer();
			if (tail == nullptr) head = std::move(b); else tail->myNext = std::move(b);
			tail = t;
			++n;
			++theDecoded;
		}
		return n;
	}
	mg::box::ErrorPtrRaised ErrorRaiseSSL(uint32_t c, const char*) { vx_assert(c == 7 && theTlsBroken, "code of an SSL error"); return ErrorRaise(ERR_SSL, 7u, "ssl", nullptr); }
} }
extern "C" {
int poll(struct pollfd* fds, nfds_t n, int timeout) { return OsPoll(fds, n, timeout); }
int socket(int domain, int type, int protocol) noexcept
{
	vx_assert(domain == AF_INET && (type & ~SOCK_CLOEXEC) == (SOCK_STREAM | SOCK_NONBLOCK) && protocol == 0, "socket arguments");
	if (theGood) errno = 0; else if (Fails()) { theFailed = true; return AnyErr(); }
	return NewFd();
}
int setsockopt(int, int, int, const void*, socklen_t) noexcept { return Bad() ? AnyErr() : 0; }
int connect(int fd, const struct sockaddr* a, socklen_t len)
{
	vx_assert(IsOpen(fd) && !theConnected && !theConnecting, "connect arguments");
	const struct sockaddr_in* in = (const struct sockaddr_in*)a;
	const uint8_t ip[4] = {127, 0, 0, 1};
	vx_assert(len == sizeof(SockaddrIn) && in->sin_family == AF_INET && in->sin_port == htons(77) && memcmp(&in->sin_addr, ip, 4) == 0, "connects to a wrong address");
	vx_assert(vx_now >= theConnectAt, "connects before the delay");
	Inject();
	vx_assert(theOwnFd < 0 || fd == theOwnFd, "a wrong socket");
	if (Bad()) { theFailed = true; return AnyErr(); }
	theFd = fd;
	if (vx_bool()) { theConnecting = true; theOutEdge = true; errno = EINPROGRESS; return -1; }
	theConnected = true;
	return 0;
}
int getsockopt(int fd, int level, int opt, void* val, socklen_t* len) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && level == SOL_SOCKET && opt == SO_ERROR && *len == sizeof(int), "getsockopt arguments");
	memcpy(val, &theSoErr, sizeof(int));
	return 0;
}
int shutdown(int fd, int how) noexcept
{
	vx_assert(fd == theFd && IsOpen(fd) && how == SHUT_RDWR && theShutMay && theConnected, "shutdown arguments");
	Inject();
	theShutCalled = true;
	if (Bad()) { theFailed = true; return AnyErr(); }
	return 0;
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && theConnected && flags == 0, "send arguments");
	Inject();
	bool bad = Bad(), block = !theGood && vx_bool();
	uint8_t n = (uint8_t)Choose(1, 6);
	unsigned all = 0;
	for (size_t i = 0; i < m->msg_iovlen; ++i)
		for (size_t j = 0; j < m->msg_iov[i].iov_len; ++j)
		{
			uint8_t b = ((const uint8_t*)m->msg_iov[i].iov_base)[j];
			vx_assert(theOutSent + all < theOutLen, "sends more than was generated");
			for (unsigned k = 0; k < MAXOUT; ++k) if (k == theOutSent + all) vx_assert(theOut[k] == b, "bytes are sent in a wrong order");
			++all;
		}
	vx_assert(all > 0, "nothing is sent");
	if (bad) { theFailed = true; return AnyErr(); }
	if (block) { theOutEdge = true; errno = EAGAIN; return -1; }
	if (theGood || all < n) n = (uint8_t)all;
	theOutSent += n;
	return n;
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
	vx_assert(fd == theFd && IsOpen(fd) && theConnected && flags == 0, "recv arguments");
	if (!theEnc) vx_assert(theRequests > theDeliveries, "receives without a request");
	Inject();
	if (Bad()) { theFailed = true; return AnyErr(); }
	if (!theGood && vx_bool()) { theInEdge = true; errno = EAGAIN; return -1; }
	unsigned limit = theGood ? 1 + vx_bool() : (unsigned)vx_range(0, 3), n = 0;
	for (size_t i = 0; i < m->msg_iovlen; ++i)
		for (size_t j = 0; j < m->msg_iov[i].iov_len; ++j)
			if (n < limit)
			{
				uint8_t b;
				bool broken = BROKEN && theEnc && Bad();
				if (theEnc && thePeerSteps < STEPS) { b = broken ? 'x' : 'h'; ++thePeerSteps; }
				else
				{
					b = theEnc && !broken ? theArrived | 0x40 : theArrived;
					++theArrived;
					vx_assert(theArrived < 60, "bounds of the model");
				}
				((uint8_t*)m->msg_iov[i].iov_base)[j] = b;
				++n;
			}
	if (n == 0) theEof = true;
	return n;
}
}

static Buffer::Ptr MakeBuffer(unsigned s)
{
	static uint8_t data[8][2];
	static unsigned used;
	uint8_t* d = data[used++];
	for (unsigned i = 0; i < 2; ++i) d[i] = (uint8_t)(s << 7 | (theWritten[s] + i));
	uint32_t n = (uint32_t)Choose(0, 2);
	theWritten[s] += n;
	return BufferRaw::NewShared(d, n, 2);
}
static struct Sub* theSub();
static void Open()
{
	SSLSocketParams p;
	p.mySSL = nullptr;
	p.myDoEncrypt = ENC;
	theSock->Open(p);
}
static void Start(char op)
{
	bool inside = theRunning && theSock->IsInWorkerNow();
	theRunning = true;
	theShutReq = false; // one requested before the connect may be dropped
	TCPSocketConnectParams p;
	if (op != 'W' && op != 'T')
	{
		theConnectReq = true;
		p.myEndpoint = "127.0.0.1:77";
		theConnectAt = 0;
		if (op == 'D') { p.myDelay = TimeDuration(10); theConnectAt = vx_now + 10; }
		if (op == 'F') p.mySocket = theOwnFd = NewFd();
		if (inside) theSock->Connect(p);
		else theSock->PostConnect(p, (TCPSocketSubscription*)theSub());
	}
	else if (op == 'W')
	{
		theConnectReq = true;
		theFd = NewFd();
		theConnected = true;
		theSock->PostWrap(theFd, (TCPSocketSubscription*)theSub());
	}
	else theSock->PostTask((TCPSocketSubscription*)theSub());
}
static void Do(char op)
{
	unsigned s = theSock->IsInWorkerNow();
	switch (op)
	{
	case 'C': case 'D': case 'F': case 'W': case 'T': Start(op); break;
	case 'c':
	{
		uint8_t d[2];
		for (unsigned i = 0; i < 2; ++i) d[i] = (uint8_t)(s << 7 | (theWritten[s] + i));
		uint8_t n = (uint8_t)Choose(0, 2);
		theWritten[s] += n;
		if (s) theSock->SendCopy(d, n); else theSock->PostSendCopy(d, n);
		for (unsigned i = 0; i < 2; ++i) d[i] = 127;
		break;
	}
	case 's':
	{
		Buffer::Ptr b = MakeBuffer(s);
		b->myNext = MakeBuffer(s);
		if (s) theSock->SendRef(std::move(b)); else theSock->PostSendRef(std::move(b));
		break;
	}
	case 'r':
		++theRequests;
		theUnserved = true;
		if (s && vx_bool()) theSock->Recv(Choose(1, 3)); else theSock->PostRecv(Choose(1, 3));
		break;
	case 'X': theCloseReq = true; theSock->PostClose(); break;
	case 'H': if (!theCloseReq) theShutReq = theShutMay = true; theSock->PostShutdown(); break;
	case 'w': theWakeReq = true; theSock->PostWakeup(); break;
	case 't': vx_now += 4 + vx_range(0, 8); break;
	case 'R': theSock->Reschedule(); break;
	case 'Y':
		theInEncrypt = true;
		theSock->Encrypt();
		theInEncrypt = false;
		vx_assert(theTaken[1] == theWritten[1], "the data sent before the encryption");
		vx_reach("encrypted");
		break;
	case 'O':
		if (!theIsOver) break;
		theIsOver = false;
		theConnecting = theConnected = theInEdge = theOutEdge = theShutReq = theShutMay = theShutCalled = theFailed = theEof = theHup = theConnectReq = false;
		theWritten[0] = theTaken[0]; theWritten[1] = theTaken[1];
		theTakenAll = theReported = theRequests = theDeliveries = 0;
		
		theUnserved = theCloseReq = theWakeReq = theRunning = false;
		theOnConnect = theOnError = theOnClose = theOnIoErr = 0;
		theFd = theOwnFd = -1;
		theOutSent = theOutLen;
		theEnc = theTlsDone = theTlsBroken = theHello = false;
		thePeerSteps = theTlsSteps = 0;
		theDecoded = theGot;
		Open();
		break;
	default: vx_fail("script");
	}
}
static unsigned theCbDone; // a mask
static void Callback(char kind)
{
	Inject();
	for (unsigned i = 0; theCb[i] != 0; i += 2)
		if (theCb[i] == kind && !(theCbDone & 1u << i))
		{
			theCbDone |= 1u << i;
			Do(theCb[i + 1]);
		}
}
static bool theWindow, theInjected;
static void Inject()
{
	if (!theWindow || theInjected || !vx_bool()) return;
	theInjected = true;
	IOTask* was = theCurrentIOTask;
	theCurrentIOTask = nullptr;
	if (theRunning && !theIsOver) Do((char)INJECT);
	theCurrentIOTask = was;
	vx_reach("injected");
}
static void CheckError(Error* e)
{
	vx_assert(e != nullptr, "no error");
	if (e->myCode == ERR_SSL) { vx_assert(theTlsBroken, "an extra SSL error"); vx_reach("ssl error"); return; }
	if (theHup) vx_assert(e->myCode == (theSoErr != 0 ? ErrorCodeFromErrno((uint32_t)theSoErr) : ERR_NET_ABORTED), "code of an error of the connection");
	else vx_assert(theFailed && e->myCode == ErrorCodeFromErrno((uint32_t)osErr), "code of an error of a system call");
}
struct Sub : public TCPSocketSubscription
{
	void In() { vx_assert(theSock->IsInWorkerNow() && theOnClose == 0 && theRunning, "a callback out of the life of the socket"); }
	void OnConnect() override
	{
		In();
		vx_assert(theConnected && theOnConnect == 0 && theOnError == 0, "extra connect notification");
		vx_assert(!theEnc || theTlsDone, "connect is reported before the handshake is done");
		if (!theCloseReq) vx_assert(theSock->IsConnected(), "is not connected in the connect notification");
		++theOnConnect;
		vx_reach("connected");
		Callback('C');
	}
	void OnConnectError(Error* e) override { In(); vx_assert(!theConnected && theOnConnect == 0 && theOnIoErr == 0 && theFailed, "extra connect error"); CheckError(e); ++theOnIoErr; }
	void OnRecv(BufferReadStream& s) override
	{
		In();
		vx_assert(theOnConnect == 1 && !s.IsEmpty(), "extra receive notification");
		++theDeliveries;
		theUnserved = false;
		vx_assert(theDeliveries <= theRequests, "received without a request");
		uint64_t n = s.GetReadSize();
		vx_assert(n == (uint8_t)(theDecoded - theGot), "received size");
		uint8_t d[8];
		uint64_t k = Choose(0, 8);
		if (k > n) k = n;
		s.ReadData(d, k);
		for (unsigned i = 0; i < 8; ++i)
			if (i < k) vx_assert(d[i] == theGot++, "received bytes");
		vx_reach("received");
		Callback('R');
	}
	void OnRecvError(Error* e) override { In(); vx_assert(theOnIoErr == 0 && (theFailed || theTlsBroken), "extra receive error"); CheckError(e); ++theOnIoErr; }
	void OnSend(uint32_t n) override
	{
		In();
		theReported += n;
		vx_assert(theOnConnect == 1 && n > 0 && theReported <= theTakenAll, "reported size");
		vx_reach("sent");
		Callback('S');
	}
	void OnSendError(Error* e) override { In(); vx_assert(theOnIoErr == 0 && theFailed, "extra send error"); CheckError(e); ++theOnIoErr; }
	void OnError(Error* e) override
	{
		In();
		vx_assert(theOnError == 0, "the second error");
		CheckError(e);
		++theOnError;
		vx_reach("error");
		Callback('!');
	}
	void OnClose() override
	{
		In();
		vx_assert(theSock->IsClosed(), "is not closed in the close notification");
		vx_assert(NothingOpen() && !AnyRegistered(), "a descriptor is left after a close");
		vx_assert(theCloseReq || theOnError == 1 || theEof, "closed without a reason");
		if ((theFailed || theHup || theTlsBroken) && !theCloseReq && !theEof) vx_assert(theOnError == 1, "an error is not reported");
		++theOnClose;
		theIsOver = true;
		theReported = theTakenAll;
		vx_reach("closed");
		Callback('X');
	}
	void OnEvent() override { In(); vx_assert(!theInOnEvent, "nested events"); theWakeReq = false; Callback('E'); }
	bool theInOnEvent = false;
};
static Sub theSubs;
static Sub* theSub() { return &theSubs; }
static MultiConsumerQueueConsumer<IOTask>* theCons;
static void Round()
{
	uint32_t e = 0;
	if (AnyRegistered())
	{
		if (theGood)
		{
			if (theInEdge) e |= EPOLLIN;
			if (theOutEdge) e |= EPOLLOUT;
			if (theShutCalled && !theHup) { e |= EPOLLHUP; theHup = true; theSoErr = 0; }
		}
		else
		{
			if (vx_bool()) e |= EPOLLIN;
			if (vx_bool()) e |= EPOLLOUT;
			if (HUP && !theHup && vx_bool())
			{
				e |= vx_bool() ? EPOLLERR : EPOLLHUP;
				theHup = true;
				theSoErr = vx_bool() ? 0 : (int)vx_range(1, 133);
			}
		}
		if (theConnecting && e & EPOLLOUT && !theHup) { theConnecting = false; theConnected = true; }
		if (e & EPOLLIN) theInEdge = false;
		if (e & EPOLLOUT) theOutEdge = false;
	}
	osEvents = e;
	vx_assert(theCore->PrivScheduleStart(), "scheduling");
	osPolled = false;
	bool ready = theCore->PrivScheduleDo();
	theCore->PrivScheduleEnd();
	vx_assert(ready != osPolled || (!ready && theCore->myWaitingQueue.Count() != 0), "the scheduler waits while there are ready tasks");
	IOTask* t = theCons->Pop();
	if (t != nullptr)
	{
		vx_assert(t == &theSock->myTask, "a wrong task");
		theCore->PrivExecute(t);
	}
	vx_assert(theCons->Pop() == nullptr, "an extra task");
}
static void Progress()
{
	if (theCloseReq || theOnError != 0 || theEof) Round();
	bool alive = theRunning && !theIsOver;
	if (theCloseReq || theOnError != 0 || theEof) vx_assert(!alive, "is not closed");
	if (!alive) return;
	vx_assert(!theWakeReq, "a wakeup is lost");
	if (theConnectReq && (theConnectAt == 0 || vx_now >= theConnectAt)) vx_assert(theOnConnect == 1, "didn't connect");
	if (theOnConnect != 1) return;
	if (theShutReq) vx_assert(theShutCalled, "the shutdown is lost");
	vx_assert(theTaken[0] == theWritten[0] && theTaken[1] == theWritten[1], "not everything is sent");
	vx_assert(theReported == theTakenAll, "sent bytes are not reported");
	vx_assert(theOutSent == theOutLen, "not everything generated is sent");
	vx_assert(!theUnserved, "a receive request is not served");
	vx_reach("progress");
}
extern "C" void vx_main()
{
	int64_t base = vx_live_allocs();
	theCore = new IOCore();
	theCore->mySchedBatchSize = 8;
	theCore->myState.StoreRelaxed(IOCORE_STATE_RUNNING);
	theCons = new MultiConsumerQueueConsumer<IOTask>(&theCore->myReadyQueue);
	theSock = new SSLSocket(*theCore);
	Open();
	for (const char* s = theScript; *s; ++s)
	{
		if (*s == '.') Round();
		else if (*s == '*') { theWindow = true; Round(); theWindow = false; }
		else if (*s == 'G') theGood = true;
		else if (*s == 'P') Progress();
		else if (*s == 'O' || !theRunning || !theIsOver) Do(*s);
	}
	if (theRunning && !theIsOver)
	{
		theSock->PostClose();
		theCloseReq = true;
		Round();
		Round();
	}
	vx_assert(!theRunning || (theIsOver && theOnClose == 1), "no close notification");
	vx_assert(NothingOpen(), "a descriptor is left");
	theSock->Delete();
	delete theCons;
	theCore->myState.StoreRelaxed(IOCORE_STATE_STOPPED);
	delete theCore;
	vx_assert(vx_live_allocs() == base, "leak");
	vx_reach("end");
}
