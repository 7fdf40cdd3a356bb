#include "vx.h"
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <string.h>
#include "mg/net/DomainToIP.cpp"
// Resolutions by the real worker thread. Each user has a script of steps "<op><request>":
//  r request without a time limit, t with a limit of 5 ms, b blocking one, x cancel, d drop of the request object, c - time goes.
// Each request has a letter for what its callback does: n nothing, r<next> a new request, x<k> cancels another one, t sleeps.
// The resolver: RESULTS[k] is a letter for request k: e fails, s fails with an errno, 0-3 that many entries of any kind, ? any of them.
#define MAXR 3
#define MAXE 3
using namespace mg::net;
using namespace mg::box;
static const char* const theScripts[] = {SCRIPTS};
static const char* const theBodies[] = {BODIES};
static const char theResults[] = RESULTS;
static DomainToIPRequest theReq[MAXR];
static bool thePosted[MAXR], theCancelled[MAXR], theResolved[MAXR], theFailed[MAXR], theErrno[MAXR];
static unsigned theCalls[MAXR], theCount[MAXR], theAsked, theFreed;
static uint32_t theIPs[MAXR][MAXE];
static bool theV6[MAXR][MAXE];
static uint64_t theDeadline[MAXR];
static int64_t theBaseline;
extern "C" { extern uint64_t vx_now; uint64_t vx_now = 1000; }
static const char* const theNames[MAXR] = {"a", "bc", "def"};
struct Entry { addrinfo info; union { sockaddr any; sockaddr_in v4; sockaddr_in6 v6; } addr; };
extern "C" {
int getaddrinfo(const char* name, const char* service, const addrinfo*, addrinfo** res)
{
	unsigned k = 0;
	for (unsigned i = 0; i < REQS; ++i) if (strcmp(name, theNames[i]) == 0) k = i;
	vx_assert(strcmp(name, theNames[k]) == 0 && service == nullptr, "the name of the domain");
	vx_assert(thePosted[k] && theCalls[k] == 0 && !theResolved[k], "a finished request is being resolved");
	vx_visible();
	theResolved[k] = true;
	if (SLOW) vx_now += vx_bool() ? 6 : 0;
	char what = theResults[k];
	bool fail = what == 'e' || what == 's' || (what == '?' && vx_bool());
	if (fail)
	{
		theFailed[k] = true;
		theErrno[k] = what == 's' || (what == '?' && vx_bool());
		errno = ECONNRESET;
		return theErrno[k] ? EAI_SYSTEM : EAI_NONAME;
	}
	unsigned n = what == '?' ? 1 : what - '0';
	*res = nullptr;
	for (unsigned i = n; i > 0; --i)
	{
		Entry* e = new Entry();
		memset(e, 0, sizeof(*e));
		bool v4 = vx_bool(), v6 = !v4 && vx_bool();
		uint32_t ip = vx_u32();
		e->info.ai_family = v4 ? AF_INET : v6 ? AF_INET6 : AF_UNIX;
		e->addr.any.sa_family = (sa_family_t)e->info.ai_family;
		e->addr.v4.sin_addr.s_addr = v4 ? ip : 0;
		if (v6) memcpy(&e->addr.v6.sin6_addr.s6_addr[12], &ip, 4);
		e->info.ai_addr = &e->addr.any;
		e->info.ai_next = *res;
		*res = &e->info;
		theIPs[k][i - 1] = ip;
		theV6[k][i - 1] = v6;
		if (!v4 && !v6) theCount[k] |= 1u << (i - 1); // is to be skipped
	}
	++theAsked;
	// Turn it into the expected list: the first occurrence of each address in the same order.
	unsigned cnt = 0;
	uint32_t ips[MAXE];
	bool v6s[MAXE];
	for (unsigned i = 0; i < n; ++i)
	{
		bool skip = theCount[k] >> i & 1;
		for (unsigned j = 0; j < i; ++j) skip = skip || (!(theCount[k] >> j & 1) && theIPs[k][j] == theIPs[k][i] && theV6[k][j] == theV6[k][i]);
		for (unsigned j = 0; j < MAXE; ++j)
		{
			ips[j] = !skip && j == cnt ? theIPs[k][i] : ips[j];
			v6s[j] = !skip && j == cnt ? theV6[k][i] : v6s[j];
		}
		cnt += skip ? 0 : 1;
	}
	for (unsigned j = 0; j < n; ++j) { theIPs[k][j] = ips[j]; theV6[k][j] = v6s[j]; }
	theCount[k] = cnt;
	return 0;
}
void freeaddrinfo(addrinfo* res) noexcept
{
	++theFreed;
	while (res != nullptr)
	{
		addrinfo* next = res->ai_next;
		delete (Entry*)res;
		res = next;
	}
}
const char* gai_strerror(int) noexcept { return "gai"; }
}
static void Post(unsigned k, bool limited);
static void Check(unsigned k, const std::vector<DomainEndpoint>& eps, Error* err)
{
	if (err == nullptr)
	{
		vx_assert(theResolved[k] && !theFailed[k], "success without a result of the resolver");
		vx_assert(eps.size() != 0 && eps.size() == theCount[k], "number of addresses");
		for (unsigned i = 0; i < MAXE; ++i)
		{
			if (i >= eps.size()) break;
			const Host& h = eps[i].myHost;
			uint32_t ip = 0;
			vx_assert(theV6[k][i] ? h.IsIPV6() : h.IsIPV4(), "family of an address");
			if (theV6[k][i]) memcpy(&ip, &h.myAddrIn6.sin6_addr.s6_addr[12], 4);
			else ip = h.myAddrIn.sin_addr.s_addr;
			vx_assert(ip == theIPs[k][i], "an address");
		}
		vx_reach("success");
		return;
	}
	vx_assert(eps.size() == 0, "addresses with an error");
	switch (err->myCode)
	{
	case ERR_BOX_CANCEL: vx_assert(theCancelled[k] && !theResolved[k], "cancelled by nobody"); vx_reach("cancelled"); break;
	case ERR_BOX_TIMEOUT: vx_assert(vx_now >= theDeadline[k] && !theResolved[k], "too early timeout"); vx_reach("timeout"); break;
	case ERR_NET_ADDR_NOT_AVAIL: vx_assert(theResolved[k] && (theFailed[k] ? !theErrno[k] : theCount[k] == 0), "an error instead of addresses"); vx_reach("no address"); break;
	case ERR_NET_CLOSE_BY_PEER: vx_assert(theResolved[k] && theFailed[k] && theErrno[k], "a wrong error"); vx_reach("system error"); break;
	default: vx_fail("unexpected error");
	}
}
static void Post(unsigned k, bool limited)
{
	vx_assert(!thePosted[k], "harness");
	thePosted[k] = true;
	theDeadline[k] = limited ? vx_now + 5 : MG_TIME_INFINITE;
	DomainToIPAsync(theReq[k], theNames[k], limited ? TimeLimit(TimeDuration(5)) : TimeLimit(theTimeDurationInf), [k](const char* name, const std::vector<DomainEndpoint>& eps, Error* err) {
		vx_assert(strcmp(name, theNames[k]) == 0, "the name in the callback");
		vx_assert(++theCalls[k] == 1, "the callback is called twice");
		Check(k, eps, err);
		const char* b = theBodies[k];
		unsigned j = b[0] && b[1] ? b[1] - '0' : 0;
		if (b[0] == 'r') Post(j, false);
		if (b[0] == 'x' && thePosted[j] && !theCancelled[j]) { theCancelled[j] = true; DomainToIPCancel(theReq[j]); }
		if (b[0] == 't') vx_now += 6;
	});
}
static void User(const char* s)
{
	for (; *s; s += 2)
	{
		unsigned k = s[1] - '0';
		switch (s[0])
		{
		case 'r': Post(k, false); break;
		case 't': Post(k, true); break;
		case 'x': theCancelled[k] = true; DomainToIPCancel(theReq[k]); break;
		case 'd': theReq[k] = DomainToIPRequest(); break;
		case 'c': vx_visible(); vx_now += 4; break;
		case 'b':
			{
				thePosted[k] = true;
				theDeadline[k] = MG_TIME_INFINITE;
				std::vector<DomainEndpoint> eps;
				Error::Ptr err;
				bool ok = DomainToIPBlocking(theNames[k], TimeLimit(theTimeDurationInf), eps, err);
				++theCalls[k];
				vx_assert(ok == !err.IsSet(), "result of the blocking call");
				Check(k, eps, err.GetPointer());
				break;
			}
		}
	}
}
static void UserMain(void* a) { User((const char*)a); }
extern "C" void vx_main()
{
	DomainToIPWorker& w = DomainToIPGetInstance();
	theBaseline = vx_live_allocs();
	User(INIT);
	const unsigned users = sizeof(theScripts) / sizeof(theScripts[0]);
	for (unsigned i = 0; i < users; ++i) vx_thread(UserMain, (void*)theScripts[i]);
	vx_run(ROUNDS);
	for (unsigned i = 0; i < users; ++i)
	{
		vx_assert(!vx_deadlock() || vx_finished(1 + i), "a thread is stuck for ever");
		vx_assume(vx_finished(1 + i));
	}
	vx_assume(vx_deadlock()); // the worker sleeps
	for (unsigned k = 0; k < REQS; ++k)
	{
		vx_assert(!thePosted[k] || theCalls[k] == 1, "a request is lost");
		theReq[k] = DomainToIPRequest();
	}
	vx_assert(theAsked == theFreed, "results of the resolver are leaked");
	vx_assert(w.myMain.IsEmpty(), "requests are left");
	vx_assert(vx_live_allocs() == theBaseline, "leak");
	vx_reach("end");
}
