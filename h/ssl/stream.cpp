#include "biomodel.h"
#include "mg/net/SSLContextOpenSSL.h"
#include "mg/net/SSLOpenSSL.h"
#include "mg/net/SSLStreamOpenSSL.h"
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <stdlib.h>
// The TLS stream over a model of the TLS library. SCRIPT: C connect, S shutdown, U update, a - the app sends MAXA bytes or less,
// n - something comes from the network, N - two things, o - pop of the app output, p - pop of the net output, e - another stream leaves
// an error in the queue of the library.
// The protocol of the model: 'h' is a part of the handshake (STEPS of them are needed), 'd' + byte is data, 'c' is the close notification,
// others are broken records. In the opposite direction: 'H', 'D' + encrypted byte, 'Z'.
using namespace mg::net;
static const char theScript[] = SCRIPT;
enum { WANT, ZERO, SYS, MAXB = 24 };
static BIO *theRBio, *theWBio;
static bool theConnected, theDone, theSent, theReceived, theFatal, theAnyFatal, theHelloSent, theHalf, theFreed;
static unsigned theSteps, theReason, theQueue; // errors in the queue
static uint8_t theNet[MAXB], thePlainOut[MAXB], theWritten[MAXB]; // what the library decrypted and encrypted
static unsigned theNetLen, theDecrypted, theWrittenLen;
static uint8_t theOut[MAXB * 2]; // what the library gave to the network
static unsigned theOutLen;
static int thePlainLen;
struct ssl_st { int a; };
struct ssl_ctx_st { int a; };
static ssl_st theSsl;
static ssl_ctx_st theCfg;
static unsigned Choose(unsigned lo, unsigned hi)
{
	for (unsigned i = lo; i < hi; ++i)
		if (vx_bool()) return i;
	return hi;
}
static void Put(uint8_t c)
{
	vx_assert(theOutLen < sizeof(theOut), "bounds of the model");
	for (unsigned i = 0; i < sizeof(theOut); ++i) if (i == theOutLen) theOut[i] = c;
	++theOutLen;
	size_t n = 0;
	vx_assert(theWBio->myMethod->myWrite(theWBio, (const char*)&c, 1, &n) == 1 && n == 1, "write into the bio");
}
static bool Get(uint8_t& c)
{
	size_t n = 0;
	if (theRBio->myMethod->myRead(theRBio, (char*)&c, 1, &n) == 1) { vx_assert(n == 1, "read from the bio"); return true; }
	vx_assert(BIO_should_retry(theRBio), "the bio is empty, not broken");
	return false;
}
static int Fail() { theFatal = theAnyFatal = true; theReason = SYS; theQueue = 1 + vx_bool(); return -1; }
static int Handshake()
{
	if (theFatal) return Fail();
	if (theDone) return 1;
	if (!theHelloSent) { theHelloSent = true; Put('H'); }
	while (theSteps < STEPS)
	{
		if (theReceived) { theReason = ZERO; return vx_bool() ? 0 : -1; }
		uint8_t c;
		if (!Get(c)) { theReason = WANT; return -1; }
		if (c == 'c') { theReceived = true; continue; }
		if (c != 'h') { if (vx_bool()) { Fail(); theQueue = 0; return 0; } return Fail(); }
		++theSteps;
	}
	theDone = true;
	Put('H');
	return 1;
}
// 1 a byte, 0 closed, -1 no data or error
static int Record(uint8_t& b)
{
	for (unsigned i = 0; i < 5; ++i)
	{
		if (theFatal) return Fail();
		if (theReceived) { theReason = ZERO; return 0; }
		uint8_t c;
		if (!Get(c)) { theReason = WANT; return -1; }
		if (theHalf) { theHalf = false; b = c; return 1; }
		if (c == 'h') { if (vx_bool()) { theReason = WANT; return -1; } continue; } // may be returned or not
		if (c == 'c') { theReceived = true; continue; }
		if (c != 'd') return Fail();
		theHalf = true;
	}
	vx_assume(false);
	return -1;
}
extern "C" {
SSL* SSL_new(SSL_CTX* c) { vx_assert(c == &theCfg, "context"); return &theSsl; }
void SSL_set_accept_state(SSL*) { vx_assert(SERVER, "role"); }
void SSL_set_connect_state(SSL*) { vx_assert(!SERVER, "role"); }
void SSL_set_bio(SSL*, BIO* r, BIO* w) { theConnected = true; theRBio = r; theWBio = w; }
void SSL_free(SSL*) { vx_assert(!theFreed, "freed twice"); theFreed = true; if (theConnected) { BioFree(theRBio); BioFree(theWBio); } }
int SSL_do_handshake(SSL*) { vx_assert(theConnected, "handshake without network"); return Handshake(); }
int SSL_read(SSL*, void* p, int n)
{
	vx_assert(theConnected && n > 0, "SSL_read arguments");
	int rc = Handshake();
	if (rc != 1) return rc;
	int got = 0;
	for (int i = 0; i < 2; ++i) // not more than 2 bytes at once
	{
		if (i >= n) break;
		uint8_t b;
		int r;
		if (got != 0 && vx_bool()) break;
		if (got != 0)
		{
			// A next record is joined only if it is data.
			if (theReceived || theFatal) break;
		}
		r = Record(b);
		if (r != 1)
		{
			if (got != 0) break;
			return r;
		}
		((uint8_t*)p)[i] = b;
		++got;
		vx_assert(theDecrypted < MAXB, "bounds of the model");
		for (unsigned k = 0; k < MAXB; ++k) if (k == theDecrypted) thePlainOut[k] = b;
		++theDecrypted;
	}
	return got;
}
int SSL_write_ex(SSL*, const void* p, size_t n, size_t* out)
{
	vx_assert(theConnected, "write without network");
	int rc = Handshake();
	if (rc != 1) return 0;
	if (theSent) { Fail(); return 0; }
	if (vx_bool() && FAILS) { Fail(); if (vx_bool()) theQueue = 0; return 0; }
	for (unsigned i = 0; i < 4; ++i)
		if (i < n)
		{
			uint8_t c = ((const uint8_t*)p)[i];
			Put('D');
			Put(c ^ 0x5a);
			vx_assert(theWrittenLen < MAXB, "bounds of the model");
			for (unsigned k = 0; k < MAXB; ++k) if (k == theWrittenLen) theWritten[k] = c;
			++theWrittenLen;
		}
	vx_assert(n <= 4, "bounds of the model");
	*out = n;
	return 1;
}
int SSL_shutdown(SSL*)
{
	if (!theConnected || theFatal || !theDone) { theReason = SYS; theQueue = 1; return -1; }
	if (!theSent)
	{
		theSent = true;
		Put('Z');
		return theReceived ? 1 : 0;
	}
	if (theReceived) return 1;
	uint8_t b;
	int r = Record(b);
	if (r == 0) return 1;
	if (r == 1) { theReason = SYS; theQueue = 1; theAnyFatal = true; return -1; } // data after the shutdown
	return -1;
}
int SSL_get_error(const SSL*, int rc)
{
	if (rc > 0) return SSL_ERROR_NONE;
	if (theQueue != 0) return SSL_ERROR_SSL;
	return theReason == WANT ? vx_bool() ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE : theReason == ZERO ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_SYSCALL;
}
void ERR_clear_error(void) { theQueue = 0; }
unsigned long ERR_get_error(void)
{
	if (theQueue == 0) return 0;
	--theQueue;
	return 0x0a000001u;
}
}
namespace mg { namespace net {
uint32_t OpenSSLPackError(int c) { return 0x80000000u | (uint32_t)c; }
SSLVersion OpenSSLVersionFromInt(int) { return SSLVersion(); }
SSLCipher OpenSSLCipherFromString(const char*) { return SSLCipher(); }
} }
static uint8_t theApp[MAXB], theGot[MAXB], theNetGot[MAXB * 3];
static unsigned theAppLen, thePlain, theGotLen, theNetGotLen, theLost;
static void Collect(const Buffer::Ptr& head, uint64_t size, uint8_t* to, unsigned& len, unsigned max)
{
	uint64_t total = 0;
	const Buffer* b = head.GetPointer();
	for (unsigned k = 0; k < 14 && b != nullptr; ++k, b = b->myNext.GetPointer())
	{
		for (unsigned i = 0; i < 2; ++i)
			if (i < b->myPos)
			{
				vx_assert(len < max, "more data than expected");
				for (unsigned j = 0; j < max; ++j) if (j == len) to[j] = b->myRData[i];
				++len;
				++total;
			}
		vx_assert(b->myPos <= 2, "bounds of the model");
	}
	vx_assert(b == nullptr && total == size, "the returned size");
}
extern "C" void vx_main()
{
	SSLContextOpenSSL* ctx = (SSLContextOpenSSL*)malloc(sizeof(SSLContextOpenSSL));
	ctx->myConfig = &theCfg;
	ctx->myIsServer = SERVER;
	SSLStreamOpenSSL* s = new SSLStreamOpenSSL(ctx);
	bool isShut = false, isPlainCut = false, wasError = false;
	uint32_t error = 0;
	unsigned cut = 0;
	for (const char* c = theScript; *c; ++c)
	{
		Buffer::Ptr head;
		unsigned n;
		switch (*c)
		{
		case 'C':
			// Everything before is plain.
			thePlain = theAppLen;
			s->Connect();
			vx_assert(s->IsEncrypted(), "not encrypted");
			break;
		case 'S':
			if (!s->IsEncrypted()) { isPlainCut = true; cut = theNetGotLen; }
			s->Shutdown();
			isShut = true;
			vx_assert(s->IsClosingOrClosed() || theAnyFatal, "the shutdown is ignored");
			break;
		case 'U': { bool r = s->Update(); vx_assert(r || s->HasError(), "result of the update"); break; }
		case 'a':
			n = Choose(1, 2);
			{
				bool over = s->IsClosingOrClosed();
				uint8_t data[2] = {vx_u8(), vx_u8()};
				s->AppendAppInputCopy(data, n);
				if (!over)
				{
					for (unsigned i = 0; i < 2; ++i)
						if (i < n)
						{
							for (unsigned j = 0; j < MAXB; ++j) if (j == theAppLen) theApp[j] = data[i];
							++theAppLen;
						}
				}
			}
			break;
		case 'n': case 'N':
		{
			for (unsigned q = 0; q < (*c == 'n' ? 1 : 2); ++q)
			{
				uint8_t x[2] = {vx_u8(), vx_u8()};
				unsigned kind = Choose(0, 3);
				n = 1;
				if (kind == 0) x[0] = 'h';
				else if (kind == 1) { x[0] = 'd'; n = 2; }
				else if (kind == 2) x[0] = 'c';
				if (!theConnected) { n = 1; ++theLost; }
				if (n == 1) s->AppendNetInputCopy(x, 1);
				else s->AppendNetInputCopy(x, 2);
			}
			break;
		}
		case 'e': theQueue = 1; break;
		case 'o': { uint64_t sz = s->PopAppOutput(head); Collect(head, sz, theGot, theGotLen, MAXB); break; }
		case 'p': { uint64_t sz = s->PopNetOutput(head); Collect(head, sz, theNetGot, theNetGotLen, sizeof(theNetGot)); break; }
		}
		if (s->IsConnected()) { vx_assert(theDone, "connected before the handshake"); vx_reach("connected"); }
		if (s->HasError()) vx_assert(theAnyFatal || theReceived || (isShut && !theDone), "an error which did not happen");
		if (wasError) vx_assert(s->GetError() == error, "the error is changed");
		wasError = s->HasError();
		error = s->GetError();
		if (theFatal && !isShut) vx_assert(s->HasError() && s->IsClosingOrClosed(), "an error of the library is not noticed");
		if (isShut && theDone) vx_assert(theSent, "no close notification");
	}
	bool full = !theAnyFatal && s->IsConnected();
	Buffer::Ptr head;
	uint64_t sz = s->PopAppOutput(head);
	Collect(head, sz, theGot, theGotLen, MAXB);
	head.Clear();
	sz = s->PopNetOutput(head);
	Collect(head, sz, theNetGot, theNetGotLen, sizeof(theNetGot));
	// The output of the application.
	unsigned skip = 0;
	if (!theConnected) { vx_reach("end"); skip = 1; }
	if (!skip)
	{
		if (theLost == 0)
		{
			vx_assert(theGotLen == theDecrypted, "decrypted data is lost");
			for (unsigned i = 0; i < MAXB; ++i) if (i < theGotLen) vx_assert(theGot[i] == thePlainOut[i], "decrypted data");
		}
		// The output of the network.
		if (!isPlainCut) vx_assert(theNetGotLen == thePlain + theOutLen, "amount of the network output");
		for (unsigned i = 0; i < MAXB; ++i) if (i < thePlain && i < theNetGotLen) vx_assert(theNetGot[i] == theApp[i], "plain data");
		for (unsigned i = 0; i < sizeof(theOut); ++i)
			if (i < theOutLen) for (unsigned j = 0; j <= 4; ++j) if (j == thePlain) vx_assert(theNetGot[i + j] == theOut[i], "encrypted data");
		vx_assert(thePlain <= 4, "bounds of the model");
		// What was encrypted.
		vx_assert(thePlain + theWrittenLen <= theAppLen, "encrypted too much");
		if (s->IsConnected()) vx_assert(thePlain + theWrittenLen == theAppLen, "sent data is lost");
		for (unsigned i = 0; i < MAXB; ++i)
			if (i < theWrittenLen) for (unsigned j = 0; j <= 4; ++j) if (j == thePlain) vx_assert(theWritten[i] == theApp[i + j], "data to encrypt");
		(void)full; (void)cut;
		vx_reach("end");
	}
	else
	{
		if (!isPlainCut)
		{
			vx_assert(theNetGotLen == theAppLen && theOutLen == 0, "plain output");
			for (unsigned i = 0; i < MAXB; ++i) if (i < theAppLen) vx_assert(theNetGot[i] == theApp[i], "plain data");
		}
		else vx_assert(theNetGotLen == cut, "plain data after a shutdown");
	}
	head.Clear();
	delete s;
	free(ctx);
	vx_assert(theFreed && theBios == 0 && vx_live_allocs() == 0, "memory leak");
}
