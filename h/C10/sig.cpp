#include "vx.h"
#include "mg/box/Signal.h"

// Senders with scripts (s - send) and a receiver with a script (r - receive, b - blocking, t - with
// a finite timeout, i - with an infinite one, x - destroy the signal, must be the last).
static const char* const theScripts[] = {SCRIPTS};
static mg::box::Signal* theSig;
static unsigned theTime, theStarted, theReceived;
static unsigned theStart[8]; // when a send started
static bool theDone[8];
static unsigned theLastReceipt; // when the last successful receipt ended
static bool theGone;
extern unsigned vx_spurious;

static void Sender(void* a)
{
	unsigned k = (unsigned)(size_t)a;
	unsigned i = 0;
	for (const char* s = theScripts[k]; *s; ++s, ++i)
	{
		unsigned id = (k - 1) * 4 + i;
		vx_hb_write(id);
		vx_atomic_begin();
		theStart[id] = ++theTime;
		++theStarted;
		vx_atomic_end();
		theSig->Send();
		theDone[id] = true;
	}
}
static bool ReceiveOne(char how)
{
	bool done[8];
	for (unsigned i = 0; i < 8; ++i) done[i] = theDone[i];
	bool ok = true;
	if (how == 'r') ok = theSig->Receive();
	else if (how == 'b') theSig->ReceiveBlocking();
	else if (how == 't') ok = theSig->ReceiveTimed(mg::box::TimeDuration(5));
	else ok = theSig->ReceiveTimed(mg::box::theTimeDurationInf);
	if (how == 'i') vx_assert(ok, "an infinite wait ended with nothing");
	if (!ok) return false;
	++theReceived;
	vx_assert(theReceived <= theStarted, "received more than was sent");
	theLastReceipt = ++theTime;
	for (unsigned i = 0; i < 8; ++i)
		if (done[i])
			vx_assert(vx_hb_read(i), "what was done before the send is not visible after the receipt");
	return true;
}
static void Receiver(void*)
{
	for (const char* s = theScripts[0]; *s; ++s)
	{
		if (*s == 'x')
		{
			delete theSig;
			theGone = true;
			return;
		}
		if (!ReceiveOne(*s)) vx_reach("nothing");
	}
}
extern "C" void vx_main()
{
	vx_hb_on();
	vx_spurious = SPURIOUS;
	theSig = new mg::box::Signal();
	vx_thread(Receiver, nullptr);
	for (unsigned k = 1; k <= SENDERS; ++k) vx_thread(Sender, (void*)(size_t)k);
	vx_run(ROUNDS);
	for (unsigned k = 1; k <= SENDERS; ++k) vx_assume(vx_finished(k));
	vx_assert(!vx_deadlock() || !vx_finished(0), "a sender is stuck");
	bool pending = false;
	for (unsigned i = 0; i < 8; ++i)
		if (theStart[i] > theLastReceipt) pending = true;
	if (vx_deadlock())
	{
		vx_reach("blocked");
		vx_assert(!pending, "a signal is lost, the receiver sleeps");
		return;
	}
	vx_assume(vx_finished(0));
	if (theGone)
	{
		vx_assert(vx_live_allocs() == 0, "leaked");
		vx_reach("end");
		return;
	}
	// The receipts overlapping with the sends may have taken them: then nothing is certain. But a
	// send which started after the last receipt had returned can't be lost.
	if (ReceiveOne('r'))
		vx_reach("left");
	else
		vx_assert(theStarted == 0 || theReceived > 0, "the only signal is lost");
	vx_assert(!ReceiveOne('r'), "received twice");
	delete theSig;
	vx_assert(vx_live_allocs() == 0, "leaked");
	vx_reach("end");
}
