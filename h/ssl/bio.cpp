#include "biomodel.h"
// A SCRIPT of operations: w - SSL writes, r - SSL reads, W - the stream is appended with a buffer, C - with a copy,
// R - the stream is read, S - skipped, f - flush and unknown controls.
using namespace mg::net;
static const char theScript[] = SCRIPT;
static uint8_t theData[16];
static unsigned theIn, theOut; // amounts of the written and read
static unsigned Choose(unsigned lo, unsigned hi)
{
	for (unsigned i = lo; i < hi; ++i)
		if (vx_bool()) return i;
	return hi;
}
extern "C" void vx_main()
{
	for (auto& x : theData) x = vx_u8();
	BufferStream* s = new BufferStream();
	BufferStream* other = new BufferStream();
	BIO* b = OpenSSLWrapBioMem(*s);
	BIO* b2 = OpenSSLWrapBioMem(*other);
	vx_assert(theMethods == 1 && theBios == 2 && b != b2, "creation");
	uint8_t buf[8];
	for (const char* c = theScript; *c; ++c)
	{
		unsigned have = theIn - theOut;
		unsigned n;
		size_t res = 77;
		switch (*c)
		{
		case 'w':
			n = Choose(0, MAXW);
			vx_assert(b->myMethod->myWrite(b, (const char*)theData + theIn, n, &res) == 1 && res == n, "result of write");
			vx_assert(!BIO_should_retry(b), "retry after a write");
			theIn += n;
			break;
		case 'W': case 'C':
			n = Choose(*c == 'W', MAXW);
			if (*c == 'C') s->WriteCopy(theData + theIn, n);
			else s->WriteRef(BufferRaw::NewShared(theData + theIn, n));
			theIn += n;
			break;
		case 'r':
			n = Choose(0, MAXR);
			for (unsigned i = 0; i < sizeof(buf); ++i) buf[i] = 0xcc;
			if (b->myMethod->myRead(b, (char*)buf, n, &res) == 1)
			{
				unsigned expect = n < have ? n : have;
				vx_assert(res == expect && expect != 0, "size of read");
				vx_assert(!BIO_should_retry(b), "retry after a read");
				for (unsigned i = 0; i < sizeof(buf); ++i)
					vx_assert(i < expect ? buf[i] == theData[theOut + i] : buf[i] == 0xcc, "read data");
				theOut += expect;
				vx_reach("read");
			}
			else
			{
				vx_assert(res == 0 && (have == 0 || n == 0), "read failed though there is data");
				vx_assert((BIO_should_retry(b) && BIO_should_read(b)) == (have == 0), "want-read is reported exactly when it is empty");
			}
			break;
		case 'R': case 'S':
			n = Choose(0, MAXR);
			if (n > have) n = have;
			if (*c == 'R')
			{
				s->ReadData(buf, n);
				for (unsigned i = 0; i < n; ++i) vx_assert(buf[i] == theData[theOut + i], "data of the stream");
			}
			else s->SkipData(n);
			theOut += n;
			break;
		case 'f':
			vx_assert(b->myMethod->myCtrl(b, BIO_CTRL_FLUSH, 0, nullptr) == 1, "flush");
			break;
		}
		vx_assert(s->GetReadSize() == theIn - theOut && other->GetReadSize() == 0, "amount of data");
	}
	for (unsigned i = 0; i < sizeof(theData); ++i)
		if (i >= theOut && i < theIn)
		{
			uint8_t x;
			s->ReadData(&x, 1);
			vx_assert(x == theData[i], "the rest of data");
		}
	vx_assert(s->GetReadSize() == 0, "more data than written");
	BioFree(b);
	BioFree(b2);
	delete s;
	delete other;
	vx_assert(theBios == 0 && vx_live_allocs() == 0, "memory leak");
	vx_reach("end");
}
