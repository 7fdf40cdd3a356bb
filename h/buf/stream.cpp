#include "vx.h"
#include "mg/box/IOVec.h"
#include "mg/net/Buffer.h"
#include <cstring>

// A stream of buffers under a history of operations with any sizes:
//  c copy, r reference to raw memory, k reference to a chain of 1-2 copy buffers, maybe not full,
//  e ensure write size, p write into the reserved space, R read, S skip, K peek, P pop, C clear, ? any of them.
// The bytes are numbered in the order in which they are written.
using namespace mg::net;
#define MAXDATA 40
static const char theScript[] = SCRIPT;
static uint8_t theWritten, theRead; // the stream has the bytes [read, written)
static BufferStream* theStream;

// A concrete value on each path.
static uint64_t Choose(uint64_t lo, uint64_t hi)
{
	uint64_t v = vx_u8(), r = lo;
	for (uint64_t i = lo; i <= hi; ++i)
		if (v == i) r = i;
	return r;
}
static uint8_t theRaw[MAXDATA + 8];
static void Check()
{
	uint8_t left = theWritten - theRead;
	vx_assert(theStream->GetReadSize() == left, "read size");
	unsigned n = 0;
	bool free = false;
	uint64_t wsize = 0;
	const Buffer* w = theStream->GetWritePos();
	const Buffer* b = theStream->GetReadPos();
	vx_assert(theStream->IsEmpty() == (b == nullptr), "emptiness");
	vx_assert(b != nullptr || w == nullptr, "space for writing in the empty stream");
	bool isFirst = true;
	for (; b != nullptr; b = b->myNext.GetPointer())
	{
		vx_assert(b->myPos <= b->myCapacity, "buffer bounds");
		for (unsigned i = 0; i < b->myPos; ++i, ++n)
			vx_assert(b->myRData[i] == (uint8_t)(theRead + n), "bytes in the stream");
		if (b == w)
		{
			free = true;
			vx_assert(b->myPos < b->myCapacity, "no space at the write position");
		}
		else if (free) vx_assert(b->myPos == 0 && b->myCapacity > 0, "data after the write position or an empty buffer");
		if (free) wsize += b->myCapacity - b->myPos;
		if (isFirst) vx_assert(b->myPos > 0 || left == 0, "data does not start in the head");
		isFirst = false;
	}
	vx_assert(n == left, "amount of bytes");
	vx_assert(free == (w != nullptr), "write position out of the stream");
	vx_assert(theStream->GetWriteSize() == wsize, "write size");
}
static void CheckOut(const uint8_t* d, uint64_t n, const char* what)
{
	for (uint64_t i = 0; i < n; ++i) vx_assert(d[i] == (uint8_t)(theRead + i), what);
}
static void Do(char op)
{
	uint8_t left = theWritten - theRead;
	switch (op)
	{
	case 'c':
	{
		uint64_t n = Choose(0, MAXCOPY);
		uint8_t d[MAXCOPY + 1];
		for (unsigned i = 0; i < MAXCOPY; ++i) d[i] = theWritten + i;
		theStream->WriteCopy(d, n);
		theWritten += n;
		break;
	}
	case 'r':
	{
		uint64_t n = Choose(0, 2);
		uint8_t* d = new uint8_t[2];
		d[0] = theWritten; d[1] = theWritten + 1;
		theStream->WriteRef(BuffersRef(d, n));
		theWritten += n;
		break;
	}
	case 'k':
	{
		Buffer::Ptr head = BufferCopy::NewShared();
		uint64_t n = Choose(1, MG_VX_BUFFER_COPY_SIZE);
		for (unsigned i = 0; i < n; ++i) head->myWData[i] = theWritten + i;
		head->myPos = (uint32_t)n;
		theWritten += n;
		if (vx_bool())
		{
			Buffer* b = (head->myNext = BufferCopy::NewShared()).GetPointer();
			n = Choose(1, MG_VX_BUFFER_COPY_SIZE);
			for (unsigned i = 0; i < n; ++i) b->myWData[i] = theWritten + i;
			b->myPos = (uint32_t)n;
			theWritten += n;
		}
		theStream->WriteRef(std::move(head));
		break;
	}
	case 'e':
	{
		uint64_t n = Choose(0, MG_VX_BUFFER_COPY_SIZE * 2 + 1);
		uint64_t before = theStream->GetWriteSize();
		theStream->EnsureWriteSize(n);
		vx_assert(theStream->GetWriteSize() >= n, "not enough is reserved");
		if (before >= n) vx_assert(theStream->GetWriteSize() == before, "more than needed is reserved");
		break;
	}
	case 'p':
	{
		uint64_t size = theStream->GetWriteSize();
		if (size == 0) break;
		mg::box::IOVec v[4];
		uint32_t count = BuffersToIOVecsForRead(theStream->GetWritePos(), v, 4);
		uint64_t n = Choose(0, MG_VX_BUFFER_COPY_SIZE * 2);
		vx_assume(n <= size);
		uint64_t k = 0, total = 0;
		for (uint32_t i = 0; i < count; ++i)
		{
			vx_assert(v[i].mySize > 0, "empty vector");
			total += v[i].mySize;
			for (uint64_t j = 0; j < v[i].mySize && k < n; ++j)
				((uint8_t*)v[i].myData)[j] = (uint8_t)(theWritten + k++);
		}
		vx_assert(total == size || count == 4, "the vectors are not all of the free space");
		vx_assume(k == n); // 4 vectors are enough
		theStream->PropagateWritePos(n);
		theWritten += n;
		vx_reach("propagated");
		break;
	}
	case 'R':
	case 'K':
	{
		uint64_t n = Choose(0, MAXREAD);
		vx_assume(n <= left);
		uint8_t d[MAXREAD + 1];
		d[n] = 201;
		if (op == 'R') theStream->ReadData(d, n);
		else theStream->PeekData(d, n);
		vx_assert(d[n] == 201, "more than requested is read");
		CheckOut(d, n, "read data");
		if (op == 'R') theRead += n;
		break;
	}
	case 'S':
	{
		uint64_t n = Choose(0, MAXREAD);
		vx_assume(n <= left);
		theStream->SkipData(n);
		theRead += n;
		break;
	}
	case 'P':
	{
		Buffer::Ptr p = theStream->PopData();
		unsigned n = 0;
		for (const Buffer* b = p.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
			for (unsigned i = 0; i < b->myPos; ++i, ++n)
				vx_assert(b->myRData[i] == (uint8_t)(theRead + n), "popped data");
		vx_assert(n == left, "not all the data is popped");
		theRead = theWritten;
		break;
	}
	case 'C':
		theStream->Clear();
		theRead = theWritten;
		vx_assert(theStream->IsEmpty(), "not empty when cleared");
		break;
	}
}
extern "C" void vx_main()
{
	int64_t live = vx_live_allocs();
	{
		BufferStream s;
		theStream = &s;
		for (unsigned i = 0; theScript[i] != 0; ++i)
		{
			char op = theScript[i];
			if (op == '?') op = "crkepRSKPC"[Choose(0, 9)];
			Do(op);
			Check();
		}
		vx_reach("end");
	}
	theStream = nullptr;
}
