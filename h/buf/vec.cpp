#include "vx.h"
#include "mg/box/IOVec.h"
#include "mg/net/Buffer.h"

// Conversions of chains, of any shape and any sizes.
using namespace mg::net;
using mg::box::IOVec;
static uint8_t theData[8];
static uint64_t Choose(uint64_t lo, uint64_t hi)
{
	uint64_t v = vx_u8(), r = lo;
	for (uint64_t i = lo; i <= hi; ++i)
		if (v == i) r = i;
	return r;
}
// 'b' is a buffer, '|' starts a next link.
static const char theShape[] = SHAPE;
enum { MAX = sizeof(theShape) };
static Buffer* theBuf[MAX];
static unsigned theCount;
static bool theOwn; // The buffers have bytes of their own, numbered.
static uint8_t theBytes;

static Buffer::Ptr MakeChain(const char*& s, bool hasFree)
{
	Buffer::Ptr head;
	Buffer* tail = nullptr;
	for (; *s == 'b'; ++s)
	{
		Buffer::Ptr b;
		if (theOwn)
		{
			uint8_t* d = new uint8_t[3];
			uint32_t n = (uint32_t)Choose(0, 3);
			for (unsigned i = 0; i < 3; ++i)
				d[i] = theBytes + i;
			theBytes += n;
			b = BufferRaw::NewShared(d, n);
		}
		else
		{
			uint32_t pos = vx_u32(), cap = pos;
			if (hasFree)
			{
				cap = vx_u32();
				vx_assume(pos <= cap);
			}
			b = BufferRaw::NewShared(theData + theCount, pos, cap);
		}
		theBuf[theCount++] = b.GetPointer();
		if (tail == nullptr) head = b; else tail->myNext = b;
		tail = b.GetPointer();
	}
	return head;
}
static BufferLink* MakeLinks()
{
	const char* s = theShape;
	BufferLink* head = new BufferLink(MakeChain(s, true));
	BufferLink* tail = head;
	for (; *s != 0;)
	{
		++s;
		tail = tail->myNext = new BufferLink(MakeChain(s, true));
	}
	return head;
}
static void DropLinks(BufferLink* l)
{
	while (l != nullptr)
	{
		BufferLink* next = l->myNext;
		delete l;
		l = next;
	}
}
static void CheckBytes(Buffer* b)
{
	unsigned n = 0;
	vx_assert((b != nullptr) == (theBytes > 0), "copy of nothing");
	for (; b != nullptr; b = b->myNext.GetPointer())
	{
		vx_assert(b->myPos > 0 && b->myPos <= b->myCapacity && b->myCapacity == theBufferCopySize, "sizes of a copy");
		// Full before the last one.
		vx_assert(!b->myNext.IsSet() || b->myPos == b->myCapacity, "gap in a copy");
		for (unsigned i = 0; i < b->myPos; ++i, ++n)
			vx_assert(b->myRData[i] == (uint8_t)n, "bytes of a copy");
	}
	vx_assert(n == theBytes, "size of a copy");
}
extern "C" void vx_main()
{
	char what = WHAT[0];
	if (what == 'w' || what == 'l')
	{
		BufferLink* link = nullptr;
		Buffer::Ptr head;
		if (what == 'w')
		{
			const char* s = theShape;
			head = MakeChain(s, true);
		}
		else link = MakeLinks();
		uint32_t off = vx_u32();
		// Inside of the first buffer which isn't empty.
		bool hasAny = false;
		for (unsigned i = 0; i < theCount; ++i)
		{
			if (hasAny || theBuf[i]->myPos == 0) continue;
			hasAny = true;
			vx_assume(off < theBuf[i]->myPos);
		}
		if (!hasAny) vx_assume(off == 0);
		IOVec v[LIMIT + 1];
		for (unsigned i = 0; i <= LIMIT; ++i) { v[i].myData = nullptr; v[i].mySize = 77; }
		uint32_t limit = (uint32_t)Choose(0, LIMIT);
		uint32_t n = what == 'w' ? BuffersToIOVecsForWrite(head, off, v, limit) : BuffersToIOVecsForWrite(link, off, v, limit);
		unsigned expect = 0;
		for (unsigned i = 0; i < theCount; ++i)
		{
			uint32_t pos = theBuf[i]->myPos;
			if (pos == 0) continue;
			for (unsigned k = 0; k < LIMIT; ++k)
			{
				if (k != expect || k >= limit) continue;
				vx_assert(v[k].myData == theData + i + off, "start of a vector");
				vx_assert(v[k].mySize == pos - off, "size of a vector");
			}
			if (expect < limit) ++expect;
			off = 0;
		}
		vx_assert(n == expect, "count of vectors");
		for (unsigned k = 0; k <= LIMIT; ++k)
			if (k >= n) vx_assert(v[k].mySize == 77, "written past the end");
		vx_reach("end");
		DropLinks(link);
	}
	else if (what == 'r')
	{
		const char* s = theShape;
		Buffer::Ptr head = MakeChain(s, true);
		// The first one may have data, the others are free.
		vx_assume(head->myPos < head->myCapacity);
		for (unsigned i = 1; i < theCount; ++i)
		{
			theBuf[i]->myPos = 0;
			vx_assume(theBuf[i]->myCapacity > 0);
		}
		IOVec v[LIMIT + 1];
		for (unsigned i = 0; i <= LIMIT; ++i) { v[i].myData = nullptr; v[i].mySize = 77; }
		uint32_t limit = (uint32_t)Choose(1, LIMIT);
		uint32_t n = BuffersToIOVecsForRead(head, v, limit);
		vx_assert(n == (limit < theCount ? limit : theCount), "count of vectors");
		for (unsigned i = 0; i < theCount && i < LIMIT; ++i)
		{
			if (i >= n) continue;
			vx_assert(v[i].myData == theData + i + theBuf[i]->myPos, "start of a vector");
			vx_assert(v[i].mySize == theBuf[i]->myCapacity - theBuf[i]->myPos, "size of a vector");
		}
		for (unsigned k = 0; k <= LIMIT; ++k)
			if (k >= n) vx_assert(v[k].mySize == 77, "written past the end");
		vx_reach("end");
	}
	else if (what == 'c' || what == 'C' || what == 'L')
	{
		theOwn = true;
		Buffer::Ptr copy;
		if (what == 'c')
		{
			uint8_t d[7];
			for (unsigned i = 0; i < 7; ++i) d[i] = i;
			theBytes = (uint8_t)Choose(0, 7);
			copy = BuffersCopy(d, theBytes);
			for (unsigned i = 0; i < 7; ++i) d[i] = 200;
		}
		else if (what == 'C')
		{
			const char* s = theShape;
			Buffer::Ptr head = MakeChain(s, false);
			copy = BuffersCopy(head);
		}
		else
		{
			BufferLink* l = MakeLinks();
			copy = BuffersCopy(l);
			DropLinks(l);
		}
		CheckBytes(copy.GetPointer());
		vx_reach("end");
	}
	else if (what == 'f')
	{
		uint64_t size = vx_u64();
		vx_assume(size <= (uint64_t)UINT32_MAX * 3 + 5);
		Buffer::Ptr p = BuffersRef(theData, size);
		uint64_t sum = 0;
		for (Buffer* b = p.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			vx_assert(b->myPos > 0 && b->myPos == b->myCapacity, "sizes of a reference");
			vx_assert(b->myRData == theData + sum, "place of a reference");
			sum += b->myPos;
		}
		vx_assert(sum == size, "size of references");
		vx_reach("end");
	}
	else if (what == 'p')
	{
		const char* s = theShape;
		Buffer::Ptr head = MakeChain(s, true);
		uint32_t pos[MAX];
		uint64_t size = vx_u64(), free = 0;
		for (unsigned i = 0; i < theCount; ++i)
		{
			pos[i] = theBuf[i]->myPos;
			free += theBuf[i]->myCapacity - pos[i];
		}
		vx_assume(size <= free);
		Buffer* res = BuffersPropagateOnWrite(head.GetPointer(), size);
		uint64_t left = size;
		Buffer* expect = head.GetPointer();
		for (unsigned i = 0; i < theCount; ++i)
		{
			uint32_t room = theBuf[i]->myCapacity - pos[i];
			uint32_t add = left < room ? (uint32_t)left : room;
			vx_assert(theBuf[i]->myPos == pos[i] + add, "position");
			if (add > 0) expect = theBuf[i];
			left -= add;
		}
		vx_assert(res == expect, "last written buffer");
		vx_reach("end");
	}
	else
	{
		const char* s = theShape;
		Buffer::Ptr head = MakeChain(s, true), keep[MAX];
		uint32_t pos[MAX], cap[MAX];
		uint64_t size = vx_u64(), full = 0;
		for (unsigned i = 0; i < theCount; ++i)
		{
			keep[i] = Buffer::Ptr(theBuf[i]);
			pos[i] = theBuf[i]->myPos;
			cap[i] = theBuf[i]->myCapacity;
			// Only the last one with data has free space.
			full += pos[i];
		}
		vx_assume(size <= full);
		BuffersPropagateOnRead(head, size);
		// Bytes which are left in the chain are those after the given size.
		uint64_t skip = size, left = full - size, sum = 0;
		unsigned at = 0;
		for (Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			bool found = false;
			for (unsigned i = 0; i < theCount; ++i)
				if (theBuf[i] == b) { found = true; at = i; }
			vx_assert(found, "alien buffer");
			sum += b->myPos;
			for (unsigned i = 0; i < theCount; ++i)
				if (theBuf[i] == b)
				{
					uint32_t cut = pos[i] - b->myPos;
					vx_assert(b->myPos <= pos[i] && b->myCapacity == cap[i] - cut && b->myRData == theData + i + cut, "cut");
				}
		}
		vx_assert(sum == left, "amount of data");
		// The dropped ones had nothing else.
		if (!head.IsSet()) vx_assert(left == 0, "lost data");
		// Only a prefix is cut.
		for (Buffer* b = head.GetPointer() ? head->myNext.GetPointer() : nullptr; b != nullptr; b = b->myNext.GetPointer())
			for (unsigned i = 0; i < theCount; ++i)
				if (theBuf[i] == b) vx_assert(b->myPos == pos[i], "cut in the middle");
		(void)skip;
		(void)at;
		vx_reach("end");
	}
}
