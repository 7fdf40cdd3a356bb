#include "vx.h"
#include "mg/box/IOVec.h"
#include "mg/net/Buffer.h"
#include <cstring>

// A list of links under a history of operations with any chains and sizes:
//  r reference to a chain, s the same by a pointer to move, m move of 1-2 links, c copy, R reference to raw memory,
//  k skip data, x skip empty prefix, a append another list, 2 a second list referencing the first chain is emptied.
// The bytes are numbered in the order in which they are appended.
using namespace mg::net;
static const char theScript[] = SCRIPT;
static uint8_t theWritten, theRead;
static BufferLinkList* theList;
static uint32_t theOffset;

static uint64_t Choose(uint64_t lo, uint64_t hi)
{
	uint64_t v = vx_u8(), r = lo;
	for (uint64_t i = lo; i <= hi; ++i)
		if (v == i) r = i;
	return r;
}
// Buffers which somebody else references too.
struct Kept { Buffer::Ptr ptr; const Buffer* next; uint32_t pos, cap; const uint8_t* data; };
static Kept theKept[16];
static unsigned theKeptCount;
static Buffer::Ptr MakeBuffer(uint32_t lo)
{
	uint8_t* d = new uint8_t[2];
	d[0] = theWritten; d[1] = theWritten + 1;
	uint32_t n = (uint32_t)Choose(lo, 2);
	theWritten += n;
	return BufferRaw::NewShared(d, n, 2);
}
static Buffer::Ptr MakeChain()
{
	Buffer::Ptr a = MakeBuffer(0);
	Buffer* last = a.GetPointer();
	if (vx_bool()) last = (a->myNext = MakeBuffer(0)).GetPointer();
#ifdef CHAIN3
	if (vx_bool()) last->myNext = MakeBuffer(0);
#endif
	if (SHARED)
		for (Buffer* b = a.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			Kept& k = theKept[theKeptCount++];
			k.ptr = Buffer::Ptr(b);
			k.next = b->myNext.GetPointer();
			k.pos = b->myPos;
			k.cap = b->myCapacity;
			k.data = b->myRData;
		}
	return a;
}
static void Check()
{
	uint8_t n = 0, left = theWritten - theRead;
	uint32_t off = theOffset;
	bool isFirst = true;
	for (const BufferLink* l = theList->GetFirst(); l != nullptr; l = l->myNext)
		for (const Buffer* b = l->myHead.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			if (b->myPos == 0) continue;
			// The offset is inside of the first buffer with data.
			if (isFirst) vx_assert(off < b->myPos, "the offset is not in the first buffer");
			isFirst = false;
			for (uint32_t i = off; i < b->myPos; ++i, ++n)
				vx_assert(b->myRData[i] == (uint8_t)(theRead + n), "bytes of the list");
			off = 0;
		}
	vx_assert(n == left, "amount of bytes");
	if (isFirst) vx_assert(theOffset == 0, "offset without data");
	if (theList->IsEmpty()) vx_assert(left == 0, "empty with data");
	vx_assert(theList->IsEmpty() == (theList->GetFirst() == nullptr), "emptiness");
	for (unsigned i = 0; i < theKeptCount; ++i)
	{
		const Kept& k = theKept[i];
		vx_assert(k.ptr->myPos == k.pos && k.ptr->myCapacity == k.cap && k.ptr->myRData == k.data, "a shared buffer is changed");
		vx_assert(k.ptr->myNext.GetPointer() == k.next, "a shared chain is broken");
	}
}
static void Do(char op)
{
	uint8_t left = theWritten - theRead;
	switch (op)
	{
	case 'r': { Buffer::Ptr p = MakeChain(); theList->AppendRef(p); break; }
	case 's': theList->AppendRef(MakeChain()); break;
	case 'm':
	{
		BufferLink* l = new BufferLink(MakeChain());
		if (vx_bool()) l->myNext = new BufferLink(vx_bool() ? MakeBuffer(0) : Buffer::Ptr());
		theList->AppendMove(l);
		break;
	}
	case 'c':
	{
		uint8_t d[3] = {theWritten, (uint8_t)(theWritten + 1), (uint8_t)(theWritten + 2)};
		uint64_t n = Choose(0, 3);
		theList->AppendCopy(d, n);
		d[0] = d[1] = d[2] = 200;
		theWritten += n;
		break;
	}
	case 'R':
	{
		uint8_t* d = new uint8_t[2];
		d[0] = theWritten; d[1] = theWritten + 1;
		uint64_t n = Choose(0, 2);
		theList->AppendRef(d, n);
		theWritten += n;
		break;
	}
	case 'k':
	{
		uint64_t n = Choose(0, 6);
		vx_assume(n <= left);
		theList->SkipData(theOffset, n);
		theRead += n;
		break;
	}
	case 'x':
	{
		theList->SkipEmptyPrefix(theOffset);
		const BufferLink* l = theList->GetFirst();
		vx_assert((l != nullptr) == (left > 0), "empty prefix is not skipped");
		if (l != nullptr) vx_assert(l->myHead.IsSet() && l->myHead->myPos > 0, "no data in the beginning");
		break;
	}
	case 'a':
	{
		BufferLinkList other;
		if (vx_bool()) other.AppendRef(MakeChain());
		if (vx_bool()) other.AppendRef(MakeChain());
		theList->Append(std::move(other));
		vx_assert(other.IsEmpty(), "moved list is not empty");
		break;
	}
	case '2':
	{
		BufferLinkList other;
		if (theKeptCount == 0) break;
		other.AppendRef(theKept[0].ptr);
		uint32_t off = 0;
		if (vx_bool()) other.SkipData(off, 1 <= theKept[0].pos ? 1 : 0);
		else other.SkipEmptyPrefix(off);
		if (vx_bool()) other.Clear();
		break;
	}
	}
}
extern "C" void vx_main()
{
	{
		BufferLinkList l;
		theList = &l;
		for (unsigned i = 0; theScript[i] != 0; ++i)
		{
			char op = theScript[i];
			if (op == '?') op = "rsmcRkxa2"[Choose(0, 8)];
			Do(op);
			Check();
		}
		vx_reach("end");
	}
}
