#include "vx.h"
#include "mg/test/Message.h"
#include <cstring>

// Messages are written by a script, sent as a stream of bytes cut in any place, and read back:
//  ( open, ) close, 1 2 4 8 unsigned, i j l q signed, b bool, s string, d data, S long string, T take what is written.
using namespace mg::net;
using namespace mg::tst;
static const char theScript[] = SCRIPT;
#ifndef LONG
#define LONG 1
#endif
static uint64_t Choose(uint64_t lo, uint64_t hi)
{
	uint64_t v = vx_u8(), r = lo;
	for (uint64_t i = lo; i <= hi; ++i)
		if (v == i) r = i;
	return r;
}
static uint64_t theValues[sizeof(theScript)];
static char theData[sizeof(theScript)][4];
static std::string* theLongs[sizeof(theScript)];
static uint64_t theSizes[8]; // of the bodies
extern "C" void vx_main()
{
	WriteMessage w;
	Buffer::Ptr first, *last = &first;
	unsigned msg = 0;
	uint64_t total = 0, body = 0;
	for (unsigned i = 0; theScript[i]; ++i)
	{
		uint64_t v = theValues[i] = vx_u64();
		uint64_t n = 0;
		switch (theScript[i])
		{
		case '(': w.Open(); body = 0; total += sizeof(MessageHeader); break;
		case ')': w.Close(); theSizes[msg++] = body; break;
		case '1': w.WriteUInt8((uint8_t)v); body += 1; break;
		case '2': w.WriteUInt16((uint16_t)v); body += 2; break;
		case '4': w.WriteUInt32((uint32_t)v); body += 4; break;
		case '8': w.WriteUInt64(v); body += 8; break;
		case 'i': w.WriteInt8((int8_t)v); body += 1; break;
		case 'j': w.WriteInt16((int16_t)v); body += 2; break;
		case 'l': w.WriteInt32((int32_t)v); body += 4; break;
		case 'q': w.WriteInt64((int64_t)v); body += 8; break;
		case 'b': w.WriteBool((v & 1) != 0); body += 1; break;
		case 's':
			n = theValues[i] = Choose(0, 3);
			for (unsigned k = 0; k < 3; ++k) { theData[i][k] = (char)vx_u8(); if (k < n) vx_assume(theData[i][k] != 0); }
			theData[i][n] = 0;
			if (vx_bool()) w.WriteString(theData[i]);
			else w.WriteString(theData[i], n);
			body += 8 + n;
			break;
		case 'S': {
			std::string*& theLong = theLongs[i];
			theLong = new std::string(LONG, 'x');
			(*theLong)[LONG - 1] = (char)v;
			w.WriteString(*theLong);
			body += 8 + LONG;
			break;
		}
		case 'd':
			n = theValues[i] = Choose(0, 3);
			for (unsigned k = 0; k < 3; ++k) theData[i][k] = (char)vx_u8();
			w.WriteData(theData[i], n);
			body += n;
			break;
		case 'T':
			total += 0;
			*last = w.TakeData();
			while (last->IsSet()) last = &(*last)->myNext;
			vx_assert(w.GetTotalSize() == 0, "total size after a take");
			break;
		}
	}
	uint64_t all = 0;
	for (unsigned i = 0; i < msg; ++i) all += 8 + theSizes[i];
	// Cut. 
	uint64_t n = 0, cut = CUT ? Choose(0, CUT) : 0;
	uint8_t* flat = new uint8_t[all];
	for (Buffer* b = first.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
	{
		vx_assert(n + b->myPos <= all, "too many bytes");
		memcpy(flat + n, b->myRData, b->myPos);
		n += b->myPos;
	}
	vx_assert(n == all, "amount of bytes");
	BufferStream stream;
	BufferReadStream rstream(stream);
	if (CUT)
	{
		if (cut > all) cut = all;
		if (cut > 0) stream.WriteCopy(flat, cut);
		ReadMessage early(rstream);
		vx_assert(early.IsComplete() == (cut >= 8 + theSizes[0]), "completeness");
		vx_assert(stream.GetReadSize() == cut, "the check consumes data");
		if (cut < all) stream.WriteCopy(flat + cut, all - cut);
	}
	else
		stream.WriteRef(std::move(first));
	ReadMessage r(rstream);
	msg = 0;
	for (unsigned i = 0; theScript[i]; ++i)
	{
		uint64_t v = theValues[i];
		switch (theScript[i])
		{
		case '(':
			vx_assert(r.IsComplete(), "a complete message is not");
			r.Open();
			++msg;
			break;
		case ')': r.Close(); break;
		case '1': { uint8_t x; r.ReadUInt8(x); vx_assert(x == (uint8_t)v, "uint8"); break; }
		case '2': { uint16_t x; r.ReadUInt16(x); vx_assert(x == (uint16_t)v, "uint16"); break; }
		case '4': { uint32_t x; r.ReadUInt32(x); vx_assert(x == (uint32_t)v, "uint32"); break; }
		case '8': { uint64_t x; r.ReadUInt64(x); vx_assert(x == v, "uint64"); break; }
		case 'i': { int8_t x; r.ReadInt8(x); vx_assert(x == (int8_t)v, "int8"); break; }
		case 'j': { int16_t x; r.ReadInt16(x); vx_assert(x == (int16_t)v, "int16"); break; }
		case 'l': { int32_t x; r.ReadInt32(x); vx_assert(x == (int32_t)v, "int32"); break; }
		case 'q': { int64_t x; r.ReadInt64(x); vx_assert(x == (int64_t)v, "int64"); break; }
		case 'b': { bool x; r.ReadBool(x); vx_assert(x == ((v & 1) != 0), "bool"); break; }
		case 's':
		{
			std::string x = "old";
			r.ReadString(x);
			vx_assert(x.length() == v, "length of a string");
			for (unsigned k = 0; k < 3; ++k)
				if (k < v) vx_assert(x[k] == theData[i][k], "string");
			break;
		}
		case 'S':
		{
			std::string x;
			r.ReadString(x);
			vx_assert(x == *theLongs[i], "long string");
			break;
		}
		case 'd':
		{
			char x[3];
			if (vx_bool()) { r.SkipBytes(v); break; }
			r.ReadData(x, v);
			for (unsigned k = 0; k < 3; ++k)
				if (k < v) vx_assert(x[k] == theData[i][k], "data");
			break;
		}
		}
	}
	vx_assert(r.GetAvailSize() == 0, "something is left");
	vx_reach("end");
}
