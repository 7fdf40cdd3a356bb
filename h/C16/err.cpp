#include "vx.h"
#include "mg/box/Error.h"
#include <cstring>

using namespace mg::box;
static const uint32_t begins[4] = {_ERR_BOX_BEGIN, _ERR_SYS_BEGIN, _ERR_NET_BEGIN, _ERR_SSL_BEGIN};
static const uint32_t ends[4] = {_ERR_BOX_END, _ERR_SYS_END, _ERR_NET_END, _ERR_SSL_END};
static const char* names[4] = {"box", "sys", "net", "ssl"};
static bool Valid(uint32_t c)
{
	for (int i = 0; i < 4; ++i)
		if (c >= begins[i] && c < ends[i])
			return true;
	return false;
}
#if WHAT == 1
// What each system error means.
static uint32_t Meaning(int e)
{
	switch (e)
	{
	case EACCES: case EPERM: return ERR_SYS_FORBIDDEN;
	case EBADF: case ESTALE: return ERR_SYS_BAD_DESCRIPTOR;
	case EEXIST: return ERR_SYS_EXISTS;
	case EMFILE: case ENFILE: return ERR_SYS_TOO_MANY_DESCRIPTORS;
	case ENOENT: return ERR_SYS_NOT_FOUND;
	case EAGAIN: return ERR_SYS_WOULDBLOCK;
	case EBUSY: return ERR_SYS_BUSY;
	case EISDIR: return ERR_SYS_IS_DIR;
	case EINVAL: return ERR_SYS_BAD_ARG;
	case EIO: return ERR_SYS_IO;
	case ENAMETOOLONG: return ERR_SYS_NAME_TOO_LONG;
	case ENOTDIR: return ERR_SYS_NOT_DIR;
	case EROFS: return ERR_SYS_READ_ONLY_FS;
	case ENOSPC: case ENOMEM: return ERR_SYS_NO_SPACE;
	case EFAULT: return ERR_SYS_BAD_ADDR;
	case EOPNOTSUPP: return ERR_SYS_NOT_SUPPORTED;
	case EFBIG: return ERR_SYS_TOO_BIG;
	case EMLINK: return ERR_SYS_TOO_MANY_LINKS;
	case ENOTEMPTY: return ERR_SYS_NOT_EMPTY;
	case EOVERFLOW: return ERR_SYS_OVERFLOW;
	case ELOOP: return ERR_SYS_LOOP;
	case EINTR: return ERR_SYS_INTERRUPTED;
	case ECONNRESET: return ERR_NET_CLOSE_BY_PEER;
	case EADDRINUSE: return ERR_NET_ADDR_IN_USE;
	case ECONNABORTED: case EHOSTDOWN: return ERR_NET_ABORTED;
	case ENETDOWN: case ENETUNREACH: case ENONET: return ERR_NET_DOWN;
	case EPROTO: case ENOPROTOOPT: return ERR_NET_PROTOCOL;
	case EHOSTUNREACH: return ERR_NET_HOST_UNREACHABLE;
	default: return ERR_SYS;
	}
}
static void CheckOne(const ErrorPtrRaised& e, uint32_t code, uint32_t value)
{
	vx_assert(e.myError.IsSet(), "no error is raised");
	vx_assert(e.myError->myCode == code, "code of a raised error");
	vx_assert(e.myError->myValue == value, "value of a raised error");
}
#endif

extern "C" void vx_main()
{
#if WHAT == 0
	uint32_t a = vx_u32(), b = vx_u32();
	vx_assume(Valid(a) && Valid(b));
	const char* ta = ErrorCodeTag((ErrorCode)a);
	const char* tb = ErrorCodeTag((ErrorCode)b);
	vx_assert(ta != nullptr && ta[0] != 0, "no tag");
	if (a != b)
		vx_assert(strcmp(ta, tb) != 0, "same tag of different codes");
	const char* m = ErrorCodeMessage((ErrorCode)a);
	vx_assert(m != nullptr && m[0] != 0, "no message");
	int n = 0;
	for (int i = 0; i < 4; ++i)
		if (a >= begins[i] && a < ends[i])
		{
			++n;
			vx_assert(strcmp(ErrorCodeType((ErrorCode)a), names[i]) == 0, "category");
		}
	vx_assert(n == 1, "categories overlap");
	uint32_t c = vx_u32();
	vx_assume(!Valid(c));
	vx_assert(strcmp(ErrorCodeType((ErrorCode)c), "unknown") == 0, "category of an unknown code");
	vx_reach("end");
#elif WHAT == 1
	int e = (int)vx_u32();
	uint32_t want = Meaning(e);
	vx_assert(ErrorCodeFromErrno(e) == want, "code from errno");
	vx_assert(Valid(want), "not a valid code");
	errno = e;
	vx_assert(ErrorCodeErrno() == want, "code of the current errno");
	errno = e;
	CheckOne(ErrorRaiseErrno(), want, e);
	errno = e;
	CheckOne(ErrorRaiseErrno("text"), want, e);
	errno = e;
	CheckOne(ErrorRaiseFormatErrno("text"), want, e);
	errno = (int)vx_u32();
	CheckOne(ErrorRaiseErrno((uint32_t)e), want, e);
	CheckOne(ErrorRaiseErrno((uint32_t)e, "text"), want, e);
	CheckOne(ErrorRaiseFormatErrno((uint32_t)e, "text"), want, e);
	int before = errno;
	{
		ErrorGuard g;
		errno = (int)vx_u32();
	}
	vx_assert(errno == before, "errno is not restored");
	vx_reach("end");
#else
	uint32_t a = vx_u32(), v = vx_u32();
	vx_assume(Valid(a));
	{
		Error::Ptr e1 = ErrorRaise((ErrorCode)a);
		vx_assert(e1->myCode == a && e1->myValue == 0, "plain");
		Error::Ptr e2 = ErrorRaise((ErrorCode)a, v);
		vx_assert(e2->myCode == a && e2->myValue == v, "with a value");
		Error::Ptr e3 = ErrorRaise((ErrorCode)a, "comment");
		vx_assert(e3->myCode == a, "with a comment");
		Error::Ptr e4 = ErrorRaise((ErrorCode)a, v, "comment");
		vx_assert(e4->myCode == a && e4->myValue == v, "with a value and a comment");
		Error::Ptr e5 = ErrorRaiseFormat((ErrorCode)a, v, "comment");
		vx_assert(e5->myCode == a && e5->myValue == v, "with a value and a format");
		Error::Ptr e6 = ErrorRaiseFormat((ErrorCode)a, "comment");
		vx_assert(e6->myCode == a, "with a format");
		Error::Ptr w1 = ErrorRaise(e4, "comment");
		vx_assert(w1->myCode == a && w1->myValue == v, "wrapped");
		Error::Ptr w2 = ErrorRaise(w1.GetPointer(), "comment");
		vx_assert(w2->myCode == a && w2->myValue == v, "wrapped twice");
		vx_assert(w2 != w1 && w1 != e4, "a new object");
		ErrorPtrRaised r = ErrorRaise((ErrorCode)a, v);
		const Error* raw = r;
		vx_assert(raw->myCode == a && r->myValue == v, "raised");
		ErrorPtrRaised r2(static_cast<ErrorPtrRaised&&>(r));
		Error::Ptr fin = static_cast<ErrorPtrRaised&&>(r2);
		vx_assert(fin.GetPointer() == raw, "moved");
	}
	vx_reach("end");
#endif
}
