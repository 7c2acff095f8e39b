// Value helpers of mg::box: exhaustive enumeration of inputs against independent references.
#include "mc.h"
#include "mg/box/Error.h"
#include "mg/box/IOVec.h"
#include "mg/box/StringFunctions.h"
#include "mg/box/Time.h"

#include <string>
#include <string.h>
#include <stdio.h>

namespace {
bool refSpace(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }

std::string chooseString(const char* alpha, int alen, int maxLen)
{
	int len = mc_choose(maxLen + 1);
	std::string s;
	for (int i = 0; i < len; ++i)
		s += alpha[mc_choose(alen)];
	return s;
}

// Reference: optional spaces, optional plus, then digits only, value not above max.
bool refNumber(const std::string& s, unsigned __int128 max, unsigned __int128& out)
{
	size_t i = 0;
	while (i < s.size() && refSpace(s[i]))
		++i;
	if (i < s.size() && s[i] == '+')
		++i;
	if (i == s.size())
		return false;
	unsigned __int128 v = 0;
	for (; i < s.size(); ++i)
	{
		if (s[i] < '0' || s[i] > '9')
			return false;
		v = v * 10 + (s[i] - '0');
		if (v > max)
			return false;
	}
	out = v;
	return true;
}

template <typename T>
void checkNumber(const std::string& s, T max, const char* type)
{
	T got = 77;
	bool ok = mg::box::StringToNumber(s.c_str(), got);
	unsigned __int128 want = 0;
	bool wantOk = refNumber(s, max, want);
	MC_CHECKF(ok == wantOk, "parsing of '%s' as %s: %s", s.c_str(), type, ok ? "accepted" : "rejected");
	mc_outcome("%s accepted=%d", type, ok);
	if (ok)
		MC_CHECKF(got == (T)want, "parsing of '%s' as %s gives %llu", s.c_str(), type, (unsigned long long)got);
}
void checkNumbers(const std::string& s)
{
	checkNumber<uint16_t>(s, UINT16_MAX, "uint16");
	checkNumber<uint32_t>(s, UINT32_MAX, "uint32");
	checkNumber<uint64_t>(s, UINT64_MAX, "uint64");
}
}

MC_SCENARIO(string_to_number)
{
	checkNumbers(chooseString("019+- x\t", 8, (int)mc_param("len", 6)));
}

// Numbers around the type limits, with leading zeros, spaces, signs and junk.
MC_SCENARIO(string_to_number_limits)
{
	static const unsigned __int128 bases[] = {0, 9, 255, 32767, UINT16_MAX, INT32_MAX, UINT32_MAX, INT64_MAX, UINT64_MAX,
		(unsigned __int128)UINT64_MAX * 10 + 9, (unsigned __int128)UINT64_MAX * 2, (unsigned __int128)UINT32_MAX * UINT32_MAX};
	unsigned __int128 v = bases[mc_choose(sizeof(bases) / sizeof(bases[0]))];
	int d = mc_choose(11) - 5;
	if (d < 0 && v < (unsigned)-d)
		mc_discard();
	v += d;
	int mul = mc_choose(3);
	for (int i = 0; i < mul; ++i)
		v = v * 16 + 16;
	std::string digits;
	do digits.insert(digits.begin(), '0' + (int)(v % 10)); while ((v /= 10) != 0);
	static const char* pre[] = {"", " ", "\t ", "0", "000000000000000000000000000", "-", " -", "+", "-0", "- ", "+-", "a", "\n\r\v\f "};
	static const char* post[] = {"", " ", "a", ".", "-", "e1", ".0", "\t"};
	checkNumbers(pre[mc_choose(13)] + digits + post[mc_choose(8)]);
}

MC_SCENARIO(string_trim)
{
	std::string s = chooseString(" \tab\n\xa0", 6, (int)mc_param("len", 7));
	std::string want = s;
	while (!want.empty() && refSpace(want.back()))
		want.pop_back();
	while (!want.empty() && refSpace(want[0]))
		want.erase(0, 1);
	std::string got = s;
	mg::box::StringTrim(got);
	MC_CHECKF(got == want, "trim of '%s' gives '%s'", s.c_str(), got.c_str());
	MC_CHECK(strlen(got.c_str()) == got.size());
}

MC_SCENARIO(string_format)
{
	// All lengths around the small ones and around powers of two.
	int n;
	int k = mc_choose(100 + 3 * 8);
	if (k < 100) n = k;
	else { k -= 100; n = (128 << (k / 3)) + k % 3 - 1; }
	std::string s(n, 'q');
	for (int i = 0; i < n; ++i)
		s[i] = 'a' + i % 26;
	std::string r = mg::box::StringFormat("%s", s.c_str());
	MC_CHECKF(r == s, "formatting a string of %d bytes is wrong", n);
	r = mg::box::StringFormat("<%s|%d|%s>", s.c_str(), n, "x%dy");
	char num[16];
	snprintf(num, sizeof(num), "%d", n);
	MC_CHECKF(r == "<" + s + "|" + num + "|x%dy>", "formatting a string of %d bytes is wrong", n);
	// Bounded formatting.
	char buf[64];
	for (int cap = 0; cap <= 32; ++cap)
	{
		memset(buf, 'Z', sizeof(buf));
		struct H { static uint32_t f(char* b, uint32_t c, const char* fmt, ...) { va_list va; va_start(va, fmt); uint32_t rc = mg::box::Vsnprintf(b, c, fmt, va); va_end(va); return rc; } };
		uint32_t rc = H::f(buf, cap, "%s", s.c_str());
		MC_CHECKF(rc == (uint32_t)n, "the bounded formatting returned %u for %d bytes", rc, n);
		for (int i = cap; i < 64; ++i)
			MC_CHECKF(buf[i] == 'Z', "the bounded formatting wrote past the buffer");
		if (cap > 0)
		{
			int len = n < cap - 1 ? n : cap - 1;
			MC_CHECKF(memcmp(buf, s.c_str(), len) == 0 && buf[len] == 0, "the bounded formatting result is wrong");
		}
	}
}

MC_SCENARIO(string_case)
{
	std::string a = chooseString("aAb\xe4", 4, 4);
	std::string b = chooseString("aAbB", 4, 3);
	auto low = [](std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; };
	size_t pos = low(a).find(low(b));
	const char* got = mg::box::Strcasestr(a.c_str(), b.c_str());
	MC_CHECKF(pos == std::string::npos ? got == nullptr : got == a.c_str() + pos, "case-insensitive search of '%s' in '%s' is wrong", b.c_str(), a.c_str());
	MC_CHECK((mg::box::Strcasecmp(a.c_str(), b.c_str()) == 0) == (low(a) == low(b)));
	MC_CHECK((mg::box::Strcmp(a.c_str(), b.c_str()) == 0) == (a == b));
	MC_CHECK(mg::box::Strlen(a.c_str()) == a.size());
}

// All shapes of vectors and all offsets: the view after the advance is exactly the remaining bytes.
MC_SCENARIO(iovec_advance)
{
	int cnt = mc_choose((int)mc_param("vecs", 4) + 1);
	static uint8_t mem[64];
	mg::box::IOVec v[8], orig[8];
	int total = 0;
	for (int i = 0; i < cnt; ++i)
	{
		v[i].mySize = mc_choose(4);
		v[i].myData = mem + i * 8;
		total += (int)v[i].mySize;
		orig[i] = v[i];
	}
	int off = mc_choose(total + 1);
	// One go or two goes.
	int first = mc_choose(off + 1);
	mg::box::IOVec* p = v;
	uint32_t n = cnt;
	mg::box::IOVecPropagate(p, n, first);
	mg::box::IOVecPropagate(p, n, off - first);
	MC_CHECKF(p >= v && p + n == v + cnt, "the range of vectors is wrong after the advance");
	int k = 0, pos = 0, skip = off;
	for (uint32_t i = 0; i < n; ++i)
		for (size_t j = 0; j < p[i].mySize; ++j)
		{
			// The next expected byte.
			uint8_t* want = nullptr;
			int seen = 0;
			for (int a = 0; a < cnt && want == nullptr; ++a)
				for (size_t b = 0; b < orig[a].mySize; ++b)
					if (seen++ == skip + pos) { want = (uint8_t*)orig[a].myData + b; break; }
			MC_CHECKF((uint8_t*)p[i].myData + j == want, "a wrong byte is left after the advance");
			++pos;
		}
	(void)k;
	MC_CHECKF(pos == total - off, "%d bytes are left after an advance by %d of %d", pos, off, total);
	mc_outcome("cnt=%d off=%d", cnt, off);
}

MC_SCENARIO(time_limits)
{
	static const uint64_t nows[] = {0, 1, 1000, 123456789, (uint64_t)INT32_MAX * 4};
	uint64_t now = nows[mc_choose(5)];
	mc_set_now_ns(now * 1000000 + 999999);
	MC_CHECK(mg::box::GetMilliseconds() == now);
	MC_CHECK(mg::box::GetNanoseconds() == now * 1000000 + 999999);
	MC_CHECK(mg::box::GetMillisecondsPrecise() >= (double)now && mg::box::GetMillisecondsPrecise() < (double)now + 1);
	static const uint64_t vals[] = {0, 1, 2, INT32_MAX, UINT32_MAX, (uint64_t)INT64_MAX - 1, INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX - 1, UINT64_MAX};
	int i = mc_choose(10 + 6 + 3);
	uint64_t v;
	if (i < 10) v = vals[i];
	else if (i < 16) v = UINT64_MAX - now + (i - 13);
	else { v = now + (i - 17); if (now == 0 && i == 16) mc_discard(); }
	uint64_t inf = mg::box::theTimePointInf.myValue;
	// Duration to a point: never in the past, saturates at infinity.
	mg::box::TimeDuration d(v);
	MC_CHECK(d.myValue == v);
	uint64_t sat = (unsigned __int128)v + now >= inf ? inf : v + now;
	MC_CHECKF(d.ToPointFromNow().myValue == sat, "duration %llu at %llu gives point %llu", (unsigned long long)v, (unsigned long long)now, (unsigned long long)d.ToPointFromNow().myValue);
	mg::box::TimeLimit ld(d);
	MC_CHECK(ld.myType == mg::box::TIME_LIMIT_DURATION && ld.ToPointFromNow().myValue == sat && ld.ToDurationFromNow().myValue == v);
	// Point to a duration.
	mg::box::TimePoint p(v);
	mg::box::TimeLimit lp(p);
	MC_CHECK(lp.myType == mg::box::TIME_LIMIT_POINT && lp.ToPointFromNow().myValue == v);
	uint64_t wd = v == inf ? inf : v <= now ? 0 : v - now;
	MC_CHECKF(lp.ToDurationFromNow().myValue == wd, "point %llu at %llu gives duration %llu", (unsigned long long)v, (unsigned long long)now, (unsigned long long)lp.ToDurationFromNow().myValue);
	lp.Reset();
	MC_CHECK(lp.myType == mg::box::TIME_LIMIT_NONE);
	mg::box::TimeLimit none;
	MC_CHECK(none.myType == mg::box::TIME_LIMIT_NONE);
	// Negative durations are zero.
	MC_CHECK(mg::box::TimeDuration((int32_t)v).myValue == ((int32_t)v < 0 ? 0 : (uint64_t)(int32_t)v));
	MC_CHECK(mg::box::TimeDuration((int64_t)v).myValue == ((int64_t)v < 0 ? 0 : v));
	MC_CHECK(mg::box::TimeDuration((uint32_t)v).myValue == (uint32_t)v);
	MC_CHECK((mg::box::TimePoint(v) <= mg::box::TimePoint(now)) == (v <= now));
	MC_CHECK((mg::box::TimePoint(now) <= mg::box::TimePoint(v)) == (now <= v));
}

// Every errno value and every platform-agnostic code: classification and raising.
MC_SCENARIO(error_codes)
{
	using namespace mg::box;
	int e = mc_choose(140);
	ErrorCode c = ErrorCodeFromErrno(e);
	struct { int e; ErrorCode c; } map[] = {
		{EACCES, ERR_SYS_FORBIDDEN}, {EPERM, ERR_SYS_FORBIDDEN}, {EBADF, ERR_SYS_BAD_DESCRIPTOR}, {EEXIST, ERR_SYS_EXISTS},
		{EMFILE, ERR_SYS_TOO_MANY_DESCRIPTORS}, {ENFILE, ERR_SYS_TOO_MANY_DESCRIPTORS}, {ENOENT, ERR_SYS_NOT_FOUND}, {EAGAIN, ERR_SYS_WOULDBLOCK},
		{EWOULDBLOCK, ERR_SYS_WOULDBLOCK}, {EBUSY, ERR_SYS_BUSY}, {EISDIR, ERR_SYS_IS_DIR}, {EINVAL, ERR_SYS_BAD_ARG}, {EIO, ERR_SYS_IO},
		{ENAMETOOLONG, ERR_SYS_NAME_TOO_LONG}, {ENOTDIR, ERR_SYS_NOT_DIR}, {EROFS, ERR_SYS_READ_ONLY_FS}, {ENOSPC, ERR_SYS_NO_SPACE}, {ENOMEM, ERR_SYS_NO_SPACE},
		{EFAULT, ERR_SYS_BAD_ADDR}, {EOPNOTSUPP, ERR_SYS_NOT_SUPPORTED}, {ENOTSUP, ERR_SYS_NOT_SUPPORTED}, {EFBIG, ERR_SYS_TOO_BIG},
		{EMLINK, ERR_SYS_TOO_MANY_LINKS}, {ENOTEMPTY, ERR_SYS_NOT_EMPTY}, {EOVERFLOW, ERR_SYS_OVERFLOW}, {ELOOP, ERR_SYS_LOOP},
		{EINTR, ERR_SYS_INTERRUPTED}, {ECONNRESET, ERR_NET_CLOSE_BY_PEER}, {EADDRINUSE, ERR_NET_ADDR_IN_USE}, {ECONNABORTED, ERR_NET_ABORTED},
		{ENETDOWN, ERR_NET_DOWN}, {ENETUNREACH, ERR_NET_DOWN}, {EPROTO, ERR_NET_PROTOCOL}, {ENOPROTOOPT, ERR_NET_PROTOCOL}, {EHOSTUNREACH, ERR_NET_HOST_UNREACHABLE},
		{ESTALE, ERR_SYS_BAD_DESCRIPTOR}, {EHOSTDOWN, ERR_NET_ABORTED}, {ENONET, ERR_NET_DOWN}};
	ErrorCode want = ERR_SYS;
	for (auto& m : map)
		if (m.e == e)
			want = m.c;
	MC_CHECKF(c == want, "errno %d is classified as %u instead of %u", e, (unsigned)c, (unsigned)want);
	MC_CHECKF(strcmp(ErrorCodeType(c), c >= 2000 ? "net" : "sys") == 0, "wrong group '%s' of the error code %u", ErrorCodeType(c), (unsigned)c);
	MC_CHECK(ErrorCodeTag(c) != nullptr && *ErrorCodeTag(c) != 0 && ErrorCodeMessage(c) != nullptr && *ErrorCodeMessage(c) != 0);
	// Raising keeps the code, the value and the comment.
	errno = e;
	int how = mc_choose(6);
	const char* comm = "comment %d";
	ErrorPtrRaised r = how == 0 ? ErrorRaiseErrno() : how == 1 ? ErrorRaiseErrno(e) : how == 2 ? ErrorRaiseErrno(e, comm) : how == 3 ? ErrorRaiseErrno(comm) :
		how == 4 ? ErrorRaiseFormatErrno((uint32_t)e, "comment %s", "%d") : ErrorRaiseFormatErrno("comment %s", "%d");
	MC_CHECKF(r->myCode == want && r->myValue == (uint32_t)e, "the raised error has code %u value %u instead of %u and %d", (unsigned)r->myCode, r->myValue, (unsigned)want, e);
	char num[32];
	snprintf(num, sizeof(num), "code=%u", (unsigned)want);
	MC_CHECKF(r->myMessage.find(num) != std::string::npos, "the error message '%s' has no code", r->myMessage.c_str());
	if (how >= 2)
		MC_CHECKF(r->myMessage.find("comment %d") != std::string::npos, "the error message '%s' has no comment", r->myMessage.c_str());
	Error::Ptr cause = std::move(r);
	Error::Ptr next = mc_choose(2) ? ErrorRaise(cause, "wrap") : ErrorRaise(cause.GetPointer(), "wrap");
	MC_CHECK(next->myCode == want && next->myValue == (uint32_t)e);
	MC_CHECK(next->myMessage.find(cause->myMessage) != std::string::npos && next->myMessage.find("wrap") != std::string::npos);
	{
		errno = e;
		ErrorGuard guard;
		errno = 5 + e;
	}
	MC_CHECK(errno == e);
}
