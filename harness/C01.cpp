#define private public
#define protected public
#include "common.h"
#include "convert/convert_int.h"
#include "json/json_serializer.h"
#include "templates/static_mixed_var.h"
#include "sync/sync_tls.h"
using namespace CubicleSoft;

static std::string ref(uint64_t mag, bool neg, char sep, unsigned radix)
{
	std::string r;
	unsigned k = 0;
	do { if (sep && k && k % 3 == 0) r.insert(r.begin(), sep); unsigned d = mag % radix; r.insert(r.begin(), d < 10 ? '0' + d : 'A' + d - 10); mag /= radix; k++; } while (mag);
	if (neg) r.insert(r.begin(), '-');
	return r;
}
static void one(uint64_t n, bool sgn, char sep, size_t radix, size_t size)
{
	std::string want;
	bool neg = sgn && (int64_t)n < 0;
	bool vr = radix >= 2 && radix <= 36;
	if (vr) want = ref(neg ? 0 - n : n, neg, sep, radix);
	for (int which = 0; which < 4; which++)
	{
		if (which && (!vr || sep)) continue;
		if (which == 1 && radix != 10) continue;
		CASE("fn=%d num=%llu signed=%d sep=%d radix=%zu size=%zu", which, (unsigned long long)n, sgn, sep, radix, size);
		char *b = (char *)malloc(size ? size : 1);
		if (size) memset(b, 0x5a, size);
		bool r;
		if (which == 0) r = sgn ? Convert::Int::ToString(b, size, (int64_t)n, sep, radix) : Convert::Int::ToString(b, size, (uint64_t)n, sep, radix);
		else if (which == 1) r = sgn ? JSON::Serializer::IntToString(b, size, (int64_t)n) : JSON::Serializer::IntToString(b, size, (uint64_t)n);
		else if (which == 2) r = sgn ? StaticMixedVar<char[64]>::IntToString(b, size, (int64_t)n, radix) : StaticMixedVar<char[64]>::IntToString(b, size, (uint64_t)n, radix);
		else r = sgn ? Sync::TLS::MixedVar::IntToString(b, size, (int64_t)n, radix) : Sync::TLS::MixedVar::IntToString(b, size, (uint64_t)n, radix);
		bool exp = vr && want.size() + 1 <= size;
		CHECK(r == exp, "returned %d, expected %d (text %s)", r, exp, want.c_str());
		if (r) { NONTRIV(); CHECK(strlen(b) == want.size() && want == b, "text '%s' expected '%s'", b, want.c_str()); }
		free(b);
	}
}
static void harness()
{
	if (g_replay)
	{
		uint64_t n, size, radix = 10, sep = 0;
		if (model_u64("Num", n) && model_u64("Size", size))
		{
			model_u64("Radix", radix); model_u64("Separator", sep);
			if (size > 100000) size = 200;
			one(n, false, (char)sep, radix, size); one(n, true, (char)sep, radix, size);
		}
		return;
	}
	std::vector<uint64_t> ns;
	for (int i = 0; i < 1100; i++) ns.push_back(i);
	for (size_t r = 2; r <= 36; r++) { uint64_t p = 1; while (true) { ns.push_back(p); ns.push_back(p - 1); ns.push_back(p + 1); ns.push_back(0 - p); if (p > ~0ULL / r) break; p *= r; } }
	ns.push_back(~0ULL); ns.push_back(1ULL << 63); ns.push_back((1ULL << 63) - 1); ns.push_back((1ULL << 63) + 1);
	size_t rads[] = { 10, 2, 16, 36, 8, 3, 35, 7, 0, 1, 37, 255 };
	for (size_t ri = 0; ri < sizeof(rads) / sizeof(*rads); ri++)
		for (size_t i = 0; i < ns.size() && time_left(0.7); i += (ri ? 1 + rnd(20) : 1 + rnd(4)))
			for (int s = 0; s < 2; s++)
			{
				char sep = rnd(3) ? 0 : ",._' \x80"[rnd(6)];
				size_t L = (rads[ri] >= 2 && rads[ri] <= 36) ? ref(s && (int64_t)ns[i] < 0 ? 0 - ns[i] : ns[i], s && (int64_t)ns[i] < 0, sep, rads[ri]).size() : 20;
				one(ns[i], s, sep, rads[ri], L + 1); one(ns[i], s, sep, rads[ri], L); one(ns[i], s, sep, rads[ri], 100);
				if (rnd(4) == 0) one(ns[i], s, sep, rads[ri], rnd(L + 4));
			}
	while (time_left())
	{
		uint64_t n = rndbits(); bool s = rnd(2);
		size_t radix = rnd(10) ? 2 + rnd(35) : rnd(40);
		char sep = rnd(2) ? 0 : (char)rnd(256);
		one(n, s, sep, radix, rnd(3) ? 2 + rnd(90) : rnd(4));
	}
}
