// Minimal run-time-monitoring framework shared by all harness binaries.
//
// A binary registers checks.  A check runs numbered cases, each fully determined by
// (seed, property, case number).  Inside a case the monitors call expect()/fail();
// what they observed is counted with count()/seen()/sample().
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <unordered_set>
#include <vector>
#include <functional>
#include <stdarg.h>

namespace vh
{

// the code under test prints to stdout/stderr: reports go to a private copy of the original stdout
inline FILE *&out()
{
	static FILE *f = stdout;
	return f;
}

struct Rng {
	uint64_t s[2];
	static uint64_t splitmix(uint64_t &x)
	{
		uint64_t z = (x += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t seed = 1) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
	uint64_t u64()
	{
		uint64_t a = s[0], b = s[1];
		s[0] = b;
		a ^= a << 23;
		s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
		return s[1] + b;
	}
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
	double unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
	double logu(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
	bool chance(double p) { return unit() < p; }
	double gauss()
	{
		double u = unit(), v = unit();

		if (u < 1e-300) { u = 1e-300; }

		return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
	}
	template<typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c159e3779b9ull);
	return Rng::splitmix(x);
}
inline uint64_t hash_str(const char *s)
{
	uint64_t h = 1469598103934665603ull;

	while (*s) { h = (h ^ (uint8_t) * s++) * 1099511628211ull; }

	return h;
}
template<typename T> uint64_t hash_bytes(const T &v, uint64_t h = 1469598103934665603ull)
{
	const uint8_t *p = (const uint8_t *)&v;

	for (size_t i = 0; i < sizeof(T); i++) { h = (h ^ p[i]) * 1099511628211ull; }

	return h;
}

struct Ctx {
	const char *prop{nullptr};
	uint64_t case_no{0};
	bool thorough{false};
	bool verbose{false};
	Rng rng{1};

	std::map<std::string, uint64_t> counters;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
	std::map<std::string, double> maxima;
	uint64_t evaluations{0};
	uint64_t violations{0};
	uint64_t case_violations{0};
	std::map<std::string, uint64_t> viol_keys;
	std::string log; // history of the current case, printed with a violation

	void count(const char *name, uint64_t n = 1) { counters[name] += n; }
	void eval(uint64_t n = 1) { evaluations += n; }
	// remember a non-trivial situation actually observed (bounded memory)
	void seen(uint64_t h) { if (distinct.size() < 400000) { distinct.insert(h); } }
	void peak(const char *name, double v)
	{
		auto it = maxima.find(name);

		if (it == maxima.end()) { maxima[name] = v; }

		else if (v > it->second) { it->second = v; }
	}
	void sample(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		if (samples.size() >= 4) { return; }

		char b[600];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(b, sizeof(b), fmt, ap);
		va_end(ap);
		samples.push_back(b);
	}
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char b[600];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(b, sizeof(b), fmt, ap);
		va_end(ap);

		if (verbose) { fprintf(out(), "%s\n", b); }

		log += b;
		log += "\n";

		if (log.size() > 6000) { log.erase(0, log.size() - 5000); }
	}
	static std::string esc(const std::string &s)
	{
		std::string o;

		for (char c : s) {
			if (c == '"' || c == '\\') { o += '\\'; o += c; }

			else if (c == '\n') { o += "\\n"; }

			else if ((unsigned char)c < 32 || (unsigned char)c > 126) { o += ' '; }

			else { o += c; }
		}

		return o;
	}
	// key: stable name of what failed (used for known findings); fmt: details
	void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)))
	{
		char b[1500];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(b, sizeof(b), fmt, ap);
		va_end(ap);
		violations++;
		case_violations++;
		uint64_t &n = viol_keys[key];

		if (n++ < 3 || verbose) {
			fprintf(out(), "VIOL {\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\",\"log\":\"%s\"}\n", esc(key).c_str(),
			       (unsigned long long)case_no, esc(b).c_str(), esc(log).c_str());
			fflush(out());
		}
	}
	bool expect(bool ok, const char *key, const char *fmt, ...) __attribute__((format(printf, 4, 5)))
	{
		evaluations++;

		if (ok) { return true; }

		char b[1500];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(b, sizeof(b), fmt, ap);
		va_end(ap);
		fail(key, "%s", b);
		return false;
	}
	// |a-b| <= tol, NaN fails
	bool near(double a, double b, double tol, const char *key, const char *what)
	{
		evaluations++;

		if (std::fabs(a - b) <= tol) { return true; }

		fail(key, "%s: got %.9g expected %.9g (tolerance %.3g)", what, a, b, tol);
		return false;
	}
};

struct Check {
	const char *prop;
	std::function<void(Ctx &)> run;
};
inline std::vector<Check> &registry()
{
	static std::vector<Check> r;
	return r;
}
struct Register {
	Register(const char *p, std::function<void(Ctx &)> f) { registry().push_back({p, f}); }
};
#define VH_CHECK(ID) \
	static void check_##ID(vh::Ctx &c); \
	static vh::Register reg_##ID(#ID, check_##ID); \
	static void check_##ID(vh::Ctx &c)

int main_(int argc, char **argv);

} // namespace vh
