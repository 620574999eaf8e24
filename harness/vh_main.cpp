#include "vh.hpp"
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>

int main(int argc, char **argv)
{
	std::string prop;
	uint64_t seed = 1, from = 0, to = 1, step = 1;
	bool thorough = false, verbose = false;

	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&](const char *k) -> const char * {
			size_t n = strlen(k);
			return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr;
		};
		const char *v;

		if ((v = val("--prop="))) { prop = v; }

		else if ((v = val("--seed="))) { seed = strtoull(v, nullptr, 10); }

		else if ((v = val("--from="))) { from = strtoull(v, nullptr, 10); }

		else if ((v = val("--to="))) { to = strtoull(v, nullptr, 10); }

		else if ((v = val("--step="))) { step = strtoull(v, nullptr, 10); }

		else if (a == "--thorough") { thorough = true; }

		else if (a == "--verbose") { verbose = true; }
	}

	const vh::Check *chk = nullptr;

	for (auto &c : vh::registry()) { if (prop == c.prop) { chk = &c; } }

	if (!chk) { fprintf(stderr, "no such check %s\n", prop.c_str()); return 3; }

	{
		int fd = dup(1);
		vh::out() = fdopen(fd, "w");

		if (!verbose) {
			if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) { return 3; }
		}
	}

	vh::Ctx ctx;
	ctx.prop = chk->prop;
	ctx.thorough = thorough;
	ctx.verbose = verbose;
	uint64_t cases = 0;

	for (uint64_t i = from; i < to; i += step) {
		// progress marker, so that a crash can be attributed to a case
		fprintf(vh::out(), "CASE %llu\n", (unsigned long long)i);
		fflush(vh::out());
		ctx.case_no = i;
		ctx.case_violations = 0;
		ctx.log.clear();
		ctx.rng = vh::Rng(vh::mix(vh::mix(seed, vh::hash_str(chk->prop)), i));
		chk->run(ctx);
		cases++;

		if (ctx.violations > 400) { break; }
	}

	fprintf(vh::out(), "STATS {\"cases\":%llu,\"evaluations\":%llu,\"violations\":%llu,\"counters\":{", (unsigned long long)cases,
	       (unsigned long long)ctx.evaluations, (unsigned long long)ctx.violations);
	bool first = true;

	for (auto &k : ctx.counters) {
		fprintf(vh::out(), "%s\"%s\":%llu", first ? "" : ",", vh::Ctx::esc(k.first).c_str(), (unsigned long long)k.second);
		first = false;
	}

	fprintf(vh::out(), "},\"maxima\":{");
	first = true;

	for (auto &k : ctx.maxima) {
		double v = std::isfinite(k.second) ? k.second : 1e300;
		fprintf(vh::out(), "%s\"%s\":%.6g", first ? "" : ",", vh::Ctx::esc(k.first).c_str(), v);
		first = false;
	}

	fprintf(vh::out(), "},\"samples\":[");
	first = true;

	for (auto &s : ctx.samples) {
		fprintf(vh::out(), "%s\"%s\"", first ? "" : ",", vh::Ctx::esc(s).c_str());
		first = false;
	}

	fprintf(vh::out(), "],\"viol_keys\":{");
	first = true;

	for (auto &k : ctx.viol_keys) {
		fprintf(vh::out(), "%s\"%s\":%llu", first ? "" : ",", vh::Ctx::esc(k.first).c_str(), (unsigned long long)k.second);
		first = false;
	}

	fprintf(vh::out(), "}}\nDISTINCT %zu", ctx.distinct.size());

	for (uint64_t h : ctx.distinct) { fprintf(vh::out(), " %llx", (unsigned long long)h); }

	fprintf(vh::out(), "\nDONE\n");
	return 0;
}
