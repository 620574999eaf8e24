// U01 ring buffer, U02 IMU down-sampler, U03 scalar helpers, U04 attitude helpers, S01 range finder
#include "vh.hpp"
#include "refmath.hpp"
#include <EKF/common.h>
#include <EKF/RingBuffer.h>
#include <EKF/imu_down_sampler.hpp>
#include <EKF/sensor_range_finder.hpp>
#include <EKF/utils.hpp>
#include <AlphaFilter/AlphaFilter.hpp>
#include <mathlib/mathlib.h>
#include <deque>
#include <memory>

using vh::Ctx;
using namespace ref;

// ---------------------------------------------------------------------------------------------
// U01: sequential model = bounded list, oldest first
namespace
{
struct Item {
	uint64_t time_us;
	uint64_t id;
	uint64_t canary;
};
struct BufModel {
	size_t cap;
	std::deque<Item> q;
	void push(const Item &i) { q.push_back(i); if (q.size() > cap) { q.pop_front(); } }
	bool pop(uint64_t t, Item &out)
	{
		for (size_t k = q.size(); k-- > 0;) {
			if (q[k].time_us <= t && t - q[k].time_us < 100000) {
				out = q[k];
				q.erase(q.begin(), q.begin() + k + 1);
				return true;
			}
		}

		return false;
	}
};
}

VH_CHECK(U01)
{
	auto &r = c.rng;
	static const int caps[] = {1, 2, 3, 4, 5, 7, 8, 13, 20, 63, 127, 128, 200, 254, 255};
	int cap = r.chance(0.6) ? r.range(1, 6) : caps[r.below(15)];
	std::unique_ptr<RingBuffer<Item>> b;

	if (r.chance(0.5)) { b.reset(new RingBuffer<Item>(cap)); }

	else {
		b.reset(new RingBuffer<Item>());

		if (cap != 1) { b->allocate(cap); }
	}

	BufModel m{(size_t)cap, {}};
	// base time: near zero, ordinary, long uptime
	static const uint64_t bases[] = {0, 1, 50000, 99999, 100000, 1000000, 3600ull * 1000000, (1ull << 32) - 30000, 1ull << 40, 1ull << 53};
	uint64_t now = bases[r.below(10)];
	const int style = r.range(0, 4); // spacing style
	const uint64_t maxstep = style == 0 ? 3 : style == 1 ? 20000 : style == 2 ? 60000 : style == 3 ? 150000 : 100000;
	uint64_t id = 1;
	const int ops = r.chance(0.2) ? r.range(300, 1500) : r.range(3, 60);
	const double ppush = r.pick(std::vector<double> {0.35, 0.5, 0.7, 0.9});
	c.note("cap=%d base=%llu style=%d ops=%d", cap, (unsigned long long)now, style, ops);
	uint64_t shape = cap;
	int pops = 0, hits = 0;

	for (int o = 0; o < ops; o++) {
		double u = r.unit();

		if (u < 0.004) {
			int nc = r.range(0, 9);
			bool ok = b->allocate(nc);
			c.expect(ok == (nc != 0), "allocate-result", "allocate(%d) returned %d", nc, ok);

			if (nc != 0 && (size_t)nc != m.cap) { m.cap = nc; m.q.clear(); }

			c.note("allocate %d", nc);
			c.count("allocations");

		} else if (u < ppush) {
			now += r.chance(0.1) ? 0 : r.below(maxstep + 1);
			uint64_t t = now;

			if (r.chance(0.1)) { uint64_t back = r.below(200000); t = t > back ? t - back : 0; } // out of order

			Item it{t, id, id ^ 0x5a5a5a5aull};
			id++;
			b->push(it);
			m.push(it);
			c.count("pushes");
			c.note("push t=%llu id=%llu", (unsigned long long)t, (unsigned long long)it.id);
			c.expect(b->get_newest().id == it.id, "newest", "newest is not the sample just stored");

			if (m.q.size() == m.cap) { c.count("full"); }

		} else {
			// query: exact stamps, 100 ms boundary, before, after, far
			uint64_t t = now;

			if (!m.q.empty() && r.chance(0.6)) { t = m.q[r.below(m.q.size())].time_us; }

			static const int64_t offs[] = {0, 0, 1, -1, 99999, 100000, 100001, 50000, -50000, 250000, 20000};
			int64_t off = offs[r.below(11)];
			t = (off < 0 && t < (uint64_t) - off) ? 0 : t + off;
			Item got{0, 0, 0}, exp{0, 0, 0};
			const bool was_empty = m.q.empty();
			bool eh = m.pop(t, exp);
			bool gh = b->pop_first_older_than(t, &got);
			pops++;
			hits += eh;
			c.count(eh ? "pop_hit" : was_empty ? "pop_miss_empty" : "pop_miss");
			c.note("pop t=%llu -> %d id=%llu (model %d id=%llu)", (unsigned long long)t, gh, (unsigned long long)got.id, eh, (unsigned long long)exp.id);
			c.expect(gh == eh, gh ? "returned-nothing-stored" : "missed-sample", "query t=%llu returned %d, model %d (cap %zu, %zu stored)",
				 (unsigned long long)t, gh, eh, m.cap, m.q.size());

			if (gh && eh) {
				c.expect(got.id == exp.id && got.time_us == exp.time_us && got.canary == exp.canary, "wrong-sample", "query t=%llu returned id %llu t %llu, model id %llu",
					 (unsigned long long)t, (unsigned long long)got.id, (unsigned long long)got.time_us, (unsigned long long)exp.id);
			}

			shape = vh::mix(shape, (eh ? 1 : 0) | (m.q.size() << 1) | ((uint64_t)(off + 300000) << 16));

			if (gh != eh) { return; } // models diverged
		}

		c.expect(b->get_length() == m.cap && b->valid(), "length", "length %d, capacity %zu", b->get_length(), m.cap);

		if (!m.q.empty()) {
			c.expect(b->get_oldest().id == m.q.front().id, "oldest", "oldest id %llu, model %llu", (unsigned long long)b->get_oldest().id, (unsigned long long)m.q.front().id);
			bool order = true;

			for (size_t k = 0; k < m.q.size(); k++) {
				if ((*b)[(b->get_oldest_index() + k) % m.cap].id != m.q[k].id) { order = false; }
			}

			c.expect(order, "content-order", "stored samples not in order from the oldest index");
		}

		if (c.case_violations) { return; }
	}

	if (pops > 1 && hits > 0) { c.seen(shape); }

	c.sample("capacity %d, %d operations, %d queries, %d hits, start time %llu us", cap, ops, pops, hits, (unsigned long long)now);
}

// ---------------------------------------------------------------------------------------------
VH_CHECK(U02)
{
	auto &r = c.rng;
	const double target = r.chance(0.6) ? 0.010 : r.uni(0.004, 0.02);
	float target_f = target;
	ImuDownSampler ds(target_f);
	const double in_dt = r.pick(std::vector<double> {1e-4, 2.5e-4, 5e-4, 1e-3, 1.25e-3, 2e-3, 2.5e-3, 4e-3, 5e-3, 6.6e-3, 7.3e-3, 8e-3, 1e-2, 1.3e-2, 0.02});
	const double jitter = r.pick(std::vector<double> {0, 0, 0.05, 0.3});
	const double rate = r.pick(std::vector<double> {0, 0.01, 0.5, 3, 15, 60});
	const double acc = r.pick(std::vector<double> {0, 1, 9.81, 40, 160});
	const double pclip = r.pick(std::vector<double> {0, 0.02, 0.3});
	const bool longrun = r.chance(0.05) && in_dt < 0.45 * target && in_dt >= 1e-3;
	const int outs_wanted = longrun ? 10000 : r.range(1, 60);
	uint64_t t = r.pick(std::vector<uint64_t> {0, 1000, 1ull << 33, 1ull << 45});
	V3 w(r.gauss() * rate, r.gauss() * rate, r.gauss() * rate);
	V3 a(r.gauss() * acc, r.gauss() * acc, r.gauss() * acc);
	Q q;
	V3 dv;
	double sdta = 0, sdtv = 0;
	bool clip[3] = {};
	int n_in = 0, outs = 0;
	double tail_sum = 0;
	int tail_n = 0;
	double vscale = 0;
	c.note("target=%g in_dt=%g jitter=%g rate=%g acc=%g pclip=%g outs=%d", target, in_dt, jitter, rate, acc, pclip, outs_wanted);

	while (outs < outs_wanted) {
		if (r.chance(0.05)) { w = V3(r.gauss() * rate, r.gauss() * rate, r.gauss() * rate); }

		if (r.chance(0.05)) { a = V3(r.gauss() * acc, r.gauss() * acc, r.gauss() * acc); }

		imuSample s{};
		double dt = in_dt * (1 + jitter * r.uni(-1, 1));
		double dtv = r.chance(0.2) ? dt * r.uni(0.97, 1.03) : dt;
		t += (uint64_t)(dt * 1e6 + 0.5);
		s.time_us = t;
		s.delta_ang_dt = dt;
		s.delta_vel_dt = dtv;
		s.delta_ang = matrix::Vector3f(w.x * dt, w.y * dt, w.z * dt);
		s.delta_vel = matrix::Vector3f(a.x * dtv, a.y * dtv, a.z * dtv);

		for (int k = 0; k < 3; k++) { s.delta_vel_clipping[k] = r.chance(pclip); clip[k] |= s.delta_vel_clipping[k]; }

		V3 da(s.delta_ang(0), s.delta_ang(1), s.delta_ang(2)), dvi(s.delta_vel(0), s.delta_vel(1), s.delta_vel(2));
		Q dq = Q::fromRotVec(da);
		q = q * dq;
		dv = dq.rotInv(dv) + (dvi + dq.rotInv(dvi)) * 0.5;
		vscale += dvi.norm();
		sdta += s.delta_ang_dt;
		sdtv += s.delta_vel_dt;
		n_in++;
		bool out = ds.update(s);

		if (!out) {
			c.expect(sdta < 1.5 * target + 1e-6, "late-output", "accumulated %g s without output, target %g", sdta, target);
			continue;
		}

		imuSample o = ds.getDownSampledImuAndTriggerReset();
		outs++;
		c.expect(sdta >= 0.5 * target - 1e-6 || n_in == 1, "early-output", "output after %g s, target %g", sdta, target);
		c.near(o.delta_ang_dt, sdta, 1e-6 + 1e-5 * sdta, "angle-time", "summed angular integration time");
		c.near(o.delta_vel_dt, sdtv, 1e-6 + 1e-5 * sdtv, "velocity-time", "summed velocity integration time");
		c.expect(o.time_us == t, "time-stamp", "time stamp %llu expected %llu", (unsigned long long)o.time_us, (unsigned long long)t);

		for (int k = 0; k < 3; k++) { c.expect(o.delta_vel_clipping[k] == clip[k], "clipping", "axis %d clipping %d expected %d", k, o.delta_vel_clipping[k], clip[k]); }

		Q qo = Q::fromRotVec(V3(o.delta_ang(0), o.delta_ang(1), o.delta_ang(2)));
		Q e = qo.conj() * q;
		double aerr = 2 * V3(e.x, e.y, e.z).norm();
		c.expect(aerr < 1e-5 + 4e-7 * n_in, "rotation", "down-sampled rotation differs from the composed one by %g rad after %d inputs", aerr, n_in);
		V3 verr = V3(o.delta_vel(0), o.delta_vel(1), o.delta_vel(2)) - dv;
		c.expect(verr.norm() <= 1e-6 + 1e-5 * vscale * (1 + 0.02 * n_in), "delta-velocity", "down-sampled velocity change off by %g m/s (size %g)", verr.norm(), dv.norm());
		c.peak("rotation_error_rad", aerr);
		c.peak("rotation_size_rad", q.rotVec().norm());
		c.count("outputs");
		c.count("inputs", n_in);

		if (clip[0] || clip[1] || clip[2]) { c.count("outputs_with_clipping"); }

		c.seen(vh::mix(vh::mix(n_in, (uint64_t)(q.rotVec().norm() * 50)), (clip[0] | clip[1] << 1 | clip[2] << 2) | (uint64_t)(target * 1e4) << 8 | (uint64_t)(in_dt * 1e5) << 24));

		if (longrun && outs > outs_wanted / 2) { tail_sum += sdta; tail_n++; }

		q = Q();
		dv = V3();
		sdta = sdtv = 0;
		clip[0] = clip[1] = clip[2] = false;
		n_in = 0;
		vscale = 0;

		if (c.case_violations) { return; }
	}

	if (longrun && jitter == 0) {
		c.near(tail_sum / tail_n, target, 0.015 * target, "mean-interval", "long-run mean output interval");
		c.count("long_runs");
	}

	c.sample("target %.4g s, input interval %.4g s (jitter %.2g), rate %.3g rad/s, %d outputs", target, in_dt, jitter, rate, outs);
}

// ---------------------------------------------------------------------------------------------
template<typename T> static void minmax(Ctx &c, T a, T b, T d)
{
	T lo = a < b ? a : b, hi = a < b ? b : a;
	c.expect(math::min(a, b) == lo, "min", "min(%g,%g)=%g", (double)a, (double)b, (double)math::min(a, b));
	c.expect(math::max(a, b) == hi, "max", "max(%g,%g)=%g", (double)a, (double)b, (double)math::max(a, b));
	T e = d < lo ? lo : d > hi ? hi : d;
	c.expect(math::constrain(d, lo, hi) == e, "constrain", "constrain(%g,%g,%g)=%g", (double)d, (double)lo, (double)hi, (double)math::constrain(d, lo, hi));
}

static double rnd_val(vh::Rng &r)
{
	switch (r.range(0, 5)) {
	case 0: return 0;

	case 1: return r.uni(-1, 1);

	case 2: return r.uni(-1000, 1000);

	case 3: return (r.chance(0.5) ? -1 : 1) * r.logu(1e-20, 1e20);

	case 4: return r.range(-3, 3);

	default: return r.gauss();
	}
}

VH_CHECK(U03)
{
	auto &r = c.rng;

	for (int k = 0; k < 200; k++) {
		double a = rnd_val(r), b = r.chance(0.1) ? a : rnd_val(r), d = r.chance(0.2) ? a : r.chance(0.2) ? b : rnd_val(r);
		minmax<double>(c, a, b, d);
		minmax<float>(c, a, b, d);
		minmax<int>(c, r.range(-1000000000, 1000000000), r.range(-5, 5), r.range(-1000000000, 1000000000));
		minmax<uint8_t>(c, r.below(256), r.below(256), r.below(256));
		minmax<uint64_t>(c, r.u64(), r.u64(), r.u64());
		c.near(math::radians(a), a * PI / 180, 1e-14 * std::fabs(a), "radians", "radians(double)");
		c.near(math::degrees(a), a * 180 / PI, 1e-14 * std::fabs(a), "degrees", "degrees(double)");
		float f = a;
		c.near(math::radians(f), (double)f * PI / 180, 4e-7 * std::fabs(f) + 1e-38, "radians", "radians(float)");

		if (std::fabs(f) < 1e30) { c.near(math::degrees(f), (double)f * 180 / PI, 2.4e-5 * std::fabs(f) + 1e-38, "degrees", "degrees(float)"); }

		// integer powers
		int e = r.range(-12, 12);
		float x = r.chance(0.1) ? (r.chance(0.5) ? 1.f : -1.f) : (r.chance(0.5) ? -1 : 1) * r.logu(0.02, 50);
		double p = std::pow((double)x, e);
		c.near(ecl::powf(x, e), p, 2e-6 * std::fabs(p), "powf", "integer power");
		c.seen(vh::mix(vh::hash_bytes(x), e));
		float s = r.uni(-1e4, 1e4);
		c.near(sq(s), (double)s * s, 1e-6 * s * s, "sq", "square");
	}

	// compensated summation: error independent of the number of terms
	{
		const int n = r.chance(0.2) ? 20000 : r.range(1, 500);
		const double base = r.pick(std::vector<double> {0, 1, 1e3, 1e6});
		const double step = r.logu(1e-6, 1);
		const bool pos = r.chance(0.5);
		float sum = base, acc = 0;
		double exact = base, mag = base;

		for (int k = 0; k < n; k++) {
			float x = pos ? r.uni(0, step) : r.uni(-step, step);
			sum = kahanSummation(sum, x, acc);
			exact += x;
			mag += std::fabs(x);
		}

		double tol = 1.2e-7 * mag + 6e-14 * n * mag + 1e-12;
		c.expect(std::fabs(sum - exact) <= tol, "kahan", "compensated sum of %d terms off by %g (bound %g)", n, sum - exact, tol);
		c.count("sums");
		c.count("summed_terms", n);
	}

	// low-pass filter
	{
		float dt = r.logu(1e-5, 1), tau = r.chance(0.1) ? 0 : r.logu(1e-4, 100);
		AlphaFilter<float> f;
		AlphaFilter<matrix::Vector3f> fv;
		double al = 0;
		int mode = r.range(0, 4);

		if (mode == 0) { float q = r.unit(); f = AlphaFilter<float>(q); fv = AlphaFilter<matrix::Vector3f>(q); al = q; }

		else if (mode == 1) { float q = r.unit(); f.setAlpha(q); fv.setAlpha(q); al = q; }

		else { f.setParameters(dt, tau); fv.setParameters(dt, tau); al = (double)dt / ((double)dt + (double)tau); }

		auto refuse = [&]() {
			static const float bad[][2] = {{0, 0}, {-1, 1}, {1, -1}, {1, -2}, {-0.5f, 0.2f}, {1e-9f, 1e-9f}};
			int k = r.range(0, 5);
			f.setParameters(bad[k][0], bad[k][1]);
			fv.setParameters(bad[k][0], bad[k][1]);
			c.count("refused_parameters");
		};

		if (r.chance(0.3)) { refuse(); }

		float x0 = r.uni(-100, 100);
		matrix::Vector3f v0((float)r.gauss(), (float)r.gauss(), (float)r.gauss());
		c.expect(f.getState() == 0.f && fv.getState().norm() == 0.f, "filter-initial", "filter does not start at zero");

		if (r.chance(0.8)) { f.reset(x0); fv.reset(v0); }

		else { x0 = 0; v0.setZero(); }

		c.expect(f.getState() == x0, "filter-reset", "state after reset %g expected %g", (double)f.getState(), (double)x0);
		c.note("alpha=%.9g mode=%d dt=%g tau=%g", al, mode, (double)dt, (double)tau);
		const bool constant = r.chance(0.3);
		float in = r.uni(-100, 100);

		for (int k = 0; k < 60; k++) {
			if (!constant) { in = r.chance(0.2) ? (float)f.getState() : r.uni(-100, 100); }

			double old = f.getState();
			double e = old + al * ((double)in - old);
			float res = f.update(in);
			double tol = 5e-7 * (std::fabs(old) + std::fabs(in)) + 1e-9;
			c.near(res, e, tol, "filter-step", "low-pass step");
			c.expect(res == f.getState(), "filter-state", "update does not return the state");
			c.expect(res >= std::min(old, (double)in) - tol && res <= std::max(old, (double)in) + tol, "filter-overshoot", "output %g outside [%g,%g]", (double)res, old, (double)in);

			matrix::Vector3f vi((float)r.gauss(), (float)r.gauss(), (float)r.gauss()), vo = fv.getState();
			fv.update(vi);

			for (int j = 0; j < 3; j++) { c.near(fv.getState()(j), vo(j) + al * ((double)vi(j) - vo(j)), 1e-6 * (1 + std::fabs(vi(j)) + std::fabs(vo(j))), "filter-vector", "low-pass vector step"); }

			if (r.chance(0.02)) { refuse(); }
		}

		c.count("filter_runs");
		c.seen(vh::mix((uint64_t)(al * 1e6), mode));
	}
	c.sample("scalar helpers on 200 random triples, filter and compensated sum");
}

// ---------------------------------------------------------------------------------------------
static M3 toM3(const matrix::Dcmf &d) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { m(i, j) = d(i, j); } return m; }
static double mdiff(const M3 &a, const M3 &b) { double e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = std::fabs(a(i, j) - b(i, j)); if (!(d <= e)) { e = d; } } return e; }
static double rnd_angle(vh::Rng &r)
{
	static const double sp[] = {0, PI / 2, -PI / 2, PI, -PI, PI / 4, -PI / 4, 3 * PI / 4};

	if (r.chance(0.25)) { return sp[r.below(8)] + (r.chance(0.5) ? 0 : r.gauss() * r.logu(1e-6, 0.05)); }

	return r.uni(-PI, PI);
}

VH_CHECK(U04)
{
	auto &r = c.rng;

	for (int k = 0; k < 60; k++) {
		// 312 construction
		double y = rnd_angle(r), ro = rnd_angle(r), pi = rnd_angle(r);
		M3 exp = Rz(y) * Rx(ro) * Ry(pi);
		M3 got = toM3(taitBryan312ToRotMat(matrix::Vector3f(y, ro, pi)));
		c.expect(mdiff(exp, got) < 2e-6, "euler312", "yaw-roll-pitch matrix wrong by %g at (%g,%g,%g)", mdiff(exp, got), y, ro, pi);

		if (std::fabs(cos(ro)) > 0.05) {
			double yy = cos(ro) > 0 ? y : y + PI;
			c.expect(std::fabs(wrap(getEuler312Yaw(matrix::Dcmf(taitBryan312ToRotMat(matrix::Vector3f(y, ro, pi)))) - yy)) < 2e-6 / std::fabs(cos(ro)) + 2e-6, "yaw312", "312 yaw not recovered at (%g,%g,%g)", y, ro, pi);
		}

		// random attitude, built from 321 angles or uniformly
		Q q = r.chance(0.5) ? Q::euler(rnd_angle(r), rnd_angle(r), rnd_angle(r)) : Q(r.gauss(), r.gauss(), r.gauss(), r.gauss()).unit();
		matrix::Quatf qf(q.w, q.x, q.y, q.z);
		q = Q(qf(0), qf(1), qf(2), qf(3));
		M3 R = q.R();
		matrix::Dcmf Rf;

		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Rf(i, j) = R(i, j); }

		c.expect(mdiff(toM3(quatToInverseRotMat(qf)), R.T()) < 2e-6, "inverse-rotation", "inverse rotation matrix wrong by %g", mdiff(toM3(quatToInverseRotMat(qf)), R.T()));

		double c321 = std::hypot(R(0, 0), R(1, 0)), c312 = std::hypot(R(0, 1), R(1, 1));

		if (c321 > 0.02) {
			double e = atan2(R(1, 0), R(0, 0));
			c.expect(std::fabs(wrap(getEuler321Yaw(Rf) - e)) < 2e-6 + 1e-6 / c321, "yaw321", "321 yaw from matrix");
			c.expect(std::fabs(wrap(getEuler321Yaw(qf) - e)) < 2e-6 + 1e-6 / c321, "yaw321q", "321 yaw from quaternion");
		}

		if (c312 > 0.02) {
			double e = atan2(-R(0, 1), R(1, 1));
			c.expect(std::fabs(wrap(getEuler312Yaw(Rf) - e)) < 2e-6 + 1e-6 / c312, "yaw312", "312 yaw from matrix");
			c.expect(std::fabs(wrap(getEuler312Yaw(qf) - e)) < 2e-6 + 1e-6 / c312, "yaw312q", "312 yaw from quaternion");
		}

		double p = std::fabs(R(2, 0)), rr = std::fabs(R(2, 1));

		if (std::fabs(p - rr) > 1e-5) {
			c.expect(shouldUse321RotationSequence(Rf) == (p < rr), "sequence-choice", "rotation order choice wrong: pitch term %g roll term %g", p, rr);
			c.count(p < rr ? "used_321" : "used_312");
		}

		double ny = rnd_angle(r);
		auto check = [&](const matrix::Dcmf & o, bool use321, const char *key) {
			M3 O = toM3(o);
			double tilt = std::max(std::fabs(O(2, 0) - R(2, 0)), std::max(std::fabs(O(2, 1) - R(2, 1)), std::fabs(O(2, 2) - R(2, 2))));
			double s = use321 ? c321 : c312;
			c.expect(tilt < 3e-6 + 1e-6 / s, key, "replacing yaw changed the tilt by %g", tilt);
			double yr = use321 ? atan2(O(1, 0), O(0, 0)) : atan2(-O(0, 1), O(1, 1));
			c.expect(std::fabs(wrap(yr - ny)) < 3e-6 + 1e-6 / s, key, "yaw read back %g after setting %g", yr, ny);
			c.expect(mdiff(O * O.T(), M3::I()) < 1e-5, key, "result is not a rotation");
			V3 x(O(0, 0), O(1, 0), O(2, 0)), yv(O(0, 1), O(1, 1), O(2, 1)), z(O(0, 2), O(1, 2), O(2, 2));
			c.expect(x.cross(yv).dot(z) > 0.9, key, "result is a reflection");
		};

		if (c321 > 0.1) { check(updateEuler321YawInRotMat(ny, Rf), true, "set-yaw-321"); }

		if (c312 > 0.1) { check(updateEuler312YawInRotMat(ny, Rf), false, "set-yaw-312"); }

		if (std::fabs(p - rr) > 1e-5) { check(updateYawInRotMat(ny, Rf), p < rr, "set-yaw"); }

		if (p > 0.98 || rr > 0.98) { c.count("near_singular_attitudes"); }

		c.seen(vh::mix((uint64_t)((R(2, 0) + 1) * 50) << 20 | (uint64_t)((R(2, 1) + 1) * 50) << 10 | (uint64_t)((R(2, 2) + 1) * 50), (uint64_t)((q.yaw321() + PI) * 20)));
	}

	c.sample("60 random attitudes and yaw replacements");
}

// ---------------------------------------------------------------------------------------------
// S01: reference model of range finder acceptance
VH_CHECK(S01)
{
	auto &r = c.rng;
	using estimator::sensor::SensorRangeFinder;
	using estimator::rangeSample;
	SensorRangeFinder rf;
	const double min_d = r.uni(0.0, 0.5), max_d = r.chance(0.2) ? min_d + r.uni(0.01, 1) : r.uni(2, 60);
	const double pitch = r.chance(0.4) ? 0 : r.uni(-1.2, 1.2);
	const double cosmax = r.chance(0.5) ? 0.7071 : r.uni(0.3, 0.95);
	const double hyst = r.chance(0.3) ? 1.0 : r.pick(std::vector<double> {0.0, 0.1, 0.5, 2.0});
	rf.setLimits(min_d, max_d);
	rf.setPitchOffset(pitch);
	rf.setCosMaxTilt(cosmax);
	rf.setQualityHysteresis(hyst);
	c.near(rf.getValidMinVal(), min_d, 1e-6, "limits", "valid minimum");
	c.near(rf.getValidMaxVal(), max_d, 1e-5, "limits", "valid maximum");
	const float fmin_d = min_d, fmax_d = max_d, fcos = cosmax;
	c.expect(!rf.isHealthy() && !rf.isDataHealthy(), "initially-unhealthy", "healthy before any data");

	// model state
	uint64_t now = r.pick(std::vector<uint64_t> {2000000, 15000000, 3600000000ull}), last_valid = 0, bad_q = 0, st = 0;
	double smin = 0, smax = 0;
	float srng = 0;
	int8_t sq_ = 0;
	bool stuck = false, valid = false, regular = false;
	double level = r.uni(min_d, max_d);
	uint64_t seq = 0;
	int period = r.pick(std::vector<int> {1, 2, 3, 5, 10, 25}); // in steps of 10 ms
	int phase_left = 0, phase = 0;
	double roll = 0, pit = 0;
	int steps = r.range(200, 4000);
	int64_t delay = r.pick(std::vector<int64_t> {0, 5000, 20000, 60000});
	// continuity filter: two second time constant on the time since the last sample, evaluated every 10 ms
	double age_lpf_lo = 0, age_lpf_hi = 0;
	c.note("limits %g..%g pitch %g cosmax %g hyst %g period %d", min_d, max_d, pitch, cosmax, hyst, period);

	for (int k = 0; k < steps; k++) {
		now += 10000;

		if (phase_left-- <= 0) {
			phase = r.range(0, 9);
			phase_left = r.chance(0.1) ? r.range(1000, 1400) : r.range(5, 150);
			c.note("t=%d phase %d for %d", k, phase, phase_left);

			if (phase == 5) { roll = r.uni(-1.5, 1.5); pit = r.uni(-1.5, 1.5); }

			if (phase == 6) { level = r.uni(min_d, max_d); }

			if (phase != 5 && r.chance(0.7)) { roll = r.uni(-0.2, 0.2); pit = r.uni(-0.2, 0.2); }
		}

		bool send = (k % period == 0) && phase != 1;

		if (send) {
			float rng = level + (phase == 2 ? 0 : r.gauss() * 0.15);

			if (phase == 3) { rng = r.chance(0.5) ? min_d - r.uni(0.001, 1) : max_d + r.uni(0.001, 100); }

			if (phase == 4 && r.chance(0.3)) { rng = r.chance(0.5) ? fmin_d : fmax_d; }

			int8_t q = (phase == 7 && r.chance(0.4)) ? 0 : r.chance(0.9) ? 100 : (r.chance(0.5) ? -1 : 1);
			st = now - delay;
			srng = rng;
			sq_ = q;
			rangeSample s{};
			s.time_us = st;
			s.rng = rng;
			s.quality = q;
			rf.setSample(s);
			rf.setDataReadiness(true);
			seq++;

		} else {
			rf.setDataReadiness(false);
		}

		matrix::Dcmf R(matrix::Eulerf(roll, pit, 0.3f));
		rf.runChecks(now, R);
		const double ct = (double)R(2, 0) * sin(pitch) + (double)R(2, 2) * cos(pitch);
		c.near(rf.getCosTilt(), ct, 2e-6, "tilt", "cosine of sensor tilt");

		// continuity: 0.5*dt weight; bounded by 4 s
		double age = (double)(now - st);
		const double al = 0.5 * 0.01;
		age_lpf_lo = std::min(4e6, age_lpf_lo * (1 - al) + al * age);
		age_lpf_hi = std::min(4e6, age_lpf_hi * (1 - al) + al * age);
		const bool out_of_date = (now - st) > 2 * (uint64_t)RNG_MAX_INTERVAL;
		const bool cont_lo = age_lpf_lo < 2e6, cont_hi = age_lpf_hi < 2e6;
		bool cont_sure = std::fabs(age_lpf_lo - 2e6) > 2e3 && std::fabs(age_lpf_hi - 2e6) > 2e3 && cont_lo == cont_hi;

		if (!cont_sure && !out_of_date) {
			// undetermined within rounding / initial transient: follow the implementation once it says it is continuous
			const bool said = rf.isRegularlySendingData();

			if (said) { age_lpf_hi = std::min(age_lpf_hi, 2e6); }

			else { age_lpf_lo = std::max(age_lpf_lo, 2e6); }

			c.count("continuity_undetermined");
		}

		regular = !out_of_date && ((cont_sure && cont_lo) || (!cont_sure && rf.isRegularlySendingData()));

		if (!regular) {
			valid = false;

		} else if (send) {
			valid = false;

			if (sq_ == 0) { bad_q = now; }

			else if (now - bad_q > (uint64_t)(hyst * 1e6 + 0.5)) {
				bool tilt = rf.getCosTilt() > fcos;
				bool inr = srng >= fmin_d && srng <= fmax_d;

				if (tilt && inr) {
					if (st - last_valid > 10000000) {
						if (smax - smin > 0.1f) { smin = smax = 0; stuck = false; }

						else {
							if (srng > smax) { smax = srng; }

							if (smin < 0.1f || srng < smin) { smin = srng; }

							stuck = true;
						}
					}

					if (!stuck) { valid = true; last_valid = st; }

					else { c.count("stuck_rejections"); }
				}

				if (!tilt) { c.count("tilt_rejections"); }

				if (!inr) { c.count("limit_rejections"); }

			} else { c.count("quality_hysteresis_rejections"); }
		}

		c.expect(rf.isRegularlySendingData() == regular, "continuity", "regular data flag %d expected %d, age %g us, filtered %g", rf.isRegularlySendingData(), regular, age, age_lpf_lo);
		c.expect(rf.isHealthy() == valid, "health", "step %d: healthy=%d expected %d (range %g quality %d age %g us tilt %g stuck %d)", k, rf.isHealthy(), valid, (double)srng, sq_, age, ct, stuck);
		c.expect(rf.isDataHealthy() == (valid && send), "data-health", "step %d: data healthy=%d expected %d", k, rf.isDataHealthy(), valid && send);

		if (valid) { c.count("healthy_steps"); }

		if (seq) { c.near(rf.getDistBottom(), (double)srng * ct, 1e-5 * (1 + std::fabs(srng)), "distance", "distance to bottom"); }

		if (out_of_date && seq) { c.count("stale_steps"); }

		c.seen(vh::mix(valid | regular << 1 | send << 2 | stuck << 3 | out_of_date << 4, phase | period << 8));

		if (c.case_violations) { return; }
	}

	c.sample("range limits %.2f..%.1f m, mounting pitch %.2f, period %d0 ms, %d steps, %llu samples", min_d, max_d, pitch, period, steps, (unsigned long long)seq);
}
