// W01/W02 airspeed wind estimator, Y01 emergency yaw estimator
#include "vh.hpp"
#include "refmath.hpp"
#include <airdata/WindEstimator.hpp>
#include <EKF/EKFGSF_yaw.h>
#include <functional>

using vh::Ctx;
using namespace ref;

namespace
{
// three-state Kalman filter in double precision with numeric Jacobians
struct WindModel {
	double x[3] {0, 0, 1}, P[3][3] {}, Ps[3][3] {}; // Ps: covariance with single-precision sized disturbances, shows ill-conditioning
	uint64_t noise{88172645463325252ull};
	bool init{false}, reset{false}, near_edge{false};
	double qw{0.1}, qk{1e-4}, rt{1.4}, rb{0.5};
	int gt{3}, gb{1};
	double enforced{-1};
	uint64_t last_tas{0}, last_beta{0}, last_up{0}, rej_t{0}, rej_b{0};
	double ti{0}, tv{0}, bi{0}, bv{0};
	bool scale_known{false};

	void initialise(const V3 &v, double vvn, double vve, double tas)
	{
		double s2 = std::hypot(v.x, v.y);

		if (std::fabs(s2 - 3.0) < 1e-4) { near_edge = true; }

		if (s2 < 3.0) { init = false; return; }

		auto f = [&](double vn, double ve, double * o) { double s = std::hypot(vn, ve); o[0] = vn - tas * vn / s; o[1] = ve - tas * ve / s; };
		double o[2], p[2], m[2], J[2][2];
		f(v.x, v.y, o);
		double h = 1e-4;
		f(v.x + h, v.y, p);
		f(v.x - h, v.y, m);
		J[0][0] = (p[0] - m[0]) / (2 * h);
		J[1][0] = (p[1] - m[1]) / (2 * h);
		f(v.x, v.y + h, p);
		f(v.x, v.y - h, m);
		J[0][1] = (p[0] - m[0]) / (2 * h);
		J[1][1] = (p[1] - m[1]) / (2 * h);
		x[0] = o[0];
		x[1] = o[1];
		x[2] = 1;
		memset(P, 0, sizeof(P));
		double V[2] = {vvn, vve};

		for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) { P[i][j] += J[i][k] * V[k] * J[j][k]; }

		P[2][2] = 1e-4;
		memcpy(Ps, P, sizeof(P));
		rej_t = rej_b = 0;
		reset = true;
		init = true;
	}
	void update(uint64_t t)
	{
		if (!init) { return; }

		reset = false;

		if (last_up == 0) { last_up = t; return; }

		if (t - last_up < 1000000) { return; }

		double dt = (t - last_up) * 1e-6;
		last_up = t;
		P[0][0] += qw * dt * dt;
		P[1][1] += qw * dt * dt;
		P[2][2] += qk * dt * dt;
		Ps[0][0] += qw * dt * dt;
		Ps[1][1] += qw * dt * dt;
		Ps[2][2] += qk * dt * dt;
	}
	void shadow(const double H[3], double S, double R)
	{
		double K[3], HP[3] = {}, Ss = R;

		for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) {
				noise ^= noise << 13;
				noise ^= noise >> 7;
				noise ^= noise << 17;
				Ps[i][j] *= 1 + (noise & 1 ? 4e-7 : -4e-7);
				Ps[j][i] = Ps[i][j];
			}

		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Ss += H[i] * Ps[i][j] * H[j]; }

		for (int i = 0; i < 3; i++) { K[i] = 0; for (int j = 0; j < 3; j++) { K[i] += Ps[i][j] * H[j]; HP[i] += H[j] * Ps[j][i]; } K[i] /= Ss; }

		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Ps[i][j] -= K[i] * HP[j]; }

		if (std::fabs(S - Ss) > 2e-4 * std::fabs(S)) { near_edge = true; }

		for (int i = 0; i < 3; i++) { Ps[i][i] = std::min(Ps[i][i], i < 2 ? 25 : 0.1); }
	}
	void kf(const double H[3], double innov, double S)
	{
		double K[3], HP[3] = {};

		for (int i = 0; i < 3; i++) { K[i] = 0; for (int j = 0; j < 3; j++) { K[i] += P[i][j] * H[j]; HP[i] += H[j] * P[j][i]; } K[i] /= S; }

		for (int i = 0; i < 3; i++) { x[i] += K[i] * innov; }

		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { P[i][j] -= K[i] * HP[j]; }

		for (int i = 0; i < 3; i++) { if (P[i][i] < 0) { init = false; near_edge = true; return; } double m = i < 2 ? 25 : 0.1; if (P[i][i] > m) { P[i][i] = m; } }

		x[2] = enforced < 0 ? std::max(0.0, x[2]) : enforced;
	}
	bool gate(uint64_t t, double innov, double S, int g, uint64_t &rej, bool &re)
	{
		double a = innov * innov, b = (double)g * g * S;

		if (std::fabs(a - b) < 3e-3 * b + 1e-6) { near_edge = true; }

		if (a > b) { if (!rej) { rej = t; } }

		else { rej = 0; }

		re = rej != 0 && t - rej > 5000000;
		return rej != 0;
	}
	bool fuseH(const std::function<double(const double *)> &h, double meas, double R, uint64_t t, int g, uint64_t &rej, double &inn, double &var, const V3 &v, double tas)
	{
		double H[3];

		for (int i = 0; i < 3; i++) {
			double e = i < 2 ? 1e-3 : 1e-4, xp[3], xm[3];
			memcpy(xp, x, sizeof(x));
			memcpy(xm, x, sizeof(x));
			xp[i] += e;
			xm[i] -= e;
			H[i] = (h(xp) - h(xm)) / (2 * e);
		}

		double S = R;

		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { S += H[i] * P[i][j] * H[j]; }

		inn = meas - h(x);
		var = S;
		bool re = false;
		bool rj = gate(t, inn, S, g, rej, re);

		// an ill-conditioned covariance restarts the filter as well
		if (std::fabs(S) < 0.05 * R) { near_edge = true; }

		re = re || S < 0;

		if (rj || re) {
			if (re) { initialise(v, 0.1, 0.1, tas); }

			return false;
		}

		shadow(H, S, R);
		kf(H, inn, S);

		for (int i = 0; i < 3; i++) { if (std::fabs(Ps[i][i] - P[i][i]) > 3e-4 * P[i][i] + 1e-7) { near_edge = true; } }

		return true;
	}
};

bool windCase(Ctx &c, bool outliers)
{
	auto &r = c.rng;
	WindEstimator e;
	WindModel m;
	auto cfg = [&]() {
		if (r.chance(0.7)) { float q = r.logu(0.01, 1); e.set_wind_p_noise(q); m.qw = (double)q * q; }

		if (r.chance(0.7)) { float q = r.logu(1e-4, 0.1); e.set_tas_scale_p_noise(q); m.qk = (double)q * q; }

		if (r.chance(0.7)) { float q = r.logu(0.3, 4); e.set_tas_noise(q); m.rt = (double)q * q; }

		if (r.chance(0.7)) { float q = r.logu(0.1, 1); e.set_beta_noise(q); m.rb = (double)q * q; }

		if (r.chance(0.7)) { int g = r.range(1, 8); e.set_tas_gate(g); m.gt = g; }

		if (r.chance(0.7)) { int g = r.range(1, 8); e.set_beta_gate(g); m.gb = g; }
	};
	cfg();

	if (r.chance(0.25)) { double s = r.uni(0.7, 1.4); e.enforce_airspeed_scale(s); m.enforced = (float)s; }

	c.expect(!e.is_estimate_valid(), "initially-invalid", "valid before any data");
	const double wn = r.uni(-12, 12), we = r.uni(-12, 12), tas0 = r.uni(14, 40), k_true = m.enforced >= 0 ? m.enforced : r.uni(0.85, 1.15);
	double hdg = r.uni(-PI, PI), turn = r.pick(std::vector<double> {0, 0.05, 0.2, -0.3});
	uint64_t t = r.pick(std::vector<uint64_t> {1000000, 100000, 1ull << 33});
	const uint64_t dt = r.pick(std::vector<uint64_t> {5000, 20000, 50000, 99000, 100000, 130000, 400000, 1500000});
	const int steps = r.range(40, 400);
	const bool use_beta = r.chance(0.7), use_tas = !use_beta || r.chance(0.85);
	int bad = 0;
	double bad_tas = 0;
	bool bad_zero = false;
	int fused = 0;
	double vd = 0;
	c.note("wind %.2f %.2f tas %.1f scale %.3f dt %llu steps %d beta %d tas %d enforced %.3f gates %d %d", wn, we, tas0, k_true, (unsigned long long)dt, steps, use_beta, use_tas, m.enforced, m.gt, m.gb);

	for (int k = 0; k < steps; k++) {
		t += dt + (r.chance(0.1) ? r.below(5000000) : 0);
		hdg = wrap(hdg + turn * dt * 1e-6);

		if (r.chance(0.02)) { turn = r.uni(-0.4, 0.4); }

		if (r.chance(0.05)) { vd = r.uni(-5, 5); }

		double tas = tas0 + 3 * sin(k * 0.1), gamma = -asin(vd / tas);
		Q q = Q::euler(r.uni(-0.5, 0.5), gamma + r.uni(-0.05, 0.05), hdg);
		V3 v(tas * cos(gamma) * cos(hdg) + wn, tas * cos(gamma) * sin(hdg) + we, vd);

		if (r.chance(0.01)) { v = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-3, 3)); }

		float vv[2] = {(float)(r.chance(0.1) ? 0.0 : r.logu(0.001, 1)), (float)r.logu(0.001, 1)};
		matrix::Vector3f vf(v.x, v.y, v.z);
		matrix::Quatf qf(q.w, q.x, q.y, q.z);
		v = V3(vf(0), vf(1), vf(2));
		q = Q(qf(0), qf(1), qf(2), qf(3));

		if (outliers && bad <= 0 && r.chance(0.04)) { bad = r.chance(0.3) ? r.range(40, 120) : r.range(1, 6); bad_tas = r.uni(-30, 60); bad_zero = r.chance(0.2); }

		if (bad > 0) { bad--; }

		if (r.chance(0.01)) { cfg(); }

		float tas_meas = tas * k_true + r.gauss() * 0.5 + (bad > 0 ? bad_tas : 0);

		if (bad > 0 && bad_zero) { tas_meas = 0; }

		auto compare = [&](const char *what) -> bool {
			if (m.near_edge) { c.count("stopped_at_threshold"); return false; }

			float w[2], var[2];
			e.get_wind(w);
			e.get_wind_var(var);
			c.expect(e.is_estimate_valid() == m.init, "validity", "after %s: valid=%d expected %d", what, e.is_estimate_valid(), m.init);
			c.expect(e.get_wind_estimator_reset() == m.reset, "reset-flag", "after %s: reset flag %d expected %d", what, e.get_wind_estimator_reset(), m.reset);

			if (m.init) {
				double tol = 1e-2 + 5e-4 * (std::fabs(m.x[0]) + std::fabs(m.x[1]));
				c.expect(std::fabs(w[0] - m.x[0]) < tol && std::fabs(w[1] - m.x[1]) < tol, "wind-state", "after %s: wind (%.5f %.5f) expected (%.5f %.5f)", what, (double)w[0], (double)w[1], m.x[0], m.x[1]);
				c.expect(std::fabs(e.get_tas_scale() - m.x[2]) < 1e-3, "scale-state", "after %s: scale %.6f expected %.6f", what, (double)e.get_tas_scale(), m.x[2]);
				c.expect(e.get_tas_scale() >= 0, "scale-limit", "scale %g", (double)e.get_tas_scale());

				for (int i = 0; i < 2; i++) {
					c.expect(std::fabs(var[i] - m.P[i][i]) < 2e-3 + 1e-2 * m.P[i][i], "wind-variance", "after %s: wind variance[%d] %.6f expected %.6f", what, i, (double)var[i], m.P[i][i]);
					c.expect(var[i] >= 0 && (var[i] <= 25.0f || what[0] != 'f'), "variance-range", "after %s: wind variance[%d] %g", what, i, (double)var[i]);
				}

				// continue from the state that was just compared, so that rounding does not accumulate
				m.x[0] = w[0];
				m.x[1] = w[1];
				m.x[2] = e.get_tas_scale();
			}

			return c.case_violations == 0;
		};

		e.update(t);
		m.update(t);

		if (!compare("time update")) { return c.case_violations == 0; }

		if (use_tas) {
			bool f = false;
			float pw[2], nw[2];
			e.get_wind(pw);
			e.fuse_airspeed(t, tas_meas, vf, matrix::Vector2f(vv[0], vv[1]));

			if (!m.init) {
				m.initialise(v, std::max(0.01, (double)vv[0]), std::max(0.01, (double)vv[1]), tas_meas);
				c.count(m.init ? "initialisations" : "initialisation_refused");

			} else if (t - m.last_tas >= 100000) {
				m.last_tas = t;

				// the direction of a vanishing relative wind is decided by rounding
				if (std::sqrt(sq(v.x - m.x[0]) + sq(v.y - m.x[1]) + sq(v.z)) < 0.5) { m.near_edge = true; }

				f = m.fuseH([&](const double *x) { return x[2] * std::sqrt(sq(v.x - x[0]) + sq(v.y - x[1]) + sq(v.z)); }, tas_meas, m.rt, t, m.gt, m.rej_t, m.ti, m.tv, v, tas_meas);

				if (!m.near_edge) {
					c.near(e.get_tas_innov(), m.ti, 3e-3 + 1e-4 * std::fabs(m.ti), "tas-innovation", "airspeed innovation");
					c.near(e.get_tas_innov_var(), m.tv, 2e-3 + 5e-3 * std::fabs(m.tv), "tas-innovation-variance", "airspeed innovation variance");
					c.count(f ? "airspeed_fused" : m.reset ? "airspeed_reset" : "airspeed_rejected");
					fused += f;

					if (!f && !m.reset) {
						e.get_wind(nw);
						c.expect(pw[0] == nw[0] && pw[1] == nw[1], "rejected-moved-state", "a rejected airspeed changed the wind estimate");
					}
				}

			} else { c.count("rate_limited"); }

			if (!compare(f ? "fused airspeed" : "airspeed")) { return c.case_violations == 0; }
		}

		if (use_beta) {
			bool f = false;
			float pw[2], nw[2];
			e.get_wind(pw);
			e.fuse_beta(t, vf, qf);

			if (!m.init) {
				m.initialise(v, 0.1, 0.1, v.norm());
				c.count(m.init ? "initialisations" : "initialisation_refused");

			} else if (t - m.last_beta >= 100000) {
				m.last_beta = t;
				auto rel = [&](const double *x) { return q.rotInv(V3(v.x - x[0], v.y - x[1], v.z)); };
				double rx = rel(m.x).x;

				if (std::fabs(std::fabs(rx) - 0.1) < 0.01) { m.near_edge = true; }

				if (std::fabs(rx) >= 0.1) {
					f = m.fuseH([&](const double *x) { V3 b = rel(x); return b.y / b.x; }, 0, m.rb, t, m.gb, m.rej_b, m.bi, m.bv, v, v.norm());

					if (std::fabs(rx) < 1) { m.near_edge = true; } // strongly non-linear: rounding decides

					if (!m.near_edge) {
						c.near(e.get_beta_innov(), m.bi, 1e-3 + 1e-3 * std::fabs(m.bi), "beta-innovation", "sideslip innovation");
						c.near(e.get_beta_innov_var(), m.bv, 1e-3 + 1e-2 * std::fabs(m.bv), "beta-innovation-variance", "sideslip innovation variance");
						c.count(f ? "sideslip_fused" : m.reset ? "sideslip_reset" : "sideslip_rejected");
						fused += f;

						if (!f && !m.reset) {
							e.get_wind(nw);
							c.expect(pw[0] == nw[0] && pw[1] == nw[1], "rejected-moved-state", "a rejected sideslip changed the wind estimate");
						}
					}

				} else { c.count("sideslip_no_airflow"); }
			}

			if (!compare(f ? "fused sideslip" : "sideslip")) { return c.case_violations == 0; }
		}

		c.seen(vh::mix(vh::hash_bytes(m.x), 1));
	}

	c.peak("fusions_per_case", fused);
	c.sample("wind (%.1f %.1f), airspeed %.1f m/s scale %.2f, %d steps of %llu us, %d measurements fused", wn, we, tas0, k_true, steps, (unsigned long long)dt, fused);
	return c.case_violations == 0;
}
}

VH_CHECK(W01)
{
	windCase(c, false);
	auto &r = c.rng;

	// rotating the world rotates the estimate; degenerate inputs never give non-finite output
	if (r.chance(0.5)) {
		WindEstimator a, b;
		double rot = r.uni(-PI, PI);
		uint64_t t = 1000000;
		double hdg = r.uni(-PI, PI), wn = r.uni(-8, 8), we = r.uni(-8, 8);

		for (int k = 0; k < 150; k++) {
			t += 110000;
			hdg += 0.03;
			V3 v(20 * cos(hdg) + wn, 20 * sin(hdg) + we, 0);
			Q q = Q::euler(0, 0, hdg), qr = Q::euler(0, 0, rot) * q;
			V3 vr(v.x * cos(rot) - v.y * sin(rot), v.x * sin(rot) + v.y * cos(rot), v.z);
			a.update(t);
			b.update(t);
			float tas = 20 + r.gauss() * 0.3;
			a.fuse_airspeed(t, tas, matrix::Vector3f(v.x, v.y, v.z), matrix::Vector2f(0.1f, 0.1f));
			b.fuse_airspeed(t, tas, matrix::Vector3f(vr.x, vr.y, vr.z), matrix::Vector2f(0.1f, 0.1f));
			a.fuse_beta(t, matrix::Vector3f(v.x, v.y, v.z), matrix::Quatf(q.w, q.x, q.y, q.z));
			b.fuse_beta(t, matrix::Vector3f(vr.x, vr.y, vr.z), matrix::Quatf(qr.w, qr.x, qr.y, qr.z));
			float wa[2], wb[2];
			a.get_wind(wa);
			b.get_wind(wb);
			double ex = wa[0] * cos(rot) - wa[1] * sin(rot), ey = wa[0] * sin(rot) + wa[1] * cos(rot);
			c.expect(std::fabs(wb[0] - ex) < 0.02 && std::fabs(wb[1] - ey) < 0.02, "rotation-symmetry", "rotated wind (%.3f %.3f) expected (%.3f %.3f)", (double)wb[0], (double)wb[1], ex, ey);

			if (c.case_violations) { return; }
		}

		c.count("rotated_pairs");

	} else {
		WindEstimator e;
		uint64_t t = 1000000;
		matrix::Vector3f hold(r.uni(-20, 20), r.uni(4, 20), 0);

		for (int k = 0; k < 200; k++) {
			t += 110000 + r.below(2000000);
			int m = r.range(0, 5);
			matrix::Vector3f v = m == 0 ? matrix::Vector3f(0, 0, 0) : m <= 2 ? hold : matrix::Vector3f(r.uni(-30, 30), r.uni(-30, 30), r.uni(-30, 30));
			float tas = r.pick(std::vector<float> {0.f, 0.f, 0.001f, 15.f, 200.f});
			Q q = Q(r.gauss(), r.gauss(), r.gauss(), r.gauss()).unit();
			e.update(t);

			if (r.chance(0.8)) { e.fuse_airspeed(t, tas, v, matrix::Vector2f(0, 0)); }

			if (r.chance(0.4)) { e.fuse_beta(t, v, matrix::Quatf(q.w, q.x, q.y, q.z)); }

			float w[2], vr[2];
			e.get_wind(w);
			e.get_wind_var(vr);
			if (!e.is_estimate_valid()) { continue; }

			c.expect(std::isfinite(w[0]) && std::isfinite(w[1]) && std::isfinite(e.get_tas_scale()), "non-finite", "wind %g %g scale %g after degenerate input (v=%g %g %g, tas %g)", (double)w[0], (double)w[1], (double)e.get_tas_scale(), (double)v(0), (double)v(1), (double)v(2), (double)tas);
			c.expect(std::isfinite(vr[0]) && std::isfinite(vr[1]), "non-finite", "variance %g %g", (double)vr[0], (double)vr[1]);
			c.expect(vr[0] >= 0 && vr[1] >= 0, "variance-range", "variance %g %g", (double)vr[0], (double)vr[1]);
			c.count("degenerate_valid_steps");

			if (c.case_violations) { return; }
		}

		c.count("degenerate_runs");
	}
}

VH_CHECK(W02)
{
	if (!windCase(c, true)) { return; }

	auto &r = c.rng;

	// convergence to the true wind from a wrong start, and recovery after a wind shift
	if (r.chance(0.4)) {
		WindEstimator e;
		e.set_wind_p_noise(0.1f);
		e.set_tas_noise(1.0f);
		e.set_beta_noise(0.3f);
		e.set_tas_gate(r.range(2, 5));
		e.set_beta_gate(r.range(2, 4));
		double wn = r.uni(-10, 10), we = r.uni(-10, 10), hdg = r.uni(-PI, PI), tas = r.uni(15, 30);
		wn *= tas / 30;
		we *= tas / 30;
		uint64_t t = 1000000;
		int shift = r.chance(0.5) ? 1500 : -1;

		for (int k = 0; k < 3500; k++) {
			if (k == shift) {
				wn += r.uni(-15, 15);
				we += r.uni(-15, 15);
				double m = std::hypot(wn, we);

				if (m > 0.5 * tas) { wn *= 0.5 * tas / m; we *= 0.5 * tas / m; }

				c.count("wind_shifts");
			}

			t += 100000;
			hdg += 0.02;
			V3 v(tas * cos(hdg) + wn, tas * sin(hdg) + we, 0);
			Q q = Q::euler(0.2, 0, hdg);
			e.update(t);
			e.fuse_airspeed(t, tas, matrix::Vector3f(v.x, v.y, v.z), matrix::Vector2f(0.1f, 0.1f));
			e.fuse_beta(t, matrix::Vector3f(v.x, v.y, v.z), matrix::Quatf(q.w, q.x, q.y, q.z));
		}

		float w[2];
		e.get_wind(w);
		c.expect(e.is_estimate_valid(), "convergence", "not valid after 350 s of consistent data");
		c.expect(std::hypot(w[0] - wn, w[1] - we) < 1.0, "convergence", "wind (%.2f %.2f), true (%.2f %.2f)", (double)w[0], (double)w[1], wn, we);
		c.peak("final_wind_error", std::hypot(w[0] - wn, w[1] - we));
		c.count("convergence_runs");
	}
}

// ---------------------------------------------------------------------------------------------
namespace
{
// double-precision model of the bank of yaw filters
struct GsfModel {
	struct F {
		M3 R;
		V3 bias;
		double x[3] {}, P[3][3] {}, in[2] {}, Si[2][2] {}, det{0};
	} f[5];
	double w[5] {};
	bool tilt{false}, started{false}, upd{false}, edge{false}, amb{false};
	V3 acc;
	double vn{0}, ve{0}, va{0};
	double yaw{0}, var{0}, len{0};
	bool collapsed{false};

	void initBank()
	{
		started = false;
		yaw = 0;
		var = sq(PI / 2);

		for (int i = 0; i < 5; i++) {
			w[i] = 0.2;
			memset(f[i].x, 0, sizeof(f[i].x));
			memset(f[i].P, 0, sizeof(f[i].P));
			f[i].in[0] = f[i].in[1] = 0;
			f[i].x[2] = -PI + (i + 0.5) * 2 * PI / 5;
			f[i].x[0] = vn;
			f[i].x[1] = ve;
			f[i].P[0][0] = f[i].P[1][1] = va * va;
			f[i].P[2][2] = sq(PI / 5);
		}
	}
	static double yawOf(const M3 &R) { return std::fabs(R(2, 0)) < std::fabs(R(2, 1)) ? atan2(R(1, 0), R(0, 0)) : atan2(-R(0, 1), R(1, 1)); }
	void update(const V3 &da, const V3 &dv, double dta, double dtv, bool run, double aspd, const V3 &bias)
	{
		V3 a = dv / std::max(dtv, 0.001);
		// acceleration low pass: ten times the bandwidth of the tilt correction
		double fc = std::min(1.0, 10.0 * 0.2 * dtv);
		acc = acc * (1 - fc) + a * fc;
		amb = false;

		if (!tilt) {
			double n = a.norm();

			if (std::fabs(n - 1.1 * 9.80665) < 1e-4 || std::fabs(n - 0.9 * 9.80665) < 1e-4) { edge = true; }

			if (n > 0.9 * 9.80665 && n < 1.1 * 9.80665) {
				initBank();
				V3 d = -dv.unit();
				V3 nn = (V3(1, 0, 0) - d * d.x).unit();
				V3 e = d.cross(nn);

				for (auto &g : f) for (int j = 0; j < 3; j++) { g.R(0, j) = nn[j]; g.R(1, j) = e[j]; g.R(2, j) = d[j]; }

				tilt = true;
			}

			return;
		}

		double an = acc.norm();
		double att = (aspd > 1e-7 && an > 9.80665) ? 1 : 2;
		double gain = 0.2 * sq(1 - std::min(att * std::fabs(an - 9.80665) / 9.80665, 1.0));

		for (auto &g : f) {
			V3 rate = da / std::max(dta, 0.001) - g.bias;
			V3 down(g.R(2, 0), g.R(2, 1), g.R(2, 2));
			V3 corr;

			if (gain > 0) {
				V3 ac = acc;

				if (aspd > 1e-7) { ac = ac - V3(0, aspd * rate.z, -aspd * rate.y); }

				corr = down.cross(ac) * (gain / an);
			}

			double spin = rate.norm();

			if (spin < 0.175) {
				g.bias = g.bias - corr * (0.04 * dta);

				for (int j = 0; j < 3; j++) { g.bias[j] = std::max(-0.05, std::min(0.05, g.bias[j])); }
			}

			V3 d = da + (corr - g.bias) * dta;
			// first-order integration of the rotation, rows brought back to unit length
			M3 N = g.R;

			for (int i = 0; i < 3; i++) {
				V3 row(g.R(i, 0), g.R(i, 1), g.R(i, 2));
				V3 nr = row - d.cross(row);
				nr = nr * (1.5 - 0.5 * nr.dot(nr));

				for (int j = 0; j < 3; j++) { N(i, j) = nr[j]; }
			}

			g.R = N;

			if (!started) { continue; }

			if (std::fabs(std::fabs(g.R(2, 0)) - std::fabs(g.R(2, 1))) < 1e-4) { amb = true; }

			g.x[2] = yawOf(g.R);
			V3 dn = g.R * dv;
			g.x[0] += dn.x;
			g.x[1] += dn.y;
			// state: v += R(yaw) [dvx dvy]; yaw += daz
			double F[3][3] = {{1, 0, -dn.y}, {0, 1, dn.x}, {0, 0, 1}};
			double T[3][3] = {}, N2[3][3] = {};

			for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { T[i][j] += F[i][k] * g.P[k][j]; }

			for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { N2[i][j] += T[i][k] * F[j][k]; }

			N2[0][0] += sq(2.0 * dtv);
			N2[1][1] += sq(2.0 * dtv);
			N2[2][2] += sq(0.1 * dta);

			for (int i = 0; i < 3; i++) { N2[i][i] = std::max(N2[i][i], 1e-6); }

			memcpy(g.P, N2, sizeof(N2));
		}

		if (run && upd) {
			if (!started) {
				initBank();

				for (auto &g : f) {
					if (std::fabs(std::fabs(g.R(2, 0)) - std::fabs(g.R(2, 1))) < 1e-4) { edge = true; }

					// same tilt, new yaw
					if (std::fabs(g.R(2, 0)) < std::fabs(g.R(2, 1))) {
						g.R = Rz(g.x[2]) * Ry(asin(-g.R(2, 0))) * Rx(atan2(g.R(2, 1), g.R(2, 2)));

					} else {
						g.R = Rz(g.x[2]) * Rx(asin(g.R(2, 1))) * Ry(atan2(-g.R(2, 0), g.R(2, 2)));
					}

					g.bias = bias;
				}

				started = true;

			} else {
				double R = sq(std::max(va, 0.5)), tot = 0, top = 0;
				int clips = 0;
				double lik[5];

				for (int i = 0; i < 5; i++) {
					F &g = f[i];
					g.in[0] = g.x[0] - vn;
					g.in[1] = g.x[1] - ve;
					double S00 = g.P[0][0] + R, S11 = g.P[1][1] + R, S01 = g.P[0][1];
					double det = S00 * S11 - S01 * S01;
					g.det = det;
					g.Si[0][0] = S11 / det;
					g.Si[1][1] = S00 / det;
					g.Si[0][1] = g.Si[1][0] = -S01 / det;
					double K[3][2], N[3][3];

					for (int j = 0; j < 3; j++) for (int k = 0; k < 2; k++) { K[j][k] = g.P[j][0] * g.Si[0][k] + g.P[j][1] * g.Si[1][k]; }

					for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { N[j][k] = g.P[j][k] - K[j][0] * g.P[0][k] - K[j][1] * g.P[1][k]; }

					memcpy(g.P, N, sizeof(N));

					for (int j = 0; j < 3; j++) { g.P[j][j] = std::max(g.P[j][j], 1e-6); }

					double nd = g.in[0] * (g.Si[0][0] * g.in[0] + g.Si[0][1] * g.in[1]) + g.in[1] * (g.Si[1][0] * g.in[0] + g.Si[1][1] * g.in[1]);
					double sc = nd > 25 ? std::sqrt(25 / nd) : 1;
					double old = g.x[2];

					for (int j = 0; j < 3; j++) { g.x[j] -= sc * (K[j][0] * g.in[0] + K[j][1] * g.in[1]); }

					g.R = Rz(g.x[2] - old) * g.R;
					lik[i] = std::exp(-0.5 * nd) / (2 * PI * std::sqrt(det));
				}

				for (int i = 0; i < 5; i++) {
					double nw = lik[i] * w[i];

					top = std::max(top, nw);

					if (nw < 1e-5) { clips++; nw = 1e-5; }

					w[i] = nw;
					tot += nw;
				}

				if (clips < 5) { for (double &q : w) { q /= tot; } }

				else { initBank(); collapsed = true; }

				if (std::fabs(top - 1e-5) < 1e-6) { edge = true; }
			}

		} else if (started && !run) {
			started = false;
		}

		double s = 0, cc = 0;

		for (int i = 0; i < 5; i++) { cc += w[i] * cos(f[i].x[2]); s += w[i] * sin(f[i].x[2]); }

		yaw = atan2(s, cc);
		len = std::hypot(s, cc);
		var = 0;

		for (int i = 0; i < 5; i++) { var += w[i] * (f[i].P[2][2] + sq(wrap(f[i].x[2] - yaw))); }

		upd = false;
	}
};
}

namespace
{
struct GsfTruth {
	double heading, turn, roll{0}, pitch{0};
	V3 v, bias;
	Q q;
};
}

VH_CHECK(Y01)
{
	auto &r = c.rng;
	EKFGSF_yaw e;
	GsfModel m;
	const double dt = r.pick(std::vector<double> {0.004, 0.008, 0.01, 0.0125});
	const int kind = r.range(0, 3); // 0-1 converging flight, 2 random inputs and mode changes, 3 hostile values
	GsfTruth tr;
	tr.heading = r.uni(-PI, PI);
	tr.turn = 0;
	tr.v = V3(r.uni(-8, 8), r.uni(-8, 8), 0);
	const double gb = r.chance(0.5) ? r.uni(-0.02, 0.02) : 0;
	tr.bias = V3(r.uni(-0.01, 0.01), r.uni(-0.01, 0.01), gb);
	const double rot = r.uni(-PI, PI);
	const bool tas_on = kind > 1 && r.chance(0.5); // assumes coordinated flight
	const int n = (kind <= 1 ? 40 : 25) / dt;
	const int vel_div = std::max(1, (int)(0.2 / dt));
	const double speed_acc = kind == 0 ? r.uni(0.1, 0.5) : r.uni(0.1, 1.0);
	bool run = kind <= 1, air = false;
	double ax_b = 0, ay_b = 0;
	V3 rates;
	float y = 0, yv = 0, yy[5], in[5], ie[5], w[5];
	c.expect(!e.getYawData(&y, &yv) && !e.getLogData(&y, &yv, yy, in, ie, w), "not-started", "yaw reported before any data");
	int matched = 0, fused = 0;
	double man_time = 0;
	const bool spikes = kind == 2 && r.chance(0.5);
	c.note("kind %d dt %.4f heading %.2f gyro bias %.4f tas %d acc %.2f", kind, dt, tr.heading, gb, tas_on, speed_acc);
	bool compare = kind != 3;
	int n_usable = 0, n_good = 0;

	for (int k = 0; k < n; k++) {
		double t = k * dt;

		// manoeuvres: body-frame horizontal acceleration by tilting, plus turns
		if (k % (int)(1.0 / dt) == 0) {
			air = t > 2;
			const bool back = kind == 0 && std::hypot(ax_b, ay_b) > 0.5;
			const double th = r.uni(-PI, PI), am = r.uni(2, 4);
			ax_b = back ? -ax_b : kind == 0 ? am * cos(th) : r.uni(-4, 4);
			ay_b = back ? -ay_b : kind == 0 ? am * sin(th) : r.uni(-4, 4);

			if (!air) { ax_b = ay_b = 0; }

			rates.z = air ? r.uni(-0.6, 0.6) * (kind == 0 ? 0.5 : 1) : 0;

			if (kind == 2) { run = r.chance(0.85); }
		}

		if (kind == 0 || kind == 1) { run = t > 2; }

		if (air) { man_time += dt; }

		double prev_roll = tr.roll, prev_pitch = tr.pitch;
		tr.pitch += ((-ax_b / 9.80665) - tr.pitch) * std::min(1.0, dt * 4);
		tr.roll += ((ay_b / 9.80665) - tr.roll) * std::min(1.0, dt * 4);
		Q q0 = Q::euler(prev_roll, prev_pitch, tr.heading);
		tr.heading = wrap(tr.heading + rates.z * dt);
		Q q1 = Q::euler(tr.roll, tr.pitch, tr.heading);
		V3 da = (q0.conj() * q1).rotVec() + tr.bias * dt;
		M3 Rz0 = Rz(tr.heading);
		V3 acc_e = Rz0 * V3(-std::tan(tr.pitch) * 9.80665, std::tan(tr.roll) * 9.80665, 0);

		if (!air) { acc_e = V3(); tr.v = tr.v * (1 - dt); }

		V3 dv = q1.rotInv((acc_e - V3(0, 0, 9.80665)) * dt) + V3(r.gauss(), r.gauss(), r.gauss()) * (0.02 * dt);
		tr.v = tr.v + acc_e * dt;

		if (kind == 2 && r.chance(0.002)) { dv = dv + V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * 0.5; }

		double dta = dt, dtv = dt;

		if (kind == 3) {
			if (r.chance(0.05)) { dta = r.pick(std::vector<double> {1e-6, 0.0005, 0.03, 0.5}); }

			if (r.chance(0.05)) { dtv = r.pick(std::vector<double> {1e-6, 0.0005, 0.03, 0.5}); }

			if (r.chance(0.02)) { dv = V3(r.uni(-30, 30), r.uni(-30, 30), r.uni(-30, 30)); }

			if (r.chance(0.02)) { dv = V3(); }

			if (r.chance(0.02)) { da = V3(r.uni(-0.55, 0.55), r.uni(-0.55, 0.55), r.uni(-0.55, 0.55)); }

			run = r.chance(0.001) ? !run : run;

			if (k == 0) { run = r.chance(0.5); }
		}

		estimator::imuSample s{};
		s.delta_ang = matrix::Vector3f(da.x, da.y, da.z);
		s.delta_vel = matrix::Vector3f(dv.x, dv.y, dv.z);
		s.delta_ang_dt = dta;
		s.delta_vel_dt = dtv;
		s.time_us = (uint64_t)(t * 1e6);
		da = V3(s.delta_ang(0), s.delta_ang(1), s.delta_ang(2));
		dv = V3(s.delta_vel(0), s.delta_vel(1), s.delta_vel(2));
		float as = tas_on ? (float)tr.v.norm() : 0.f;

		if (k % vel_div == 0 && !(kind == 2 && r.chance(0.1))) {
			double gx = tr.v.x + r.gauss() * 0.1, gy = tr.v.y + r.gauss() * 0.1;

			if (spikes && r.chance(0.03)) { gx += r.uni(-50, 50); gy += r.uni(-50, 50); }

			if (kind == 3 && r.chance(0.05)) { gx = r.uni(-1e4, 1e4); }

			float acc = kind == 3 && r.chance(0.1) ? r.pick(std::vector<float> {0.f, 1e-4f, 100.f}) : (float)speed_acc;
			e.setVelocity(matrix::Vector2f(gx, gy), acc);
			m.vn = (float)gx;
			m.ve = (float)gy;
			m.va = acc;
			m.upd = true;
		}

		matrix::Vector3f b0(0, 0, kind <= 1 ? (float)gb : 0.01f);
		const bool will_fuse = m.upd && run && m.tilt && m.started;
		e.update(s, run, as, b0);
		m.collapsed = false;

		if (compare) { m.update(da, dv, s.delta_ang_dt, s.delta_vel_dt, run, as, V3(b0(0), b0(1), b0(2))); }

		bool have = e.getLogData(&y, &yv, yy, in, ie, w);
		float y2, v2;
		bool have2 = e.getYawData(&y2, &v2);
		c.expect(have == have2, "availability", "getYawData %d getLogData %d", have2, have);

		if (!run) { c.expect(!have, "stopped", "yaw still reported after fusion was stopped"); }

		if (have) {
			double sum = 0, sx = 0, sy = 0, spread = 0;
			bool fin = std::isfinite(y) && std::isfinite(yv);

			for (int i = 0; i < 5; i++) {
				fin = fin && std::isfinite(yy[i]) && std::isfinite(w[i]) && std::isfinite(in[i]) && std::isfinite(ie[i]);
				c.expect(w[i] >= 0 && w[i] <= 1.0001f, "weight-range", "weight[%d] %g", i, (double)w[i]);
				sum += w[i];
				sx += w[i] * cos((double)yy[i]);
				sy += w[i] * sin((double)yy[i]);
			}

			c.expect(fin, "non-finite", "non-finite yaw bank output (yaw %g var %g)", (double)y, (double)yv);
			c.expect(std::fabs(sum - 1) < 1e-4, "weight-sum", "weights sum to %.6f", sum);
			c.expect(y2 == y && v2 == yv, "availability", "composite yaw differs between getters");

			if (std::hypot(sx, sy) > 0.02) {
				c.expect(std::fabs(wrap(y - atan2(sy, sx))) < 1e-3, "composite-yaw", "composite yaw %.5f, weighted average %.5f", (double)y, atan2(sy, sx));

				for (int i = 0; i < 5; i++) { spread += w[i] * sq(wrap(yy[i] - y)); }

				c.expect(yv >= spread * 0.999 - 1e-5, "composite-variance", "variance %.6f below the spread of the bank %.6f", (double)yv, spread);
			}

			c.expect(yv > 0, "composite-variance", "variance %g", (double)yv);
			c.expect(y >= -3.1416f && y <= 3.1416f, "composite-range", "yaw %g", (double)y);
			c.count("reports");
		}

		if (compare && m.edge) { compare = false; c.count("model_stopped_at_threshold"); }

		if (compare) {
			c.expect(have == m.started, "fusion-status", "reporting %d, expected %d at t=%.2f", have, m.started, t);

			if (m.collapsed) { c.count("bank_restarts"); }

			if (have && m.started && !m.amb) {
				for (int i = 0; i < 5; i++) {
					c.near(std::fabs(wrap(yy[i] - m.f[i].x[2])), 0, 2e-3, "bank-yaw", "yaw hypothesis error");
					c.near(w[i], m.w[i], 0.03, "bank-weight", "hypothesis weight");

					if (will_fuse) {
						c.near(in[i], m.f[i].in[0], 0.02 + 2e-3 * std::fabs(m.f[i].in[0]), "bank-innovation", "north innovation");
						c.near(ie[i], m.f[i].in[1], 0.02 + 2e-3 * std::fabs(m.f[i].in[1]), "bank-innovation", "east innovation");
					}

					c.peak("bank_yaw_model_error", std::fabs(wrap(yy[i] - m.f[i].x[2])));
					c.peak("bank_weight_model_error", std::fabs(w[i] - m.w[i]));
				}

				// equal opposite hypotheses have no mean direction
				if (m.len > 0.1) {
					c.near(yv, m.var, 0.02 + 0.03 * m.var, "bank-variance", "composite variance");
					c.peak("variance_model_error", std::fabs(yv - m.var) / (m.var + 1e-6));
				}

				// continue from the hypotheses just compared, so that rounding does not accumulate
				for (int i = 0; i < 5; i++) {
					double dy = wrap(yy[i] - m.f[i].x[2]);
					m.f[i].R = Rz(dy) * m.f[i].R;
					m.f[i].x[2] = yy[i];
					m.w[i] = w[i];

					if (will_fuse) {
						m.f[i].x[0] += in[i] - m.f[i].in[0];
						m.f[i].x[1] += ie[i] - m.f[i].in[1];
					}
				}

				matched++;
				fused += will_fuse;

				if (will_fuse) { c.count("velocity_fusions"); c.seen(vh::mix(vh::hash_bytes(m.w), 3)); }
			}
		}

		if (c.case_violations) { return; }

		// from any heading, a few seconds of manoeuvring determine the yaw well enough to be used
		if (kind == 0 && have && man_time < 15 && yv < 0.262f * 0.262f) {
			double er = std::fabs(wrap(y - tr.heading));
			c.peak("converged_yaw_error", er);
			n_usable++;
			n_good += er < 0.5;
			c.count("convergence_checks");
		}
	}

	if (kind == 0) {
		c.expect(n_usable > 0, "convergence", "yaw variance never below the usable threshold within 15 s of manoeuvring");
		c.expect(n_good >= 0.5 * n_usable, "convergence", "yaw within 0.5 rad of the truth in only %d of %d steps reported as accurate", n_good, n_usable);
	}

	if (matched) { c.count("compared_steps", matched); }

	c.count(kind <= 1 ? "flights" : kind == 2 ? "mode_change_runs" : "hostile_runs");
	c.sample("kind %d: %d steps of %.1f ms, %d compared with the reference bank, %d velocity fusions, true heading %.2f", kind, n, dt * 1e3, matched, fused, tr.heading);
	(void)rot;
}
