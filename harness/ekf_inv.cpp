// Monitors of invariants over whole flights: E02, E03
#include "ekf_config.hpp"
using namespace sim;

static bool fin(double x) { return std::isfinite(x); }
template<typename V> static bool finv(const V &v, int n) { for (int i = 0; i < n; i++) { if (!std::isfinite(v(i))) { return false; } } return true; }

// plays a flight with commands a user may give in between; cb(call) after each update that returned true
template<typename CB>
static void fly(vh::Ctx &c, Ekf &ekf, const Flight &f, double commands, CB cb)
{
	configure(ekf, f.cfg);
	vh::Rng r(c.rng.u64());

	for (const Call &call : f.calls) {
		apply(ekf, f, call);

		if (call.type != IMU) { continue; }

		if (commands > 0 && r.chance(commands)) {
			switch (r.below(6)) {
			case 0: ekf.resetImuBias(); c.count("command: reset imu bias"); break;

			case 1: ekf.resetGyroBias(); break;

			case 2: ekf.resetAccelBias(); break;

			case 3: ekf.resetMagBias(); break;

			case 4: ekf.setEkfGlobalOrigin(f.cfg.lat0 + r.uni(-0.01, 0.01), f.cfg.lon0 + r.uni(-0.01, 0.01), (float)(f.cfg.alt0 + r.uni(-10, 10))); c.count("command: set origin"); break;

			case 5: ekf.set_gnd_effect_flag(r.chance(0.5)); break;
			}
		}

		if (!ekf.update()) { continue; }

		if (!cb(call, (f.imu[call.idx].time_us - f.cfg.start_us) * 1e-6)) { return; }
	}
}

VH_CHECK(E02)
{
	auto &r = c.rng;
	const bool hostile = r.chance(0.6);
	Config k = wildConfig(r, 45, hostile ? 10 : 4);

	// some updates of every second are without measurement (except with vision height, fused in every update: known finding)
	const bool every_step = k.params.vdist_sensor_type == VDIST_SENSOR_EV;
	for (SensorCfg *s : {&k.mag, &k.baro, &k.rng, &k.flow, &k.ev, &k.aux, &k.aspd}) { s->period = std::max(s->period, 0.1); }

	if (hostile) {
		outliers(k, r);

		// tight limits, wild biases
		if (r.chance(0.5)) { k.params.acc_bias_lim = r.uni(0.05, 0.4); k.accel_bias = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); }

		if (r.chance(0.3)) { k.gyro_bias = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * 0.5; k.params.switch_on_gyro_bias = 0.3; }

		if (r.chance(0.3)) { k.mag_bias = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); k.params.mag_innov_gate = 100; }

		if (r.chance(0.3)) { k.wind = k.wind * 10; }

		// anything the sensors can physically report
		const CallType all[] = {GPS, BARO, MAG, RNG, FLOW, EV, AUX, ASPD};

		for (CallType t : all) { if (r.chance(0.5)) { const double t0 = r.uni(2, 40); k.faults.push_back({t, r.chance(0.5) ? SPIKE : BIAS_STEP, t0, t0 + r.logu(0.2, 20), r.logu(1, t == MAG ? 10 : 1e5) * (r.chance(0.5) ? 1 : -1)}); } }

		if (r.chance(0.5)) { const double t0 = r.uni(2, 40); k.faults.push_back({IMU, r.chance(0.5) ? NOISY : BIAS_STEP, t0, t0 + r.logu(0.2, 10), r.logu(1, 300)}); }
	}

	Flight f = Generator(k, r.u64()).run();
	auto ekf = std::make_unique<Ekf>();
	static const int grp[24] = {-1, -1, -1, -1, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6};
	static const char *names[] = {"velocity", "position", "gyro bias", "accel bias", "earth field", "body field", "wind"};
	double win[24], win_t = 0;
	int win_n = 0;

	for (double &w : win) { w = 1e9; }

	fly(c, *ekf, f, r.chance(0.3) ? 0.001 : 0, [&](const Call &, double t) {
		auto s = ekf->getStateAtFusionHorizonAsVector();
		c.eval();

		for (int i = 0; i < 24; i++) { if (!fin(s(i))) { c.fail("state not finite", "t %.2f state %d is %g (flags %08x fault %x)", t, i, s(i), (unsigned)ekf->control_status().value, (unsigned)ekf->fault_status().value); return false; } }

		const double n = std::sqrt(sq(s(0)) + sq(s(1)) + sq(s(2)) + sq(s(3)));
		c.peak("quaternion norm error", std::fabs(n - 1));
		c.expect(std::fabs(n - 1) < 1e-5, "quaternion norm", "t %.2f norm %.8f", t, n);
		// limits are enforced with every prediction; a correction may exceed them until the next one, so within a second some
		// update shows the state inside its limits
		const Vector3f gb = ekf->getGyroBias(), ab = ekf->getAccelBias();

		if (t > win_t + 1) {
			for (int i = 4; i < 24 && win_n > 50; i++) {
				c.peak(("lowest of a second/limit: " + std::string(names[grp[i]])).c_str(), win[i]);

				if (win[i] > 1) { c.count("limit reached"); }

				if (win[i] > (i >= 10 && i < 16 ? 1.02 : 1.0001) && !every_step) {
					c.fail("state beyond its limit", "t %.2f state %d was at least %.4g times its limit in all of %d updates", t, i, win[i], win_n);
				}
			}

			for (double &w : win) { w = 1e9; }

			win_t = t;
			win_n = 0;
		}

		for (int i = 4; i < 24; i++) {
			const double v = i >= 10 && i < 13 ? gb(i - 10) : i >= 13 && i < 16 ? ab(i - 13) : s(i);
			const double lim = grp[i] == 2 ? 20 * D2R : grp[i] == 3 ? (double)k.params.acc_bias_lim : grp[i] == 0 ? 1000. : grp[i] == 1 ? 1e6 : grp[i] == 4 ? 1. : grp[i] == 5 ? 0.5 : 100.;
			win[i] = std::min(win[i], std::fabs(v) / lim);

			if (std::fabs(v) > lim * 0.999) { c.count((std::string("at or beyond limit: ") + names[grp[i]]).c_str()); }
		}

		win_n++;
		// published outputs
		const Quatf q = ekf->getQuaternion();
		const Vector3f v = ekf->getVelocity(), p = ekf->getPosition();
		c.expect(finv(q, 4) && finv(v, 3) && finv(p, 3) && fin(ekf->getVerticalPositionDerivative()) && fin(ekf->getTerrainVertPos()) && fin(ekf->get_terrain_var()), "output not finite", "t %.2f", t);
		const double nq = std::sqrt(sq(q(0)) + sq(q(1)) + sq(q(2)) + sq(q(3)));
		c.expect(std::fabs(nq - 1) < 1e-4, "output quaternion norm", "t %.2f norm %.7f", t, nq);
		return c.case_violations < 8;
	});
	c.count(hostile ? "hostile flights" : "flights");
	c.seen(c.case_no);
}

// smallest addition (times the variance of the state's group) that makes the matrix positive definite
template<typename MAT>
static double deficit(const MAT &P)
{
	static const int grp[25] = {0, 0, 0, 0, 4, 4, 4, 7, 7, 7, 10, 10, 10, 13, 13, 13, 16, 16, 16, 19, 19, 19, 22, 22, 24};
	double sc[24], big[25] = {};

	for (int i = 0; i < 24; i++) { big[grp[i]] = std::max(big[grp[i]], (double)P(i, i)); }

	for (int i = 0; i < 24; i++) { sc[i] = big[grp[i]] > 0 ? 1 / std::sqrt(big[grp[i]]) : 0; }

	for (double d : {1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2, 3e-2, 1e-1, 1.0}) {
		double L[24][24];
		bool ok = true;

		for (int i = 0; i < 24 && ok; i++) {
			for (int j = 0; j <= i; j++) {
				double v = sc[i] * P(i, j) * sc[j] + (i == j ? d : 0);

				for (int n = 0; n < j; n++) { v -= L[i][n] * L[j][n]; }

				if (i == j) { if (!(v > 0)) { ok = false; break; } L[i][i] = std::sqrt(v); }

				else { L[i][j] = v / L[j][j]; }
			}
		}

		if (ok) { return d; }
	}

	return 10;
}

VH_CHECK(E03)
{
	auto &r = c.rng;
	Config k = wildConfig(r, 45, 6);

	if (r.chance(0.5)) { outliers(k, r); }

	Flight f = Generator(k, r.u64()).run();
	auto ekf = std::make_unique<Ekf>();
	bool mag0 = true, wind0 = true, field_reset0 = false;
	int n = 0;
	fly(c, *ekf, f, r.chance(0.4) ? 0.001 : 0, [&](const Call &, double t) {
		const auto &P = ekf->covariances();
		c.eval();
		const auto fl = ekf->control_status().flags;

		for (int i = 0; i < 24; i++) {
			if (!fin(P(i, i)) || P(i, i) < 0) { c.fail("variance", "t %.2f P(%d,%d) = %g", t, i, i, P(i, i)); return false; }

			for (int j = 0; j < i; j++) {
				if (!fin(P(i, j))) { c.fail("covariance not finite", "t %.2f P(%d,%d) = %g", t, i, j, P(i, j)); return false; }

				if (std::fabs((double)P(i, j) - P(j, i)) > 1e-5 * std::sqrt((double)P(i, i) * P(j, j)) + 1e-14) { c.fail("not symmetric", "t %.2f P(%d,%d) = %g P(%d,%d) = %g", t, i, j, P(i, j), j, i, P(j, i)); return false; }
			}
		}

		if (n++ % 7 == 0) {
			const double d = deficit(P);
			// an attitude uncertainty of the order of a radian is beyond the linearisation and clipped
			const double vq = P(0, 0) + P(1, 1) + P(2, 2) + P(3, 3);
			const bool known = fl.yaw_align && vq < 0.2;
			c.peak(known ? "deficit (attitude known)" : "deficit (attitude unknown)", d);
			c.count("definiteness checked", known);

			if (known && d > 0.02) {
				c.fail("not positive semi-definite", "t %.2f the covariance has a direction of variance below -%g of its group's largest, flags %08x", t, d, (unsigned)ekf->control_status().value);
			}
		}

		static const double lim[24] = {1, 1, 1, 1, 1e6, 1e6, 1e6, 1e6, 1e6, 1e6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1e6, 1e6};

		for (int i = 0; i < 24; i++) {
			c.peak("variance/limit", P(i, i) / lim[i]);

			if (P(i, i) > lim[i] * 1.00001) { c.fail("variance above its limit", "t %.2f P(%d,%d) = %g", t, i, i, P(i, i)); }
		}

		bool field_reset = false;

		if (!fl.mag_3D && !mag0) {
			// a reset of the field states leaves their new variance in place until the next prediction
			const double v0 = sq(k.params.mag_noise);

			for (int i = 16; i < 22; i++) {
				if (P(i, i) != 0 && std::fabs(P(i, i) - v0) < 1e-6 * v0) { field_reset = true; }

				for (int j = 0; j < 24; j++) {
					if (P(i, j) != 0 && (i != j || field_reset0 || std::fabs(P(i, i) - v0) > 1e-6 * v0)) { c.fail("field covariance while not estimated", "t %.2f P(%d,%d) = %g", t, i, j, P(i, j)); return false; }
				}
			}
		}

		if (!fl.wind && !wind0) {
			for (int i = 22; i < 24; i++) { for (int j = 0; j < 24; j++) { if (P(i, j) != 0 || P(j, i) != 0) { c.fail("wind covariance while not estimated", "t %.2f P(%d,%d) = %g", t, i, j, P(i, j)); return false; } } }
		}

		mag0 = fl.mag_3D;
		wind0 = fl.wind;
		field_reset0 = field_reset;
		return c.case_violations < 8;
	});
	c.count("flights");
	c.seen(c.case_no);
}
