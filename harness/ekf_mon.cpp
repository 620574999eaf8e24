// Monitors of reported modes, bias resets, initialisation, vibration: E17, E23, E26, E27
#include "mon.hpp"
#include "ekf_all.hpp"
#include <deque>
using namespace sim;

// E27 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E27)
{
	auto &r = c.rng;
	Config k = wildConfig(r, 25, 2);
	k.params.is_moving_scaler = r.logu(0.3, 4);
	k.t_takeoff = r.uni(5, 20);

	if (r.chance(0.3)) { k.vehicle = STATIC; }

	if (r.chance(0.5)) { k.vibration = 0; }

	k.s_gyro *= r.logu(0.02, 5);
	k.s_accel *= r.logu(0.02, 3);
	Flight f = Generator(k, r.u64()).run();

	// phases of quiet and of single disturbances while on the ground
	for (int i = 0; i < 8; i++) {
		const uint64_t t0 = k.start_us + (uint64_t)(r.uni(0, 20) * 1e6), len = (uint64_t)(r.logu(0.003, 3) * 1e6);
		const int what = r.below(3);
		const float a = (float)r.logu(0.3, 3) * 0.05f * k.params.is_moving_scaler;

		for (imuSample &m : f.imu) {
			if (m.time_us < t0 || m.time_us > t0 + len) { continue; }

			if (what == 0) { m.delta_ang += Vector3f(0, a * m.delta_ang_dt, 0); }

			else if (what == 1) { m.delta_vel(2) += (r.chance(0.5) ? 1 : -1) * (float)k.params.is_moving_scaler / 2.1e2f; }

			else { m.delta_ang(0) += (r.chance(0.5) ? 1 : -1) * (float)k.params.is_moving_scaler / 4e4f; }
		}
	}

	// the user toggles the flight status at will
	if (r.chance(0.4)) {
		for (int i = 0; i < 4; i++) {
			f.flags.push_back(r.chance(0.5));
			f.calls.push_back({INAIR, (uint32_t)f.flags.size() - 1, k.start_us + (uint64_t)(r.uni(0, 24) * 1e6)});
		}

		std::stable_sort(f.calls.begin(), f.calls.end(), [](const Call & a, const Call & b) { return a.at < b.at; });
	}

	auto ekf = std::make_unique<Ekf>();
	configure(*ekf, k);
	double v[3] = {}, pa[3] = {}, pv[3] = {};
	uint64_t last = 0, move_lo = 0, move_hi = 0; // last time of motion: certain, possible
	bool first = true;
	int run = 0;

	for (const Call &call : f.calls) {
		apply(*ekf, f, call);

		if (call.type != IMU) { continue; }

		const imuSample &m = f.imu[call.idx];
		double a[3], d[3];

		for (int i = 0; i < 3; i++) { a[i] = m.delta_ang(i); d[i] = m.delta_vel(i); }

		const double con[3] = {a[1] * pa[2] - a[2] * pa[1], a[2] * pa[0] - a[0] * pa[2], a[0] * pa[1] - a[1] * pa[0]};
		auto len = [](double x, double y, double z) { return std::sqrt(x * x + y * y + z * z); };
		v[0] = 0.99 * v[0] + 0.01 * len(con[0], con[1], con[2]);
		v[1] = 0.99 * v[1] + 0.01 * len(a[0] - pa[0], a[1] - pa[1], a[2] - pa[2]);
		v[2] = 0.99 * v[2] + 0.01 * len(d[0] - pv[0], d[1] - pv[1], d[2] - pv[2]);

		for (int i = 0; i < 3; i++) { pa[i] = a[i]; pv[i] = d[i]; }

		const Vector3f g = ekf->getImuVibrationMetrics();
		static const char *n[] = {"coning", "gyro", "accel"};

		for (int i = 0; i < 3; i++) {
			// float rounding of the two steps, and of the cross product
			const double tol = 1e-4 * v[i] + (i == 0 ? 1e-10 : 1e-9);
			c.peak((std::string("vibration error/tolerance ") + n[i]).c_str(), std::fabs(g(i) - v[i]) / tol);
			c.expect(std::fabs(g(i) - v[i]) <= tol, "vibration level", "%s level %g expected %g", n[i], (double)g(i), v[i]);
		}

		const double dt = first ? 0.02 : std::min(0.02, std::max(1e-4, (double)(m.time_us - last) * 1e-6));
		last = m.time_us;
		first = false;
		const double s = k.params.is_moving_scaler;
		const double ex = std::max(std::max(v[1] * 4e4 / s, v[2] * 2.1e2 / s), len(a[0], a[1], a[2]) / dt / (0.05 * s));
		const bool air = ekf->control_status_flags().in_air;

		if (air || ex > 1.0002) { move_lo = m.time_us; }

		if (air || ex > 0.9998) { move_hi = m.time_us; }

		const bool rest = ekf->control_status_flags().vehicle_at_rest;
		const bool rest_lo = !air && m.time_us - move_hi > 1000000, rest_hi = !air && m.time_us - move_lo > 1000000;
		c.eval();

		if (rest && !rest_hi) { c.fail("reported at rest", "t %.3f in air %d, %.3f s after motion (level %.3f of threshold)", (m.time_us - k.start_us) * 1e-6, air, (m.time_us - move_lo) * 1e-6, ex); }

		if (!rest && rest_lo) { c.fail("not reported at rest", "t %.3f, %.3f s after motion", (m.time_us - k.start_us) * 1e-6, (m.time_us - move_hi) * 1e-6); }

		c.expect(ekf->isVehicleAtRest() == rest, "at-rest accessor", "differs from the status bit");
		c.count(rest ? "samples at rest" : air ? "samples in air" : "samples moving on ground");

		if (!air && run && rest != (run == 2)) { c.count(rest ? "came to rest" : "motion detected"); }

		run = air ? 0 : rest ? 2 : 1;

		if (c.case_violations > 8) { return; }

		ekf->update();
	}

	c.seen(vh::hash_bytes(v));
}

// E23 ------------------------------------------------------------------------------------------------------------------
static std::map<std::string, std::vector<uint8_t>> everything(const Ekf &e)
{
	std::map<std::string, std::vector<uint8_t>> m;
	readAll(e, [&](const char *n, const void *p, size_t s) { auto &v = m[n]; v.insert(v.end(), (const uint8_t *)p, (const uint8_t *)p + s); });
	return m;
}

VH_CHECK(E23)
{
	auto &r = c.rng;
	Config k = wildConfig(r, 45, 1);
	k.vehicle = r.chance(0.7) ? MULTI : FIXED;
	k.params.switch_on_gyro_bias = r.logu(0.01, 0.5);
	k.params.switch_on_accel_bias = r.logu(0.05, 1);
	k.params.mag_fusion_type = r.chance(0.7) ? MAG_FUSE_TYPE_AUTO : r.chance(0.5) ? MAG_FUSE_TYPE_3D : MAG_FUSE_TYPE_HEADING;
	k.mag_bias = V3(r.gauss(), r.gauss(), r.gauss()) * 0.02;
	const bool quiet = r.chance(0.5); // slow flight: automatic magnetic mode changes back and forth

	if (quiet) { k.speed = r.uni(0, 2); k.yaw_rate = r.uni(0.1, 0.5); }

	Flight f = Generator(k, r.u64()).run();
	auto e = std::make_unique<Ekf>();
	configure(*e, k);
	const double rate = r.chance(0.5) ? 0.002 : 0.0003;
	const bool resets = r.chance(0.6);
	uint64_t pu = 0;
	double dts = 0;
	int ndt = 0;
	Snap prev;
	// magnetic calibration at the end of three-axis fusion
	bool saved = false;
	double sx[6], sv[6];
	std::deque<V3> mags;
	// in-flight alignment of the fields alone: the earth field becomes the measured one
	auto measured = [&](const Snap & s) {
		const Q q(s.x[0], s.x[1], s.x[2], s.x[3]);

		for (const V3 &m : mags) { if ((q.rot(m) - V3(s.x[16], s.x[17], s.x[18])).norm() < 0.2) { return true; } }

		return false;
	};

	for (const Call &call : f.calls) {
		apply(*e, f, call);

		if (call.type == MAG) {
			const auto &m = f.mag[call.idx].mag;
			mags.push_back(V3(m(0), m(1), m(2)));

			if (mags.size() > 60) { mags.pop_front(); }
		}

		if (call.type != IMU) { continue; }

		const bool u = e->update();
		const double t = (f.imu[call.idx].time_us - k.start_us) * 1e-6;

		if (u) {
			const Snap s = snap(*e, f.imu[call.idx].time_us);

			if (pu && s.imu_us > pu) { dts += (s.imu_us - pu) * 1e-6; ndt++; }

			pu = s.imu_us;
			// reported biases are the internal quantities divided by the filter interval
			const Vector3f gb = e->getGyroBias(), ab = e->getAccelBias(), gv = e->getGyroBiasVariance(), av = e->getAccelBiasVariance();
			const Vector3f mb = e->getMagBias(), mv = e->getMagBiasVariance();
			double best = 0, dt = 0;

			for (int i = 0; i < 6; i++) {
				const double b = i < 3 ? gb(i) : ab(i - 3);

				if (std::fabs(b) > best) { best = std::fabs(b); dt = s.x[10 + i] / b; }
			}

			if (best > 1e-6) {
				for (int i = 0; i < 6; i++) {
					const double b = i < 3 ? gb(i) : ab(i - 3), v = i < 3 ? gv(i) : av(i - 3);
					c.expect(std::fabs(b * dt - s.x[10 + i]) <= 1e-5 * std::fabs(s.x[10 + i]) + 1e-12, "bias scale", "t %.2f bias %d reported %g, state %g, interval %g", t, i, b, s.x[10 + i], dt);
					c.expect(std::fabs(v * dt * dt - s.var[10 + i]) <= 1e-4 * std::fabs(s.var[10 + i]) + 1e-14, "bias variance scale", "t %.2f bias %d variance reported %g, state %g, interval %g", t, i, v, s.var[10 + i], dt);
				}

				if (ndt > 100) {
					const double mean = dts / ndt;
					c.peak("filter interval relative error", std::fabs(dt / mean - 1));
					c.expect(std::fabs(dt / mean - 1) < 0.25 && (k.imu_jitter > 0 || std::fabs(dt / mean - 1) < 0.1), "filter interval", "t %.2f biases divided by %.6f, updates are %.6f apart", t, dt, mean);
				}
			}

			for (int i = 0; i < 3; i++) { c.expect(mb(i) == (float)s.x[19 + i] && mv(i) == (float)s.var[19 + i], "mag bias", "t %.2f reported magnetic bias %g variance %g, state %g variance %g", t, (double)mb(i), (double)mv(i), s.x[19 + i], s.var[19 + i]); }

			// three-axis fusion stops and is restarted
			if (prev.valid) {
				const bool was = prev.c(C_MAG3D), is = s.c(C_MAG3D);
				const bool realigned = prev.nr[4] != s.nr[4] || (s.c(C_MAGAIR) && !prev.c(C_MAGAIR)) || !s.c(C_YAW) || !s.c(C_TILT)
						       || (s.x[16] != prev.x[16] && s.x[17] != prev.x[17] && s.x[18] != prev.x[18] && measured(s));

				if (realigned) { saved = false; }

				else if (was && !is) {
					saved = true;
					c.count("three-axis fusion stopped");

					for (int i = 0; i < 6; i++) { sx[i] = s.x[16 + i]; sv[i] = prev.var[16 + i]; c.expect(std::fabs(s.x[16 + i] - prev.x[16 + i]) < 5 * std::sqrt(sv[i]) + 0.01, "field not kept", "t %.2f field state %d changed from %g to %g (std %g) when three-axis fusion stopped", t, i, prev.x[16 + i], s.x[16 + i], std::sqrt(sv[i])); } // the update that stops it may still correct the field
				}

				if (saved && !is) {
					for (int i = 0; i < 6; i++) {
						if (!c.expect(s.x[16 + i] == sx[i], "field not kept", "t %.2f field state %d changed from %g to %g (std %g) while three-axis fusion was off", t, i, sx[i], s.x[16 + i], std::sqrt(sv[i]))) { saved = false; }
					}
				}

				if (saved && !was && is) {
					c.count("three-axis fusion restarted");

					for (int i = 0; i < 6; i++) {
						const double ratio = s.var[16 + i] / sv[i];
						c.peak("restored variance/saved", ratio);
						c.peak("-(restored variance/saved)", -ratio);
						c.expect(ratio < 1.2 && ratio > 0.02, "variance not restored", "t %.2f variance %d was %g at the end of three-axis fusion and is %g at its restart", t, i, sv[i], s.var[16 + i]);
						c.expect(std::fabs(s.x[16 + i] - sx[i]) < 5 * std::sqrt(sv[i]) + 0.01, "field not restored", "t %.2f field state %d was %g at the end of three-axis fusion and is %g (std %g) at its restart", t, i, sx[i], s.x[16 + i], std::sqrt(sv[i]));
					}

					saved = false;
				}
			}

			prev = s;
		}

		// requests of the user
		if (resets && r.chance(rate)) {
			const int what = r.below(4);
			const auto before = everything(*e);
			const auto x0 = e->getStateAtFusionHorizonAsVector();
			const auto P0 = e->covariances();

			switch (what) {
			case 0: e->resetImuBias(); c.count("imu bias reset"); break;

			case 1: e->resetGyroBias(); c.count("gyro bias reset"); break;

			case 2: e->resetAccelBias(); c.count("accel bias reset"); break;

			case 3:
				e->resetMagBias();
				c.count("mag bias reset");

				// applies to the calibration kept for the restart of three-axis fusion as well
				if (saved && !prev.c(C_MAG3D)) { c.count("mag bias reset between three-axis fusion"); for (int i = 3; i < 6; i++) { sx[i] = 0; sv[i] = sq((double)k.params.mag_noise); } }

				else { saved = false; }

				break;
			}

			const auto x1 = e->getStateAtFusionHorizonAsVector();
			const auto P1 = e->covariances();
			auto hit = [&](int i) { return what == 3 ? i >= 19 && i < 22 : (what != 2 && i >= 10 && i < 13) || (what != 1 && i >= 13 && i < 16); };
			const double want[3] = {sq(k.params.switch_on_gyro_bias * 0.01), sq(k.params.switch_on_accel_bias * 0.01), sq((double)k.params.mag_noise)};

			for (int i = 0; i < 24; i++) {
				c.expect(x1(i) == (hit(i) ? 0.f : x0(i)), "state after reset", "t %.2f request %d: state %d from %g to %g", t, what, i, (double)x0(i), (double)x1(i));

				for (int j = 0; j < 24; j++) {
					if (!hit(i) && !hit(j)) { c.expect(P1(i, j) == P0(i, j), "unrelated covariance", "t %.2f request %d: covariance %d,%d from %g to %g", t, what, i, j, (double)P0(i, j), (double)P1(i, j)); }

					else if (i != j) { c.expect(P1(i, j) == 0, "correlation after reset", "t %.2f request %d: covariance %d,%d is %g", t, what, i, j, (double)P1(i, j)); }

					else { const double w = want[i < 13 ? 0 : i < 16 ? 1 : 2]; c.expect(std::fabs(P1(i, i) - w) <= 1e-5 * w, "variance after reset", "t %.2f request %d: variance %d is %g, configured %g", t, what, i, (double)P1(i, i), w); }
				}
			}

			// whatever else the filter reports is unchanged
			const auto after = everything(*e);

			for (const auto &kv : before) {
				const std::string &n = kv.first;

				if (n == "state" || n == "covariance" || n == "variance" || n == "gyro bias" || n == "accel bias" || n == "mag bias" || n == "gyro bias variance" || n == "accel bias variance" || n == "mag bias variance" || n == "predicted attitude") { continue; }

				c.expect(after.at(n) == kv.second, "unrelated output", "t %.2f request %d changed %s", t, what, n.c_str());
			}

			// learning goes on: a reset flight must not refuse later updates
			if (what != 3 || !saved) { prev.valid = false; }

			else { for (int i = 19; i < 22; i++) { prev.x[i] = 0; } }
		}

		if (c.case_violations > 6) { return; }
	}

	c.seen(c.case_no);
}

// E26 ------------------------------------------------------------------------------------------------------------------
// variances of the first two components of the rotation vector of a quaternion with this covariance, by numeric differentiation
static double tiltVariance(const Ekf &e)
{
	const auto st = e.getStateAtFusionHorizonAsVector();
	const auto &P = e.covariances();
	double q[4];
	const double sg = st(0) < 0 ? -1 : 1;

	for (int i = 0; i < 4; i++) { q[i] = sg * st(i); }

	auto rv = [](const double *x, int i) { const double n = std::sqrt(std::max(1e-30, 1 - x[0] * x[0])); return 1 - x[0] * x[0] < 1e-9 ? 2 * x[i] : 2 * std::acos(x[0]) * x[i] / n; };
	double sum = 0;

	for (int i = 1; i < 3; i++) {
		const int ix[2] = {0, i};
		double d[2];

		for (int j = 0; j < 2; j++) {
			const double h = 1e-7;
			double a[4], b[4];

			for (int n = 0; n < 4; n++) { a[n] = b[n] = q[n]; }

			a[ix[j]] = std::max(-1., a[ix[j]] - h);
			b[ix[j]] = std::min(1., b[ix[j]] + h);
			d[j] = (rv(b, i) - rv(a, i)) / (b[ix[j]] - a[ix[j]]);
		}

		sum += d[0] * d[0] * P(0, 0) + d[1] * d[1] * P(i, i) + 2 * d[0] * d[1] * P(0, i);
	}

	return sum;
}

VH_CHECK(E26)
{
	auto &r = c.rng;
	Config k = stepConfig(r);
	k.vehicle = STATIC;
	k.dur = 20;
	k.imu_dt = r.chance(0.5) ? 0.01 : r.uni(0.0025, 0.01);
	k.roll0 = r.chance(0.5) ? r.uni(-PI, PI) : r.uni(-0.3, 0.3);
	k.pitch0 = r.chance(0.5) ? r.uni(-1.4, 1.4) : r.uni(-0.3, 0.3);
	k.noise_scale = 1;
	k.s_accel = k.s_gyro = k.s_mag = 0;
	k.accel_bias = k.gyro_bias = V3();
	k.s_baro = 0;
	k.baro_offset = r.uni(-1000, 1000);
	k.params.mag_fusion_type = r.chance(0.8) ? r.below(4) : (int)MAG_FUSE_TYPE_NONE;
	k.params.mag_declination_source = 0;
	k.params.mag_declination_deg = r.uni(-40, 40);
	k.wmm = false;
	k.decl = k.params.mag_declination_deg * D2R;
	k.incl = r.uni(-1.3, 1.3);
	k.strength = r.uni(0.25, 0.6);
	k.gps.on = false;
	k.params.fusion_mode = 0;
	k.params.gps_vel_noise = r.logu(0.005, 2);
	k.params.gps_pos_noise = r.logu(0.005, 3);
	k.params.baro_noise = r.logu(0.005, 5);
	k.params.mag_noise = r.logu(0.01, 0.2);
	k.params.mag_heading_noise = r.logu(0.005, 0.5);
	k.params.switch_on_gyro_bias = r.logu(0.01, 0.3);
	k.params.switch_on_accel_bias = r.logu(0.05, 1);
	k.params.initial_tilt_err = r.logu(0.01, 0.5);
	k.params.initial_wind_uncertainty = r.logu(0.3, 5);
	const double mag_per = r.logu(0.02, 0.12), baro_per = r.logu(0.02, 0.12);
	k.mag.period = mag_per;
	k.baro.period = baro_per;
	Flight f = Generator(k, r.u64()).run();
	const bool need_mag = k.params.mag_fusion_type <= MAG_FUSE_TYPE_3D;
	// what is disturbed at the start, and until when
	enum { NOTHING, LIGHT, HEAVY, TURNING, NO_MAG, NO_BARO, SLIGHT } what = (decltype(NOTHING))(r.chance(0.4) ? 0 : r.below(7));

	// an initial tilt from gravity alone has no meaning for heading if the field is parallel to it: never here, |incl| < 1.3
	const double t_ok = what == NOTHING ? 0 : r.uni(2, 10);
	const uint64_t ok_us = k.start_us + (uint64_t)(t_ok * 1e6);

	for (imuSample &m : f.imu) {
		if (m.time_us >= ok_us) { break; }

		if (what == LIGHT) { m.delta_vel *= 0.77f; }

		if (what == HEAVY) { m.delta_vel *= 1.23f; }

		if (what == SLIGHT) { m.delta_vel *= r.chance(0.5) ? 1.17f : 0.83f; }

		if (what == TURNING) { m.delta_ang += Vector3f(0.1f, 0.15f, 0.2f) * (1.03f * m.delta_ang_dt); }
	}

	auto e = std::make_unique<Ekf>();
	configure(*e, k);
	const bool blocks = what == LIGHT || what == HEAVY || what == TURNING || (what == NO_MAG && need_mag) || what == NO_BARO;
	bool init = false, aligned = false;
	double t_init = 0, tv = 0, t_first_mag = 1e9, t_first_baro = 1e9;
	int n_mag = 0, n_baro = 0;
	c.count((std::string("start: ") + (what == NOTHING ? "undisturbed" : what == LIGHT ? "too light" : what == HEAVY ? "too heavy" : what == TURNING ? "turning" : what == NO_MAG ? "no mag" : what == NO_BARO ? "no baro" : "slight")).c_str());

	for (const Call &call : f.calls) {
		if (call.at < ok_us && ((what == NO_MAG && call.type == MAG) || (what == NO_BARO && call.type == BARO))) { continue; }

		apply(*e, f, call);

		if (call.type == MAG) { n_mag++; }

		if (call.type == BARO) { n_baro++; }

		if (call.type != IMU) { continue; }

		const bool u = e->update();
		const uint64_t now = f.imu[call.idx].time_us;
		const double t = (now - k.start_us) * 1e-6;

		if (n_mag >= 1 && t_first_mag > t) { t_first_mag = t; }

		if (n_baro >= 1 && t_first_baro > t) { t_first_baro = t; }

		const auto &P = e->covariances();
		const auto x = e->getStateAtFusionHorizonAsVector();

		if (!init && P(10, 10) <= 0 && !u) {
			c.expect(!e->attitude_valid() && e->control_status().flags.tilt_align == 0 && e->control_status().flags.yaw_align == 0, "aligned before initialisation", "t %.2f status %s", t, bits(e->control_status().value).c_str());
			continue;
		}

		if (!init) {
			init = true;
			t_init = t;
			c.count("initialisations");

			if (!u) { c.count("seen before the first update"); }

			// enough data and a steady vehicle
			c.expect(!need_mag || n_mag >= 2, "started without magnetometer", "t %.2f after %d samples", t, n_mag);
			c.expect(n_baro >= 2, "started without height", "t %.2f after %d samples", t, n_baro);
			c.expect(!blocks || t > t_ok - 0.05, "started on an unsteady vehicle or without data", "t %.2f disturbance %d until %.2f", t, (int)what, t_ok);
			// attitude implied by gravity and field (after the disturbance has left the filters)
			const Truth &tr = f.at(now);
			const Q qe(x(0), x(1), x(2), x(3));
			const V3 down_est = qe.rotInv(V3(0, 0, 1)), down_true = tr.q.rotInv(V3(0, 0, 1));
			// the first update propagates with whatever was measured meanwhile
			const bool clean = what != TURNING;
			const double tilt = std::acos(std::max(-1., std::min(1., down_est.dot(down_true))));
			c.peak("initial tilt error (rad)", clean ? tilt : 0);

			if (clean) { c.expect(tilt < 1.5e-3, "initial tilt", "t %.2f tilt error %.5f rad at roll %.3f pitch %.3f", t, tilt, k.roll0, k.pitch0); }

			if (need_mag && clean) {
				const V3 fe = qe.rotInv(V3(1, 0, 0)), ft = tr.q.rotInv(V3(1, 0, 0));
				const double head = std::acos(std::max(-1., std::min(1., fe.dot(ft))));
				c.peak("initial heading error (rad)", head);
				c.expect(head < 3e-3, "initial heading", "t %.2f heading error %.5f rad at roll %.3f pitch %.3f inclination %.2f declination %.2f", t, head, k.roll0, k.pitch0, k.incl, k.decl);
				const V3 fi(x(16), x(17), x(18));
				c.expect((fi - f.earth_field).norm() < 5e-3 * k.strength + 1e-4, "initial earth field", "t %.2f field %.4f %.4f %.4f expected %.4f %.4f %.4f", t, fi.x, fi.y, fi.z, f.earth_field.x, f.earth_field.y, f.earth_field.z);
				c.count("magnetic initialisations");
			}

			for (int i = 4; i < 24; i++) { if (i < 16 || i > 18) { c.expect(std::fabs(x(i)) < (i < 7 ? 0.3 : 2e-2), "initial state not zero", "t %.2f state %d is %g", t, i, (double)x(i)); } }

			// configured uncertainty: the first update adds process noise and may fuse a height
			auto var = [&](int i, double want, double lo, double hi, const char *n) {
				c.peak((std::string("initial variance ratio ") + n).c_str(), P(i, i) / want);
				c.expect(P(i, i) >= want * lo && P(i, i) <= want * hi, "initial variance", "t %.3f %s variance %d is %g, configured %g (flags %s)", t, n, i, (double)P(i, i), want, bits(e->control_status().value).c_str());
			};

			for (int i = 0; i < 3; i++) {
				var(10 + i, sq(k.params.switch_on_gyro_bias * 0.01), 0.9, 1.1, "gyro bias");
				var(13 + i, sq(k.params.switch_on_accel_bias * 0.01), 0.9, 1.15, "accel bias");

				if (need_mag && !u) { var(16 + i, sq((double)k.params.mag_noise), 0.99, 1.01, "earth field"); var(19 + i, sq((double)k.params.mag_noise), 0.99, 1.01, "body field"); }
			}

			if (!u) {
				// the first update zeroes the inactive wind states
				var(22, sq((double)k.params.initial_wind_uncertainty), 0.98, 1.02, "wind");
				var(23, sq((double)k.params.initial_wind_uncertainty), 0.98, 1.02, "wind");
				var(4, sq(std::max(0.01, (double)k.params.gps_vel_noise)), 0.99, 1.01, "velocity");
				var(5, sq(std::max(0.01, (double)k.params.gps_vel_noise)), 0.99, 1.01, "velocity");
				var(6, 2.25 * sq(std::max(0.01, (double)k.params.gps_vel_noise)), 0.99, 1.01, "vertical velocity");
				var(7, sq(std::max(0.01, (double)k.params.gps_pos_noise)), 0.99, 1.01, "position");
				var(8, sq(std::max(0.01, (double)k.params.gps_pos_noise)), 0.99, 1.01, "position");
				var(9, sq(std::max(0.01, (double)k.params.baro_noise)), 0.99, 1.01, "height");
				// all attitude covariances: equal variances of the components of the rotation vector, and the heading's about the vertical
				const double v = sq((double)k.params.initial_tilt_err), sg = x(0) < 0 ? -1 : 1;
				const double q[4] = {sg * x(0), sg * x(1), sg * x(2), sg * x(3)};
				const double n = std::sqrt(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
				const double ang = 2 * std::atan2(n, q[0]), s = n < 1e-6 ? 2 : ang / n;
				const double rv[3] = {s * q[1], s * q[2], s * q[3]};
				double J[4][3];

				for (int j = 0; j < 3; j++) {
					double d[2][4];

					for (int m = 0; m < 2; m++) {
						double a[3] = {rv[0], rv[1], rv[2]};
						a[j] += m ? 1e-6 : -1e-6;
						const double an = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
						d[m][0] = std::cos(an / 2);

						for (int i = 0; i < 3; i++) { d[m][1 + i] = (an < 1e-12 ? 0.5 : std::sin(an / 2) / an) * a[i]; }
					}

					for (int i = 0; i < 4; i++) { J[i][j] = (d[1][i] - d[0][i]) / 2e-6; }
				}

				const double yv = need_mag ? std::min(1e-2, sq(std::max(0.01, (double)k.params.mag_heading_noise))) : 0;
				const double z[4] = { -q[3] / 2, -q[2] / 2, q[1] / 2, q[0] / 2};

				for (int i = 0; i < 4; i++) {
					for (int j = 0; j < 4; j++) {
						double want = yv * z[i] * z[j];

						for (int m = 0; m < 3; m++) { want += v * J[i][m] * J[j][m]; }

						c.peak("initial attitude covariance error, relative", std::fabs(P(i, j) - want) / (v + yv));
						c.expect(std::fabs(P(i, j) - want) < 2e-3 * (v + yv), "initial attitude covariance", "t %.3f P(%d,%d) is %g, configured %g (tilt %g, heading %g)", t, i, j, (double)P(i, j), want, v, yv);
					}
				}
			}

			// small-rotation uncertainty about the earth axes: configured tilt error about the horizontal ones, heading noise about the vertical
			{
				double S[3] = {};
				const Q qi(x(0), x(1), x(2), x(3));
				double J[3][4];

				for (int j = 0; j < 4; j++) {
					Q d(j == 0, j == 1, j == 2, j == 3);
					const Q m = d * qi.conj();
					J[0][j] = 2 * m.x; J[1][j] = 2 * m.y; J[2][j] = 2 * m.z;
				}

				for (int a = 0; a < 3; a++) { for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { S[a] += J[a][i] * P(i, j) * J[a][j]; } } }

				const double w = sq((double)k.params.initial_tilt_err);
				c.peak("initial tilt variance/configured", (S[0] + S[1]) / 2 / w);
				c.peak("-initial tilt variance/configured", -(S[0] + S[1]) / 2 / w);
				c.expect((S[0] + S[1]) / 2 > 0.25 * w && (S[0] + S[1]) / 2 < 1.25 * w, "initial tilt uncertainty", "t %.2f tilt variance %g, configured %g", t, (S[0] + S[1]) / 2, w);
			}
			c.seen(vh::hash_bytes(x));
		}

		if (u) {
			const bool al = e->control_status().flags.tilt_align;
			const double thr = sq(3 * D2R);

			if (al && !aligned) {
				aligned = true;
				c.count("tilt alignments");
				c.peak("tilt variance before alignment/threshold", tv / thr);

				if (tv > 0) { c.expect(tv < thr * 1.1, "tilt aligned too early", "t %.2f tilt variance was %.3g, threshold %.3g", t, tv, thr); }

			} else if (!al && tv > 0) {
				c.expect(tv > thr * 0.9, "tilt not aligned", "t %.2f tilt variance was %.3g, threshold %.3g", t, tv, thr);
			}

			c.expect(al || !aligned, "tilt alignment lost", "t %.2f", t);
			tv = al ? 0 : tiltVariance(*e);
		}

		if (c.case_violations > 6) { return; }
	}

	// initialised within bounded time once everything is there
	const double slack = 1.5 + 20 * std::max(mag_per, baro_per);
	c.expect(init || what == NO_BARO, "never initialised", "disturbance %d until %.2f", (int)what, t_ok);

	if (init) { c.expect(t_init < t_ok + slack + 2, "initialised late", "at %.2f, possible from %.2f", t_init, t_ok); }
}

// E17 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E17)
{
	auto &r = c.rng;
	Config k = r.chance(0.25) ? stepConfig(r) : wildConfig(r, 70, 3);

	if (r.chance(0.3)) { profile(k, r, P_WINGLOSS); }

	else if (r.chance(0.2)) { profile(k, r, P_FLOWGPS); }

	else if (r.chance(0.2)) { profile(k, r, P_EVPOS + r.below(3)); }

	k.dur = 70;
	k.params.no_aid_timeout_max = (unsigned)r.logu(4e5, 3e6);
	k.params.valid_timeout_max = (int32_t)r.logu(1e6, 1e7);
	k.params.reset_timeout_max = (unsigned)r.logu(3e6, 1.2e7);

	if (k.start_us < 20000000) { k.start_us += 20000000; }

	for (CallType t : {GPS, EV, FLOW, ASPD, AUX}) {
		if (r.chance(0.6)) {
			const double t0 = r.uni(15, 60);
			k.faults.push_back({t, r.chance(0.7) ? DROPOUT : SPIKE, t0, t0 + r.logu(0.5, 20), t == FLOW ? 5. : 50.});
		}
	}

	Flight f = Generator(k, r.u64()).run();
	auto e = std::make_unique<Ekf>();
	struct Last { uint64_t lo{0}, hi{0}; } vp, of, as, be, aid;
	const int64_t no_aid = k.params.no_aid_timeout_max, valid_t = k.params.valid_timeout_max;
	bool started = false;
	bool was_valid = false, was_dr = true, had_origin = false;
	double last_eph = 0, last_epv = 0, oeph = 0, oepv = 0;
	size_t at = 0;

	observe(*e, f, [&](const Call & call, const Snap & p, const Snap & s, double t) {
		// the last GPS message before this call
		for (; at < f.calls.size() && &f.calls[at] <= &call; at++) { if (f.calls[at].type == GPS) { last_eph = f.gps[f.calls[at].idx].eph; last_epv = f.gps[f.calls[at].idx].epv; } }

		const uint64_t now = s.now_us;

		if (!started) { started = true; vp.hi = of.hi = vp.lo = of.lo = now; } // initialisation counts as an update (lo: may be used only when confirmed below)

		const bool reset = p.valid && (anyReset(p, s) || (p.cs ^ s.cs) & ~(1u << C_REST));

		if (p.valid) {
			for (Obs o : {O_GHV, O_EHV, O_AUX, O_GHP, O_EHP}) { if (attempted(p, s, o)) { vp.hi = now; if (s.ratio[o] <= 0.999f) { vp.lo = now; } } }

			if (attempted(p, s, O_FLOW)) { of.hi = now; if (s.ratio[O_FLOW] < 0.999f && !s.fault) { of.lo = now; } }

			if (attempted(p, s, O_TAS)) { as.hi = now; if (s.ratio[O_TAS] < 0.999f && !s.fault) { as.lo = now; } }

			if (attempted(p, s, O_BETA)) { be.hi = now; if (s.ratio[O_BETA] < 0.999f && !s.fault) { be.lo = now; } }

			if (reset) { vp.hi = of.hi = now; }

			if (s.c(C_WIND) && !p.c(C_WIND)) { as.hi = be.hi = now; }
		}

		auto recent = [&](uint64_t l) { return l != 0 && l + no_aid > now; };
		const bool vpb = s.c(C_GPS) || s.c(C_EVPOS) || s.c(C_EVVEL);
		const bool lo = (vpb && recent(vp.lo)) || (s.c(C_FLOW) && recent(of.lo)) || (s.c(C_WIND) && recent(as.lo) && recent(be.lo));
		const bool hi = (vpb && recent(vp.hi)) || (s.c(C_FLOW) && recent(of.hi)) || (s.c(C_WIND) && recent(as.hi) && recent(be.hi));

		if (lo) { aid.lo = now; }

		if (hi) { aid.hi = now; }

		const bool dr = e->inertial_dead_reckoning(), lv = e->local_position_is_valid(), gv = e->global_position_is_valid();
		c.eval(3);

		if (dr && lo) { c.fail("dead reckoning reported while aided", "t %.2f (%s)", t, bits(s.cs).c_str()); }

		if (!dr && !hi) { c.fail("dead reckoning not reported", "t %.2f last velocity/position %.2f, flow %.2f, airspeed %.2f sideslip %.2f s ago (%s)", t, (now - vp.hi) * 1e-6, (now - of.hi) * 1e-6, (now - as.hi) * 1e-6, (now - be.hi) * 1e-6, bits(s.cs).c_str()); }

		// aiding active: no synthetic position
		const bool aiding = s.c(C_GPS) || s.c(C_FLOW) || s.c(C_EVPOS) || s.c(C_EVVEL) || (s.c(C_ASPD) && s.c(C_BETA));
		auto within = [&](uint64_t l) { return l != 0 && (int64_t)(now - l) <= valid_t - no_aid; };
		// allowed dead-reckoning time counts from the end of the aiding window
		const bool vlo = aiding && within(aid.lo), vhi = aiding && within(aid.hi);

		if (lv && !vhi) { c.fail("local position reported valid", "t %.2f last aided %.2f s ago, allowed %.2f (%s)", t, (now - aid.hi) * 1e-6, (valid_t - no_aid) * 1e-6, bits(s.cs).c_str()); }

		if (!lv && vlo) { c.fail("local position reported invalid", "t %.2f last aided %.2f s ago, allowed %.2f (%s)", t, (now - aid.lo) * 1e-6, (valid_t - no_aid) * 1e-6, bits(s.cs).c_str()); }

		uint64_t ot; double la, lon; float alt;
		const bool origin = e->getEkfGlobalOrigin(ot, la, lon, alt);
		c.expect(gv == (lv && origin), "global validity", "t %.2f global %d local %d origin %d", t, gv, lv, origin);
		c.expect(e->attitude_valid() == (s.c(C_TILT) && std::isfinite(s.x[0])), "attitude validity", "t %.2f", t);

		// solution status from its conditions
		const bool ok = s.fault == 0;
		uint16_t w = 0;
		const bool vh = ok && aiding, hgt = ok && (s.c(C_BARO) || s.c(C_EVHGT) || s.c(C_GPSHGT) || s.c(C_RNG));
		const bool rel = ok && (s.c(C_GPS) || s.c(C_EVPOS) || s.c(C_FLOW)), ab = ok && (s.c(C_GPS) || s.c(C_EVPOS));
		const bool glitch = (s.ratio[O_GHV] > 1 || s.ratio[O_GVV] > 1 || s.ratio[O_GHP] > 1) && s.ratio[O_MAG] < 1 && s.ratio[O_YAW] < 1;
		w |= (ok && s.c(C_TILT) && s.c(C_YAW)) << 0 | vh << 1 | hgt << 2 | rel << 3 | ab << 4 | hgt << 5 | (int)e->isTerrainEstimateValid() << 6 | (int)!vh << 7 | rel << 8 | ab << 9 | glitch << 10 | (int)e->fault_status_flags().bad_acc_vertical << 11;
		c.expect(s.soln == w || (!ok && (s.soln & ~0x440) == (w & ~0x440)), "solution status", "t %.2f reported %04x expected %04x (%s fault %x)", t, s.soln, w, bits(s.cs).c_str(), s.fault);

		// reported accuracies
		float eph, epv, gph, gpv, evh, evv;
		e->get_ekf_lpos_accuracy(&eph, &epv);
		e->get_ekf_gpos_accuracy(&gph, &gpv);
		e->get_ekf_vel_accuracy(&evh, &evv);
		const double sp = std::sqrt(std::max(0., s.var[7] + s.var[8])), sz = std::sqrt(std::max(0., s.var[9])), sv = std::sqrt(std::max(0., s.var[4] + s.var[5])), svz = std::sqrt(std::max(0., s.var[6]));
		auto atleast = [&](float a, double m, bool equal, const char *n) { c.expect(a >= m * 0.99999 - 1e-6 && std::isfinite(a) && (!equal || a <= m * 1.00001 + 1e-6), "accuracy", "t %.2f %s reported %g, standard deviation %g", t, n, (double)a, m); };
		const bool plain = vlo && lo && !dr;
		atleast(eph, sp, plain, "local horizontal position");
		atleast(epv, sz, true, "local height");
		atleast(gph, sp, false, "global horizontal position");
		atleast(gpv, sz, false, "global height");
		atleast(evh, sv, plain, "horizontal velocity");
		atleast(evv, svz, true, "vertical velocity");
		c.expect(gph >= eph * 0.99999 || !plain, "accuracy", "t %.2f global accuracy %g better than local %g", t, (double)gph, (double)eph);

		// accuracy of the origin
		if (origin && !had_origin) { oeph = last_eph; oepv = last_epv; had_origin = true; }

		if (had_origin) {
			const double h0 = std::sqrt(sp * sp + oeph * oeph);
			c.expect(std::fabs(gpv - std::sqrt(sz * sz + oepv * oepv)) < 1e-4 * (1 + gpv), "global accuracy", "t %.2f height %g, local %g, origin %g", t, (double)gpv, sz, oepv);
			double alt = 0;

			if (dr && s.c(C_GPS)) { alt = std::hypot(s.in[O_GHP][0], s.in[O_GHP][1]); }

			else if (dr && s.c(C_EVPOS)) { alt = std::hypot(s.in[O_EHP][0], s.in[O_EHP][1]); }

			c.expect(std::fabs(gph - std::max(h0, alt)) < 1e-4 * (1 + gph), "global accuracy", "t %.2f horizontal %g, of the state and origin %g, of the innovation %g", t, (double)gph, h0, alt);
			c.count("global accuracy compared");

			if (alt > h0) { c.count("global accuracy from the innovations"); }
		}

		// unaided for too long (synthetic positions aside): the innovations tell more than the variances
		if (!lv && aiding && !vhi) {
			const double ghp = s.c(C_GPS) ? std::hypot(s.in[O_GHP][0], s.in[O_GHP][1]) : 0, ehp = s.c(C_EVPOS) ? std::hypot(s.in[O_EHP][0], s.in[O_EHP][1]) : 0, ehv = s.c(C_EVVEL) ? std::hypot(s.in[O_EHV][0], s.in[O_EHV][1]) : 0, fl = s.c(C_FLOW) ? std::hypot(s.in[O_FLOW][0], s.in[O_FLOW][1]) : 0;
			c.expect(std::fabs(eph - std::max(sp, ghp)) < 1e-4 * (1 + eph), "accuracy without aiding", "t %.2f position %g, of the state %g, of the innovation %g", t, (double)eph, sp, ghp);
			c.expect(evh >= ehv * 0.9999 - 1e-5, "accuracy without aiding", "t %.2f velocity %g, vision innovation %g", t, (double)evh, ehv);
			c.expect(evh <= std::max({sv, ghp, ehp, ehv}) * 1.0001 + 1e-4 + (fl > 0 ? 1e9 : 0), "accuracy without aiding", "t %.2f velocity %g, of the state %g", t, (double)evh, sv);
			c.count("accuracy without aiding compared");

			if (ehv > sv) { c.count("velocity accuracy from the innovations"); }
		}

		// a source that was given up leaves no innovations behind
		if (p.valid && p.c(C_GPS) && !s.c(C_GPS)) { c.count("gps given up"); c.expect(s.ratio[O_GHV] == 0 && s.ratio[O_GVV] == 0 && s.in[O_GHV][0] == 0 && s.in[O_GHV][1] == 0 && s.in[O_GVV][0] == 0, "innovations of a source not in use", "t %.2f gps velocity %g %g ratio %g", t, s.in[O_GHV][0], s.in[O_GHV][1], s.ratio[O_GHV]); }

		if (p.valid && p.c(C_GPS) && !s.c(C_GPS) && aiding) { c.expect(s.ratio[O_GHP] == 0 && s.in[O_GHP][0] == 0, "innovations of a source not in use", "t %.2f gps position %g ratio %g", t, s.in[O_GHP][0], s.ratio[O_GHP]); }

		if (p.valid && p.c(C_EVPOS) && !s.c(C_EVPOS)) { c.count("vision position given up"); c.expect(s.ratio[O_EHP] == 0 && s.in[O_EHP][0] == 0 && s.in[O_EHP][1] == 0, "innovations of a source not in use", "t %.2f vision position %g %g ratio %g", t, s.in[O_EHP][0], s.in[O_EHP][1], s.ratio[O_EHP]); }

		if (p.valid && p.c(C_EVVEL) && !s.c(C_EVVEL)) { c.count("vision velocity given up"); c.expect(s.ratio[O_EHV] == 0 && s.in[O_EHV][0] == 0 && s.in[O_EHV][1] == 0, "innovations of a source not in use", "t %.2f vision velocity %g %g ratio %g", t, s.in[O_EHV][0], s.in[O_EHV][1], s.ratio[O_EHV]); }

		if (p.valid && p.c(C_FLOW) && !s.c(C_FLOW)) { c.count("flow given up"); c.expect(s.ratio[O_FLOW] == 0 && s.in[O_FLOW][0] == 0 && s.in[O_FLOW][1] == 0, "innovations of a source not in use", "t %.2f flow %g %g ratio %g", t, s.in[O_FLOW][0], s.in[O_FLOW][1], s.ratio[O_FLOW]); }

		// summary of the innovation tests
		uint16_t st;
		float rm, rv, rp, rh, rt, rg, rb;
		e->get_innovation_test_status(st, rm, rv, rp, rh, rt, rg, rb);
		auto summary = [&](float a, double want, const char *n) { c.expect(std::fabs(a - std::sqrt(want)) <= 1e-5 * (1 + a) || (std::isnan(want) && std::isnan(a)), "innovation test summary", "t %.2f %s reported %g, largest %g (%s)", t, n, (double)a, std::sqrt(want), bits(s.cs).c_str()); };
		summary(rm, std::max(s.ratio[O_MAG], s.ratio[O_YAW]), "magnetometer");
		summary(rv, std::max({s.ratio[O_GHV], s.ratio[O_GVV], s.ratio[O_EHV], s.ratio[O_EVV]}), "velocity");
		summary(rp, std::max(s.ratio[O_GHP], s.ratio[O_EHP]), "position");
		summary(rh, s.c(C_BARO) ? s.ratio[O_BARO] : s.c(C_GPSHGT) ? s.ratio[O_GVP] : s.c(C_RNG) ? s.ratio[O_RNG] : s.c(C_EVHGT) ? s.ratio[O_EVP] : NAN, "height");
		summary(rt, s.ratio[O_TAS], "airspeed");
		summary(rg, s.ratio[O_HAGL], "terrain");
		summary(rb, s.ratio[O_BETA], "sideslip");
		c.expect(st == s.fail, "innovation test summary", "t %.2f status %x, flags %x", t, st, s.fail);

		if (lv && !was_valid) { c.count("position became valid"); }

		if (!lv && was_valid) { c.count("position became invalid"); }

		if (dr && !was_dr) { c.count("dead reckoning began"); }

		if (s.c(C_WIND) && s.c(C_ASPD) && !vpb && !s.c(C_FLOW) && !dr) { c.count("wind dead reckoning"); }

		if (glitch) { c.count("gps glitch situations"); }

		if (lv && dr) { c.count("valid while dead reckoning"); }

		was_valid = lv;
		was_dr = dr;
		c.seen(vh::mix(s.cs, s.soln * 8 + dr * 4 + lv * 2 + gv));
		return c.case_violations < 6;
	});
}
