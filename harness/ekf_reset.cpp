// E28: a reset adopts the measurement it resets to, with that measurement's uncertainty
#include "shadow.hpp"
#include "modes.hpp"
using namespace sim;

// distance to the segment from p along d (fusion of the same sample, corrected for the lever arm, moves the state along it)
static double offSegment(const double *x, const double *p, const double *d, int n)
{
	double dd = 0, xd = 0, r = 0;

	for (int i = 0; i < n; i++) { dd += d[i] * d[i]; xd += (x[i] - p[i]) * d[i]; }

	const double w = dd > 0 ? std::min(1.0, std::max(0.0, xd / dd)) : 0;

	for (int i = 0; i < n; i++) { r += ref::sq(x[i] - p[i] - w * d[i]); }

	return std::sqrt(r);
}
static double wrapTo(double a) { return std::remainder(a, 2 * M_PI); }

static double yawVar(const Ekf &e)
{
	auto s = e.getStateAtFusionHorizonAsVector();
	const auto &P = e.covariances();
	const double q[4] = {s(0), s(1), s(2), s(3)};
	const Q q0(q[0], q[1], q[2], q[3]);
	const bool zyx = std::fabs(q0.R()(2, 0)) < std::fabs(q0.R()(2, 1));
	double J[4], v = 0;

	for (int i = 0; i < 4; i++) {
		double a[4], b[4];

		for (int j = 0; j < 4; j++) { a[j] = b[j] = q[j]; }

		a[i] += 1e-6;
		b[i] -= 1e-6;
		auto yaw = [&](double *u) { const Q z(u[0], u[1], u[2], u[3]); return zyx ? z.yaw321() : z.yaw312(); };
		J[i] = wrapTo(yaw(a) - yaw(b)) / 2e-6;
	}

	for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { v += J[i] * J[j] * P(i, j); } }

	return v;
}

VH_CHECK(E28)
{
	auto &r = c.rng;
	Config k = anyConfig(r);
	const bool bad_compass = r.chance(0.25);

	if (bad_compass) { k = stepConfig(r); profile(k, r, P_WING); k.params.mag_fusion_type = r.chance(0.8) ? MAG_FUSE_TYPE_AUTO : MAG_FUSE_TYPE_HEADING; }

	k.dur = 70;
	k.params.reset_timeout_max = (unsigned)r.logu(1e6, 6e6);

	if (r.chance(0.5)) { spread(k, r); }

	holes(k, r, {GPS, EV, BARO, FLOW, RNG, MAG}, 0.25);

	// the position reported jumps and stays
	if (r.chance(0.4)) { const CallType t[] = {GPS, EV, BARO, RNG}; const double t0 = k.t_takeoff + r.uni(-5, 20); k.faults.push_back({t[r.below(4)], BIAS_STEP, t0, t0 + r.uni(4, 25), r.logu(3, 60) * (r.chance(0.5) ? 1 : -1)}); }

	if (r.chance(0.3)) { k.t_land = k.t_takeoff + r.uni(15, 40); }

	if (r.chance(0.2)) { k.params.mag_fusion_type = r.below(6); }

	if (r.chance(0.3)) { k.params.EKFGSF_reset_delay = (unsigned)r.logu(3e5, 3e6); }

	Flight f = Generator(k, r.u64()).run();

	if (bad_compass || r.chance(0.2)) {
		// interference until some time after take-off
		const V3 b(r.uni(-0.5, 0.5), r.uni(-0.5, 0.5), r.uni(-0.2, 0.2));
		const double off = k.t_takeoff + r.uni(-10, 60), on = r.chance(0.6) ? 0 : k.t_takeoff + r.uni(-5, 20);

		for (magSample &m : f.mag) { const double t = (m.time_us - f.cfg.start_us) * 1e-6; if (t > on && t < off) { m.mag += Vector3f(b.x, b.y, b.z); } }
	}

	const auto &p = k.params;
	auto e = std::make_unique<Ekf>();
	configure(*e, f.cfg);
	shadow::Shadow s(*e, p);
	Snap a;
	shadow::GpsObs gps, gps_new;
	magSample mag {};
	baroSample baro {}, baro_new {};
	rangeSample rng {};
	flowSample flow {};
	extVisionSample ev {}, ev_new {};
	uint64_t t_gps = 0, t_gps_new = 0, t_ev = 0, t_ev_new = 0, t_baro = 0, t_mag = 0, t_flow = 0, dummy;
	bool have_gps = false, have_ev = false;
	V3 lpf;
	int n_lpf = 0, bad_yaw = 0;
	double off[4] = {}; // height offsets inferred from the last height innovations
	bool off_ok[4] = {}, have_origin = false;
	double decl = NAN, last_known[2] = {NAN, NAN}, held[2] = {NAN, NAN};
	float terrain0 = 0;
	Matrix3f ev_rot; ev_rot.setIdentity();

	const V3 gps_arm = d3(p.gps_pos_body) - d3(p.imu_pos_body), ev_arm = d3(p.ev_pos_body) - d3(p.imu_pos_body);

	for (const Call &call : f.calls) {
		apply(*e, f, call);
		s.onCall(f, call);

		if (call.type == GPS && !s.gps.q.empty() && s.gps.q.back().first != t_gps_new) {
			gps_new = s.gps.q.back().second; t_gps_new = s.gps.q.back().first;

			if (!have_origin) { decl = sim::wmm_declination_rad(f.gps[call.idx].lat * 1e-7, f.gps[call.idx].lon * 1e-7); }

			have_origin = e->global_origin_valid();
		}

		if (call.type == BARO) { baro_new = s.baro.q.back().second; }

		if (call.type == EV) { ev_new = s.ev.q.back().second; t_ev_new = s.ev.q.back().first; }

		if (call.type != IMU) { continue; }

		e->clear_information_events();
		e->clear_warning_events();
		const bool mag_air0 = a.c(C_MAGAIR);

		if (!e->update()) { continue; }

		const Snap b = snap(*e, f.imu[call.idx].time_us);
		const double t = (b.now_us - f.cfg.start_us) * 1e-6;
		const uint64_t h = b.imu_us;
		bool new_gps = false, new_ev = false, new_flow = false;

		if (s.gps.pop(h, gps, dummy)) { t_gps = dummy; have_gps = new_gps = true; }

		if (s.ev.pop(h, ev, dummy)) { t_ev = dummy; have_ev = new_ev = true; }

		if (s.baro.pop(h, baro, dummy)) { t_baro = dummy; }

		s.rng.pop(h, rng, dummy);

		if (s.flow.pop(h, flow, dummy)) { t_flow = dummy; new_flow = true; }

		const V3 lpf0 = lpf;
		const uint64_t t_mag0 = t_mag;

		if (s.mag.pop(h, mag, dummy)) { t_mag = dummy; const V3 m = d3(mag.mag); lpf = n_lpf && dummy < t_mag0 + 1000000 ? lpf * 0.9 + m * 0.1 : m; n_lpf++; }

		if (!a.valid) { a = b; terrain0 = e->getTerrainVertPos(); continue; }

		c.eval();
		const auto &P = e->covariances();
		const imuSample &im = e->get_imu_sample_delayed();
		const double dt = im.delta_vel_dt;
		const Q q(b.x[0], b.x[1], b.x[2], b.x[3]), q0(a.x[0], a.x[1], a.x[2], a.x[3]);
		const V3 w = d3(im.delta_ang) * (1.0 / im.delta_ang_dt);
		const int kz = (uint8_t)(b.nr[0] - a.nr[0]), kvz = (uint8_t)(b.nr[1] - a.nr[1]), kp = (uint8_t)(b.nr[2] - a.nr[2]), kv = (uint8_t)(b.nr[3] - a.nr[3]), kq = (uint8_t)(b.nr[4] - a.nr[4]);
		information_event_status_u info;
		info.value = b.info;
		warning_event_status_u warn;
		warn.value = b.warn;
		const bool air_fused = attempted(a, b, O_TAS) || attempted(a, b, O_BETA) || attempted(a, b, O_DRAG);
		const bool rest = air_fused || attempted(a, b, O_FLOW) || attempted(a, b, O_AUX);
		const bool ev_fused = attempted(a, b, O_EHP) || attempted(a, b, O_EHV) || attempted(a, b, O_EVV) || attempted(a, b, O_EVP), gps_fused = attempted(a, b, O_GHV) || attempted(a, b, O_GHP) || attempted(a, b, O_GVV) || attempted(a, b, O_GVP);
		auto variance = [&](const char *key, int i, double var, double low) {
			const double v = P(i, i);
			c.count("variances compared");
			c.peak("variance", v / (var * 1.02 + 1e-5));

			if (v > var * 1.02 + 1e-5 || v < low * var - 1e-6) { c.fail(key, "t %.3f variance of state %d is %g, of the measurement %g; %s", t, i, v, var, bits(b.cs).c_str()); }
		};
		auto alone = [&](const char *key, int first, int n) {
			for (int i = first; i < first + n; i++) {
				for (int j = 0; j < 24; j++) {
					if (j >= first && j < first + n) { continue; }

					if (std::fabs(P(i, j)) > 1e-4 * std::sqrt(std::fabs((double)P(i, i) * P(j, j))) + 1e-9) { c.fail(key, "t %.3f covariance of states %d and %d after the reset: %g (variances %g %g); %s", t, i, j, P(i, j), P(i, i), P(j, j), bits(b.cs).c_str()); return; }
				}
			}
		};

		// ---- horizontal position
		const int pos_kinds = info.flags.reset_pos_to_gps + info.flags.reset_pos_to_vision + info.flags.reset_pos_to_last_known;

		if (kp > 0 && pos_kinds != 1) { c.count("several position resets"); }

		if (pos_kinds == 1) {
			const double x[2] = {b.x[7], b.x[8]};
			const double tol = 0.05 + 2e-6 * std::hypot(x[0], x[1]), turned = kq || b.c(C_YAW) != a.c(C_YAW) ? 2 : 0; // the lever arm before or after a change of yaw
			alone("correlated position after reset", 7, 2);

			if (kp == 0) { c.fail("unannounced reset", "t %.3f position", t); }

			if (info.flags.reset_pos_to_gps && have_gps && !(rest || ev_fused)) {
				const V3 o = q.rot(gps_arm);
				const double m[2] = {gps.n, gps.e}, d[2] = {-o.x, -o.y};
				const double err = offSegment(x, m, d, 2), tg = tol + (turned + (new_gps ? 0.1 : 1)) * gps_arm.norm();
				c.count("position reset to gps");
				c.peak("position reset to gps", err / tg);

				if (err > tg) { c.fail("position after reset to gps", "t %.3f position %.3f %.3f, measured %.3f %.3f, offset %.3f %.3f", t, x[0], x[1], m[0], m[1], d[0], d[1]); }

				for (int i = 7; i < 9; i++) { variance("position variance after reset to gps", i, ref::sq(gps.hacc), 0.2); }
			}

			if (info.flags.reset_pos_to_vision && have_ev && !(rest || (gps_fused && a.c(C_GPS)))) {
				const V3 o = q.rot(ev_arm);
				V3 m0 = d3(ev.pos);
				V3 d0 = o * -1.0;
				const Quatf rq = e->getVisionAlignmentQuaternion();
				const Q R(rq(0), rq(1), rq(2), rq(3));
				double extra = turned * o.norm();

				if (p.fusion_mode & MASK_ROTATE_EV) { m0 = R.rot(m0); extra += 2 * o.norm() + (new_ev ? 0.02 : 0.1) * m0.norm(); }

				const double m[2] = {m0.x, m0.y}, d[2] = {d0.x, d0.y};
				const double err = offSegment(x, m, d, 2);
				c.count("position reset to vision");
				c.peak("position reset to vision", err / (tol + extra));

				if (err > tol + extra) { c.fail("position after reset to vision", "t %.3f position %.3f %.3f, measured %.3f %.3f, offset %.3f %.3f", t, x[0], x[1], m[0], m[1], d[0], d[1]); }

				double lo = 1e9, hi = 0;

				for (int i = 0; i < 3; i++) { lo = std::min(lo, (double)ev.posVar(i)); hi = std::max(hi, (double)ev.posVar(i)); }

				if (!(p.fusion_mode & MASK_ROTATE_EV)) { for (int i = 7; i < 9; i++) { variance("position variance after reset to vision", i, ev.posVar(i - 7), 0.2); } }

				else { for (int i = 7; i < 9; i++) { variance("position variance after reset to vision", i, hi, 0.2 * lo / hi); } }
			}

			if (info.flags.reset_pos_to_last_known && !air_fused && !attempted(a, b, O_MAG)) {
				c.count("position reset to last known");
				const bool flow_only = b.c(C_FLOW);
				const double dz = std::fabs(b.x[9] - a.x[9] - a.x[6] * dt), with_height = dz * std::sqrt((a.var[7] + a.var[8]) / std::max(1e-6, a.var[9])); // height measurements used just before
				const double moved = std::hypot(x[0] - a.x[7] - a.x[4] * dt, x[1] - a.x[8] - a.x[5] * dt), at0 = std::hypot(x[0], x[1]);
				double err;

				if (!flow_only) { err = std::isnan(held[0]) ? moved : std::min(moved, 0.3 * std::hypot(x[0] - held[0], x[1] - held[1])); }

				else if (!b.c(C_AIR)) { err = at0; }

				else { err = std::isnan(last_known[0]) ? 0 : std::min(moved, std::hypot(x[0] - last_known[0], x[1] - last_known[1]));

					if (!a.c(C_FLOW) && !std::isnan(held[0])) { err = std::min(err, 0.3 * std::hypot(x[0] - held[0], x[1] - held[1])); }
				}

				c.peak("position reset to last known", err / (tol + 0.05 + with_height));

				if (err > tol + 0.05 + with_height) { c.fail("position after reset to the last known one", "t %.3f position %.3f %.3f, last known %.3f %.3f (held %.3f); %s", t, x[0], x[1], flow_only ? last_known[0] : a.x[7], flow_only ? last_known[1] : a.x[8], held[0], bits(b.cs).c_str()); }

				for (int i = 7; i < 9; i++) { variance("position variance after reset to the last known one", i, flow_only ? 0 : ref::sq(p.pos_noaid_noise), 0); }

				if (!flow_only && P(7, 7) < 0.9 / (1 / ref::sq(p.pos_noaid_noise) + 1 / ref::sq(std::min(0.1f, p.pos_noaid_noise)))) { c.fail("position variance after reset to the last known one", "t %.3f %g", t, P(7, 7)); }
			}
		}

		// position held without aiding
		if (attempted(a, b, O_GHP) && !a.c(C_GPS) && !b.c(C_GPS) && kp == 0) { held[0] = a.x[7] + a.x[4] * dt - b.in[O_GHP][0]; held[1] = a.x[8] + a.x[5] * dt - b.in[O_GHP][1]; }

		else if (a.c(C_GPS) || a.c(C_EVPOS) || a.c(C_EVVEL) || a.c(C_FLOW)) { held[0] = NAN; }

		// position at the last use of flow or of a measured position
		if (attempted(a, b, O_FLOW) || (attempted(a, b, O_GHP) && a.c(C_GPS) && b.c(C_GPS) && b.ratio[O_GHP] <= 1) || (attempted(a, b, O_EHP) && b.c(C_EVPOS) && b.ratio[O_EHP] <= 1) || std::isnan(last_known[0]) || !b.c(C_FLOW) || info.flags.reset_pos_to_last_known) { last_known[0] = b.x[7]; last_known[1] = b.x[8]; }

		// ---- velocity
		const int vel_kinds = info.flags.reset_vel_to_gps + info.flags.reset_vel_to_flow + info.flags.reset_vel_to_vision + info.flags.reset_vel_to_zero;

		if (vel_kinds == 1) {
			const double x[3] = {b.x[4], b.x[5], b.x[6]};

			if (kv == 0) { c.fail("unannounced reset", "t %.3f velocity", t); }

			if (info.flags.reset_vel_to_gps && have_gps && !(rest || ev_fused)) {
				const V3 o = q.rot(w.cross(gps_arm));
				const double m[3] = {gps.vel.x, gps.vel.y, gps.vel.z}, d[3] = {-o.x, -o.y, -o.z};
				const int n = kz ? 2 : 3; // a height reset changes the vertical velocity as well
				const double err = offSegment(x, m, d, n), tol = 0.1 + 0.3 * o.norm() + 0.02 * gps.vel.norm() + (new_gps ? 0 : 0.6 * gps_arm.norm());
				c.count("velocity reset to gps");
				c.peak("velocity reset to gps", err / tol);

				if (err > tol) { c.fail("velocity after reset to gps", "t %.3f velocity %.3f %.3f %.3f, measured %.3f %.3f %.3f", t, x[0], x[1], x[2], m[0], m[1], m[2]); }

				for (int i = 4; i < 4 + n; i++) { variance("velocity variance after reset to gps", i, ref::sq(gps.sacc), air_fused || attempted(a, b, O_FLOW) ? 0.02 : 0.2); }

				if (!air_fused && !attempted(a, b, O_FLOW) && n == 3) { alone("correlated velocity after reset", 4, 3); }
			}

			if (info.flags.reset_vel_to_vision && have_ev && !(rest || (gps_fused && a.c(C_GPS)))) {
				const bool body = ev.vel_frame == velocity_frame_t::BODY_FRAME_FRD;
				const Quatf rq = e->getVisionAlignmentQuaternion();
				const Q R(rq(0), rq(1), rq(2), rq(3));
				const V3 o = q.rot(w.cross(ev_arm)), v = d3(ev.vel);
				const V3 m0 = body ? q.rot(v) : (p.fusion_mode & MASK_ROTATE_EV) ? R.rot(v) : v;
				const double m[3] = {m0.x - o.x, m0.y - o.y, m0.z - o.z};
				const double z[3] = {0, 0, 0};
				const int n = kz ? 2 : 3;
				const double err = offSegment(x, m, z, n), tol = 0.1 + 0.05 * m0.norm() + 0.3 * o.norm();
				c.count("velocity reset to vision");
				c.peak("velocity reset to vision", err / tol);

				if (err > tol) { c.fail("velocity after reset to vision", "t %.3f velocity %.3f %.3f %.3f, measured %.3f %.3f %.3f", t, x[0], x[1], x[2], m[0], m[1], m[2]); }

				for (int i = 4; i < 4 + n; i++) {
					// variance of the rotated measurement
					const M3 A = body ? q.R() : (p.fusion_mode & MASK_ROTATE_EV) ? R.R() : Q().R();
					double var = 0;

					for (int j = 0; j < 3; j++) { for (int l = 0; l < 3; l++) { var += A(i - 4, j) * A(i - 4, l) * ev.velCov(j, l); } }

					variance("velocity variance after reset to vision", i, var * 1.1 + 1e-4, 0.15);
				}

				if (!air_fused && !attempted(a, b, O_FLOW) && n == 3) { alone("correlated velocity after reset", 4, 3); }
			}

			if (info.flags.reset_vel_to_zero) {
				const double err = std::hypot(x[0], x[1]);
				const bool fused = air_fused || attempted(a, b, O_AUX) || attempted(a, b, O_EHV);
				c.count("velocity reset to zero");

				if (!fused) {
					c.peak("velocity reset to zero", err / 0.05);

					if (err > 0.05) { c.fail("velocity after reset to zero", "t %.3f velocity %.3f %.3f", t, x[0], x[1]); }

					for (int i = 4; i < 6; i++) { variance("velocity variance after reset to zero", i, 25, 0.98); }

					alone("correlated velocity after reset", 4, 2);
				}
			}

			if (info.flags.reset_vel_to_flow && new_flow) {
				const double hgt = std::max((double)terrain0 - b.x[9], (double)p.rng_gnd_clearance);
				const M3 R = q.R();
				const double tilt = R(2, 0) * -sin(p.rng_sens_pitch) + R(2, 2) * cos(p.rng_sens_pitch), range = hgt / tilt;
				const auto &fl = e->getFlowCompensated();
				V3 m0(-range * fl(1) / flow.dt, range * fl(0) / flow.dt, 0);
				m0 = q.rot(m0);

				if (range - p.rng_gnd_clearance < 0.35) { c.count("velocity reset to flow near the ground"); }

				else if (kz == 0 && kp <= 1 && tilt > 0.8) {
					const double err = std::hypot(x[0] - m0.x, x[1] - m0.y), tol = 0.15 + 0.1 * m0.norm() + 0.5 * range * p.flow_noise;
					c.count("velocity reset to flow");
					c.peak("velocity reset to flow", err / tol);

					if (err > tol) { c.fail("velocity after reset to flow", "t %.3f velocity %.3f %.3f, measured %.3f %.3f at range %.3f", t, x[0], x[1], m0.x, m0.y, range); }

					const double sd = std::max(p.flow_noise, p.flow_noise_qual_min);

					for (int i = 4; i < 6; i++) { variance("velocity variance after reset to flow", i, ref::sq(1.1 * range * sd), 0.015 * ref::sq(p.flow_noise / sd)); }
				}
			}
		}

		// ---- height
		const double zp = a.x[9] + a.x[6] * dt;
		const bool src[4] = {b.c(C_BARO) && a.c(C_BARO), b.c(C_GPSHGT) && a.c(C_GPSHGT), b.c(C_RNG) && a.c(C_RNG), b.c(C_EVHGT) && a.c(C_EVHGT)};

		for (int i = 0; i < 4; i++) { if (!src[i]) { off_ok[i] = false; } }

		if (kz == 1 && kvz >= 1) {
			const double z = b.x[9];
			double want = NAN, tol = 1.0 + 1e-6 * std::fabs(z) + 0.03 * std::fabs(z - zp), var = 0, low = 0.1;
			const char *name = "";

			if (b.c(C_BARO) && off_ok[0]) { want = off[0] - baro_new.hgt; var = ref::sq(p.baro_noise); name = "baro"; tol += 1 + std::fabs(baro_new.hgt - baro.hgt); }

			if (b.c(C_GPSHGT) && off_ok[1]) { want = off[1] - gps_new.hgt; var = ref::sq(gps_new.vacc); name = "gps"; tol += gps_arm.norm() + std::fabs(gps_new.hgt - gps.hgt); low = 0.05; }

			if (b.c(C_EVHGT)) { want = std::max(t_ev_new, t_ev) == t_ev_new ? ev_new.pos(2) : ev.pos(2); name = "vision"; tol += 2 * ev_arm.norm() + std::fabs(ev_new.pos(2) - ev.pos(2)); }

			if (std::isfinite(want)) {
				c.count((std::string("height reset to ") + name).c_str());
				c.peak("height reset", std::fabs(z - want) / tol);

				if (std::fabs(z - want) > tol) { c.fail("height after reset", "t %.3f vertical position %.3f, measured by %s %.3f (tolerance %.3f)", t, z, name, want, tol); }

				if (var > 0) { variance("height variance after reset", 9, var, low); }
			}

			if (b.c(C_RNG)) { c.count("height reset to range"); variance("height variance after reset", 9, ref::sq(p.range_noise), 0.1); }

			// vertical velocity
			const double age = (int64_t)(a.now_us - t_gps_new) * 1e-6; // a sample already used counts as none

			if (a.c(C_GPS) && b.c(C_GPS) && kvz == 1 && t_gps_new > h && age < 0.9) {
				const double tv = 0.15 + std::fabs(gps_new.vel.z - gps.vel.z) + w.cross(gps_arm).norm() + (attempted(a, b, O_EVV) ? 0.5 : 0);
				c.count("vertical velocity reset to gps");
				c.peak("vertical velocity reset", std::fabs(b.x[6] - gps_new.vel.z) / tv);

				if (std::fabs(b.x[6] - gps_new.vel.z) > tv) { c.fail("vertical velocity after reset", "t %.3f %.3f m/s, measured by gps %.3f", t, b.x[6], gps_new.vel.z); }

				variance("vertical velocity variance after reset", 6, ref::sq(1.5 * gps_new.sacc), 0.1);
			}

			if (kvz == 1 && !a.c(C_GPS) && !b.c(C_GPS) && !attempted(a, b, O_EVV) && !air_fused && !attempted(a, b, O_FLOW)) {
				c.count("vertical velocity reset to zero");

				if (std::fabs(b.x[6]) > 0.05) { c.fail("vertical velocity after reset", "t %.3f %.3f m/s without measurement", t, b.x[6]); }

				variance("vertical velocity variance after reset", 6, 10, 0.98);
				alone("correlated vertical velocity after reset", 6, 1);
			}

		} else if (kz == 0 && kq == 0) {
			if (src[0] && attempted(a, b, O_BARO)) { off[0] = zp + baro.hgt - b.in[O_BARO][0]; off_ok[0] = true; }

			if (src[1] && attempted(a, b, O_GVP) && new_gps) { off[1] = zp + gps.hgt - b.in[O_GVP][0]; off_ok[1] = true; }
		}

		// ---- yaw
		if (kq == 1 && !rest && !ev_fused && !gps_fused && !attempted(a, b, O_MAG) && kv == 0 && kp == 0 && !b.c(C_MAG3D)) {
			c.count("attitude uncorrelated after yaw reset");
			alone("correlated attitude after yaw reset", 0, 4);
		}

		if (kq == 1) {
			const M3 R0 = q0.R(), R1 = q.R();
			const bool zyx = std::fabs(R1(2, 0)) < std::fabs(R1(2, 1));
			const double yaw = zyx ? q.yaw321() : q.yaw312(), tilt = acos(std::min(1.0, R1(2, 2))), turn = 2 * w.norm() * dt;
			double want = NAN, var = -1, tol = 0.03 + turn;
			const char *name = "";

			if (b.c(C_EVYAW) && !a.c(C_EVYAW) && new_ev && info.flags.starting_vision_yaw_fusion) {
				want = Q(ev.quat(0), ev.quat(1), ev.quat(2), ev.quat(3)).yaw321();
				var = std::max((double)ev.angVar, 1e-4);
				name = "vision";
				tol += tilt * tilt * 0.3;

			} else if (warn.flags.bad_yaw_using_gps_course && have_gps) {
				const double sp = std::hypot(gps.vel.x, gps.vel.y), cog = atan2(gps.vel.y, gps.vel.x), est = atan2(a.x[5], a.x[4]), es = std::hypot(a.x[4], a.x[5]);
				name = "gps course";
				c.count("yaw reset to gps course");
				tol += 0.05;

				if (sp < 4.7 || gps.sacc > 0.16 * sp) { c.fail("yaw reset to an unreliable course", "t %.3f speed %.2f, accuracy %.2f", t, sp, gps.sacc); }

				if (a.c(C_YAW) && es > 1 && std::fabs(wrapTo(cog - est)) < 0.5 - 0.3 / std::max(1.0, es) - 0.03) { c.fail("yaw reset to the course although it agreed", "t %.3f course %.2f, estimate %.2f", t, cog, est); }

				if (!mag_air0) {
					// the change of velocity since take-off was forward
					if (es > 2) { want = (zyx ? q0.yaw321() : q0.yaw312()) + cog - est; tol += 0.6 / es; }

				} else if (a.c(C_WIND)) {
					want = atan2(gps.vel.y - a.x[23], gps.vel.x - a.x[22]);
					tol += 2.0 / std::max(2.0, std::hypot(gps.vel.y - a.x[23], gps.vel.x - a.x[22])) * (air_fused ? 1 : 0.1);

				} else { want = cog; }

				const double sine = std::min(1.0, std::sqrt(ref::sq(gps.sacc) + a.var[4] + a.var[5]) / sp);
				var = ref::sq(asin(sine));

				if (a.c(C_YAW)) {
					bad_yaw++;

					if (mag_air0 && bad_yaw >= 2 && !b.c(C_MAGFAULT)) { c.fail("compass kept in use after repeated bad yaw", "t %.3f %d events", t, bad_yaw); }

					if (bad_yaw < 2 && b.c(C_MAGFAULT) && !a.c(C_MAGFAULT)) { c.fail("compass given up after one bad yaw", "t %.3f", t); }

					if (!kp || !kv) { c.fail("velocity and position kept after bad yaw", "t %.3f", t); }
				}

			} else if (warn.flags.emergency_yaw_reset_mag_stopped || info.flags.yaw_aligned_to_imu_gps) {
				float yc = 0, yv = 0, y[N_MODELS_EKFGSF], in[N_MODELS_EKFGSF], ie[N_MODELS_EKFGSF], wt[N_MODELS_EKFGSF];
				const bool ok = e->getDataEKFGSF(&yc, &yv, y, in, ie, wt);

				if (ok) { want = yc; var = yv; tol += 0.1 + (new_gps ? 3 * std::sqrt(yv) : 0); name = "emergency estimate"; }

				if (ok && yv > ref::sq(p.EKFGSF_yaw_err_max) * 1.5) { c.fail("yaw reset to an emergency estimate that has not converged", "t %.3f variance %g", t, yv); }

				if (warn.flags.emergency_yaw_reset_mag_stopped && !b.c(C_MAGFAULT)) { c.fail("compass kept in use after the emergency reset", "t %.3f", t); }

				if (!kp || !kv) { c.fail("velocity and position kept after the emergency reset", "t %.3f", t); }

			} else if (n_lpf > 60 && p.mag_fusion_type <= MAG_FUSE_TYPE_3D && !b.c(C_EVYAW) && !a.c(C_EVYAW) && !b.c(C_GPSYAW) && !a.c(C_GPSYAW)) {
				// angle of the horizontal field in the frame without yaw
				const Q noyaw = Q(cos(-yaw / 2), 0, 0, sin(-yaw / 2)) * q;
				auto angleOf = [&](const V3 &m) { const V3 h = noyaw.rot(m); return -atan2(h.y, h.x); };
				const double d = a.c(C_MAGAIR) ? atan2(a.x[17], a.x[16]) : (p.mag_declination_source & MASK_USE_GEO_DECL) ? (std::isfinite(decl) ? decl : p.mag_declination_deg * ref::D2R) : p.mag_declination_deg * ref::D2R;
				const V3 hz = noyaw.rot(lpf);

				if (std::hypot(hz.x, hz.y) > 0.1 * lpf.norm()) {
					want = angleOf(lpf) + d;
					tol += 0.05 + std::fabs(wrapTo(angleOf(lpf) - angleOf(lpf0))) + std::fabs(wrapTo(angleOf(lpf) - angleOf(d3(mag.mag)))) + d3(e->getMagBias()).norm() / std::hypot(hz.x, hz.y);
					name = "compass";
					var = ref::sq(std::max(p.mag_heading_noise, 1e-2f));
					const V3 want_I = q.rot(lpf), I(b.x[16], b.x[17], b.x[18]);
					const double tm = 0.03 + 0.2 * (d3(mag.mag) - lpf).norm() + (lpf - lpf0).norm() + 0.1 * lpf.norm() + d3(e->getMagBias()).norm();
					c.peak("field after reset", (I - want_I).norm() / tm);

					const bool limited = std::hypot(want_I.x, want_I.y) < 0.55 * 0.45 && std::hypot(I.x, I.y) > std::hypot(want_I.x, want_I.y) && std::fabs(wrapTo(atan2(I.y, I.x) - d)) < 0.6; // least horizontal field

					if (!limited && (I - want_I).norm() > tm) { if (c.verbose) { fprintf(vh::out(), "I before %g %g %g after %g %g %g bias %g %g %g decl %g synth %d\n", a.x[16], a.x[17], a.x[18], b.x[16], b.x[17], b.x[18], a.x[19], a.x[20], a.x[21], decl, p.synthesize_mag_z); } c.fail("earth field after reset", "t %.3f field %.3f %.3f %.3f, measured %.3f %.3f %.3f", t, I.x, I.y, I.z, want_I.x, want_I.y, want_I.z); }
				}
			}

			if (std::isfinite(want)) {
				const double err = std::fabs(wrapTo(yaw - want));

				if (air_fused) { tol *= 3; tol += 0.2; }

				else if (rest || gps_fused || ev_fused) { tol += 0.1; }

				c.count((std::string("yaw reset to ") + name).c_str());
				c.peak((std::string("yaw reset to ") + name).c_str(), err / tol);

				if (err > tol) { if (c.verbose) { fprintf(vh::out(), "I before %g %g %g after %g %g %g bias %g %g %g decl %g synth %d\n", a.x[16], a.x[17], a.x[18], b.x[16], b.x[17], b.x[18], a.x[19], a.x[20], a.x[21], decl, p.synthesize_mag_z); } c.fail("yaw after reset", "t %.3f yaw %.3f, by the %s %.3f (tolerance %.3f, tilt %.3f); %s", t, yaw, name, want, tol, tilt, bits(b.cs).c_str()); }

				const double yv = yawVar(*e), low = 0.1 * std::min(var, 1e-2);
				c.peak("yaw variance after reset (inverse)", low / yv);

				if (yv < low && !air_fused) { c.fail("yaw variance after reset", "t %.3f variance %g, of the %s %g; %s", t, yv, name, var, bits(b.cs).c_str()); }
			}
		}

		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) {
			fprintf(vh::out(), "%.3f %s| n %d%d%d%d%d info %x warn %x gps %d %.3f %.3f (%.3f old) ev %d x %.3f %.3f z %.3f lpf %.3f %.3f %.3f mag %.3f %.3f %.3f (%.2f old)\n", t, bits(b.cs).c_str(), kz, kvz, kp, kv, kq, b.info, b.warn, new_gps, gps.n, gps.e, (h - t_gps) * 1e-6, new_ev, b.x[7], b.x[8], b.x[9], lpf.x, lpf.y, lpf.z, mag.mag(0), mag.mag(1), mag.mag(2), (h - t_mag) * 1e-6);
		}

		if (!b.c(C_AIR)) { bad_yaw = 0; }

		if (kz || kvz || kp || kv || kq) { c.seen(vh::mix(vh::mix(b.info, b.warn), vh::hash_bytes(b.cs))); }

		terrain0 = e->getTerrainVertPos();
		a = b;

		if (c.case_violations > 8) { break; }
	}

	(void)t_baro; (void)t_mag; (void)t_flow; (void)t_gps; (void)off_ok; (void)ev_rot;
	c.count("flights");
}
