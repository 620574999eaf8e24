// E21: pairs of flights that differ by a symmetry of the navigation problem
#include "modes.hpp"
using namespace sim;

namespace
{
enum Sym { S_TIME, S_MIRROR, S_ROTATE, S_PLACE, S_DATUM, N_SYM };
const char *const sym_names[N_SYM] = {"time shifted", "mirrored", "rotated", "vision frame moved", "height datum moved"};

const char *const names[8] = {"attitude", "velocity", "position", "gyro bias", "accelerometer bias", "earth field", "body field", "wind"};
// greatest differences seen in thousands of pairs, with a margin
const double same_bound[N_SYM][8] = {
	{},
	{0.15, 0.6, 2, 3e-4, 5e-4, 4e-3, 4e-3, 0.02},
	{0.2, 2, 6, 1e-3, 5e-3, 0.03, 0.03, 0.02},
	{0.02, 0.2, 0.6, 2e-4, 1e-3, 3e-3, 3e-3, 0.05},
	{0.02, 0.2, 0.6, 2e-4, 1e-3, 3e-3, 3e-3, 0.05},
};

struct Pair {
	Sym sym;
	uint64_t shift{0};
	double angle{0};
	V3 move;

	// navigation frame
	V3 nav(const V3 &v) const
	{
		if (sym == S_MIRROR) { return V3(-v.x, v.y, v.z); }

		if (sym == S_ROTATE) { return V3(cos(angle) * v.x - sin(angle) * v.y, sin(angle) * v.x + cos(angle) * v.y, v.z); }

		return v;
	}
	V3 body(const V3 &v) const { return sym == S_MIRROR ? V3(v.x, -v.y, v.z) : v; }
	V3 bodyRate(const V3 &v) const { return sym == S_MIRROR ? V3(-v.x, v.y, -v.z) : v; }
	Q att(const Q &q) const
	{
		if (sym == S_MIRROR) { return Q(q.z, -q.y, -q.x, q.w); }

		if (sym == S_ROTATE) { return Q::euler(0, 0, angle) * q; }

		return q;
	}
	double heading(double a) const { return sym == S_MIRROR ? wrap(PI - a) : sym == S_ROTATE ? wrap(a + angle) : a; }
	static double wrap(double a) { return std::remainder(a, 2 * PI); }

	Flight flight(const Flight &f) const
	{
		Flight g = f;
		auto &c = g.cfg;
		auto &p = c.params;
		c.start_us += shift;

		for (auto &x : g.calls) { x.at += shift; }

		for (auto &x : g.truth) { x.us += shift; x.v = nav(x.v); x.p = nav(x.p); x.q = att(x.q); }

		for (auto &x : g.imu) {
			x.time_us += shift;
			x.delta_ang = f3(bodyRate(d3(x.delta_ang)));
			x.delta_vel = f3(body(d3(x.delta_vel)));
		}

		for (auto &x : g.mag) { x.time_us += shift; x.mag = f3(body(d3(x.mag))); }

		for (auto &x : g.baro) { x.time_us += shift; x.hgt += (float)(-move.z) * (sym == S_DATUM); }

		for (auto &x : g.aspd) { x.time_us += shift; }

		for (auto &x : g.rng) { x.time_us += shift; }

		for (auto &x : g.flow) {
			x.time_us += shift;

			if (sym == S_MIRROR) { x.flow_xy_rad(0) = -x.flow_xy_rad(0); x.gyro_xyz = f3(bodyRate(d3(x.gyro_xyz))); }
		}

		for (auto &x : g.ev) {
			x.time_us += shift;
			x.pos = f3(nav(d3(x.pos)) + (sym == S_PLACE ? move : V3()));
			x.vel = f3(x.vel_frame == velocity_frame_t::BODY_FRAME_FRD ? body(d3(x.vel)) : nav(d3(x.vel)));
			x.quat = fq(att(Q(x.quat(0), x.quat(1), x.quat(2), x.quat(3))));
		}

		for (auto &x : g.aux) { x.time_us += shift; x.vel = f3(nav(d3(x.vel))); }

		for (auto &x : g.gps) {
			x.time_usec += shift;
			x.vel_ned = f3(nav(d3(x.vel_ned)));

			if (sym == S_MIRROR) { x.lat = -x.lat; }

			if (sym == S_DATUM) { x.alt += (int32_t)std::llround(-move.z * 1e3); }

			if (sym == S_MIRROR || sym == S_ROTATE) { x.yaw = (float)heading(x.yaw); }

			if (sym == S_MIRROR) { x.yaw_offset = -x.yaw_offset; }
		}

		auto arm = [&](Vector3f & a) { a = f3(body(d3(a))); };
		arm(p.imu_pos_body);
		arm(p.gps_pos_body);
		arm(p.rng_pos_body);
		arm(p.flow_pos_body);
		arm(p.ev_pos_body);

		if (sym == S_MIRROR) {
			c.lat0 = -c.lat0;
			c.gps_yaw_offset = -c.gps_yaw_offset;
			std::swap(p.static_pressure_coef_yp, p.static_pressure_coef_yn);
		}

		if (sym == S_MIRROR || sym == S_ROTATE) { p.mag_declination_deg = (float)(heading(p.mag_declination_deg * D2R) / D2R); }

		return g;
	}

	// the state the second filter should have
	void state(const double *x, double *y) const
	{
		const Q q = att(Q(x[0], x[1], x[2], x[3]));
		auto put = [&](int i, const V3 &v) { y[i] = v.x; y[i + 1] = v.y; y[i + 2] = v.z; };
		auto get = [&](int i) { return V3(x[i], x[i + 1], x[i + 2]); };
		y[0] = q.w; y[1] = q.x; y[2] = q.y; y[3] = q.z;
		put(4, nav(get(4)));
		put(7, nav(get(7)));
		put(10, bodyRate(get(10)));
		put(13, body(get(13)));
		put(16, nav(get(16)));
		put(19, body(get(19)));
		const V3 w = nav(V3(x[22], x[23], 0));
		y[22] = w.x;
		y[23] = w.y;
	}
};
}

VH_CHECK(E21)
{
	auto &r = c.rng;
	Pair s;
	s.sym = (Sym)r.below(N_SYM);
	Config k;

	if (s.sym == S_TIME) {
		k = wildConfig(r, 45);

		if (r.chance(0.5)) { outliers(k, r); }

	} else {
		k = stepConfig(r);
		static const int air[] = {P_GPS, P_GPSHGT, P_RNGHGT, P_AUX, P_VERT, P_MAGTYPE, P_GPSYAW, P_MAGBAD, P_WING, P_DRAG, P_FLOWGPS, P_EVPOS, P_EVVEL, P_EVODO, P_EVYAW, P_FLOW};
		static const int indoor[] = {P_EVPOS, P_EVVEL, P_EVYAW, P_FLOW, P_AUX};
		const bool no_gps = s.sym == S_ROTATE || s.sym == S_PLACE;
		profile(k, r, no_gps ? indoor[r.below(s.sym == S_PLACE ? 3 : 5)] : air[r.below(16)]);
		k.dur = 45;

		if (no_gps) { k.gps.on = false; }

		if (s.sym == S_PLACE) { k.ev.on = true; k.params.fusion_mode = (k.params.fusion_mode | MASK_USE_EVPOS) & ~MASK_ROTATE_EV; }

		// the field of the geographic model is not symmetric
		if (s.sym != S_DATUM) {
			auto &p = k.params;
			k.wmm = false;
			p.mag_declination_source &= ~MASK_USE_GEO_DECL;
			p.check_mag_strength = 0;
			p.synthesize_mag_z = 0;
			p.mag_declination_deg = (float)r.uni(-30, 30);
			k.decl = p.mag_declination_deg * D2R;
			k.incl = r.uni(-0.9, 0.9);
			k.strength = r.uni(0.3, 0.6);
		}

		if (r.chance(0.4)) { const CallType t[] = {GPS, BARO, MAG, EV, FLOW}; const double t0 = r.uni(5, 35); k.faults.push_back({t[r.below(5)], DROPOUT, t0, t0 + r.logu(0.3, 8), 0}); }
	}

	// (tilt is declared aligned a little earlier or later after the transform: the heading is then taken from another magnetometer sample)
	if (s.sym == S_MIRROR || s.sym == S_ROTATE) { k.s_mag = 0; }

	// (the rotation between vision and navigation frame is found from single samples: feeds back rounding)
	if (s.sym != S_TIME) { k.s_evq = 0; k.ev_pos_var = 1; }

	k.start_us = 100000000 + r.below(1000000000);
	s.shift = s.sym == S_TIME ? 1000 * (r.chance(0.5) ? r.below(1ull << 21) : (1ull << 22) + r.below(1ull << 30)) : 0; // (stamps are averaged in milliseconds)
	s.angle = r.uni(-PI, PI);
	s.move = V3(r.uni(-50, 50), r.uni(-50, 50), r.uni(-500, 500));

	if (s.sym == S_PLACE) { s.move.z = 0; }

	Flight f = Generator(k, r.u64()).run(), g = s.flight(f);
	auto a = std::make_unique<Ekf>(), b = std::make_unique<Ekf>();
	configure(*a, f.cfg);
	configure(*b, g.cfg);
	double worst[8] {}, late[8] {}, var_worst = 0;
	int n10 = 0, n = 0;
	uint64_t h = 0;
	double first = -1;
	bool placed = false;
	Snap p1;

	for (size_t i = 0; i < f.calls.size(); i++) {
		apply(*a, f, f.calls[i]);
		apply(*b, g, g.calls[i]);

		if (f.calls[i].type != IMU) { continue; }

		const bool u1 = a->update(), u2 = b->update();
		const double t = (f.calls[i].at - f.cfg.start_us) * 1e-6;

		if (u1 != u2) { c.fail("updates differ", "%s: one of the two filters did not update at %.3f s", sym_names[s.sym], t); break; }

		if (!u1) { continue; }

		Snap x = snap(*a, f.imu[f.calls[i].idx].time_us), y = snap(*b, g.imu[g.calls[i].idx].time_us);
		c.eval();
		if ((s.sym == S_MIRROR || s.sym == S_ROTATE) && !x.c(C_YAW) && !y.c(C_YAW)) { continue; }

		if (x.c(C_EVPOS)) { placed = true; }

		double want[24];
		s.state(x.x, want);
		const Q qw(want[0], want[1], want[2], want[3]), qy(y.x[0], y.x[1], y.x[2], y.x[3]);
		double e[8] {};
		e[0] = (qw.conj() * qy).rotVec().norm();

		for (int j = 0; j < 3; j++) {
			e[1] = std::max(e[1], std::fabs(want[4 + j] - y.x[4 + j]));
			e[2] = std::max(e[2], std::fabs(want[7 + j] + (s.sym == S_PLACE && placed ? s.move[j] : 0) - y.x[7 + j]));
			e[3] = std::max(e[3], std::fabs(want[10 + j] - y.x[10 + j]));
			e[4] = std::max(e[4], std::fabs(want[13 + j] - y.x[13 + j]));
			e[5] = std::max(e[5], std::fabs(want[16 + j] - y.x[16 + j]));
			e[6] = std::max(e[6], std::fabs(want[19 + j] - y.x[19 + j]));
		}

		e[7] = std::hypot(want[22] - y.x[22], want[23] - y.x[23]);

		if ((x.cs != y.cs || x.fail != y.fail || x.fault != y.fault || memcmp(x.nr, y.nr, sizeof x.nr) != 0) && first < 0) { first = t; if (c.verbose) { fprintf(vh::out(), "t %.3f decisions differ: %s %x | %s %x\n", t, bits(x.cs).c_str(), x.fail, bits(y.cs).c_str(), y.fail); } }

		if (s.sym == S_TIME) {
			y.imu_us -= s.shift;
			y.now_us -= s.shift;
			double same = 0;

			for (int j = 0; j < 24; j++) { same = std::max({same, std::fabs(x.x[j] - y.x[j]), std::fabs(x.var[j] - y.var[j])}); }

			if (!(same <= 0) || first >= 0 || x.imu_us != y.imu_us || x.fault != y.fault || x.soln != y.soln || x.gps != y.gps || x.info != y.info || x.warn != y.warn || memcmp(x.nr, y.nr, sizeof x.nr) != 0 || memcmp(x.in, y.in, sizeof x.in) != 0) { c.fail("time matters", "shifted by %llu us: estimates differ by %.3g at %.3f s", (unsigned long long)s.shift, same, t); break; }

			continue;
		}

		if (first < 0) {
			bool bad = false;

			for (int j = 0; j < 8; j++) {
				worst[j] = std::max(worst[j], e[j]);

				if (!(e[j] <= same_bound[s.sym][j])) { c.fail("not symmetric", "%s: %s differs by %.5f (never more than %.5f while the same decisions are made) at %.3f s", sym_names[s.sym], names[j], e[j], same_bound[s.sym][j], t); bad = true; break; }
			}

			if (bad) { break; }

			// uncertainty
			if (s.sym == S_PLACE || s.sym == S_DATUM) {

				for (int j = 0; j < 24; j++) {
					const double va = x.var[j], vb = y.var[j], d = std::fabs(va - vb) / (std::max(va, vb) + 1e-6);
					var_worst = std::max(var_worst, d);

					if (!(d <= 0.3)) { c.fail("uncertainty not symmetric", "%s: variance %d is %.4g and %.4g at %.3f s", sym_names[s.sym], j, va, vb, t); bad = true; break; }
				}
			}

			if (bad) { break; }
		}

		if (t > k.dur - 10) { n10++; for (int j = 0; j < 8; j++) { late[j] += e[j]; } }

		n++;

		if (n % 50 == 0) { h = h * 1099511628211ull + x.cs + (uint64_t)(int64_t)(10 * x.x[4]) * 31 + (uint64_t)(int64_t)(10 * x.x[9]); }

		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { fprintf(vh::out(), "%.3f", t); for (double q : e) { fprintf(vh::out(), " %.5f", q); } fprintf(vh::out(), " %s\n", bits(x.cs).c_str()); }
	}

	c.count("pairs");
	c.count(sym_names[s.sym]);

	if (s.sym == S_TIME) { c.seen(h ^ c.case_no); return; }

	const std::string name = sym_names[s.sym];
	c.count((name + (first < 0 ? ", same decisions" : ", decisions differed")).c_str());

	if (first < 0) {
		for (int j = 0; j < 8; j++) { c.peak((name + " " + names[j]).c_str(), worst[j]); }

		c.peak((name + " variances").c_str(), var_worst);

	} else if (s.sym == S_MIRROR && n10 > 0) {
		// decisions taken at slightly different times (as on tilt alignment): the estimates come together again
		c.peak((name + " attitude late").c_str(), late[0] / n10);
		c.peak((name + " velocity late").c_str(), late[1] / n10);

		if (!c.case_violations && (late[0] / n10 > 0.6 || late[1] / n10 > 6)) { c.fail("not symmetric in the end", "%s: attitude differs by %.3f and velocity by %.3f over the last ten seconds", sym_names[s.sym], late[0] / n10, late[1] / n10); }

	}

	c.seen(h);
}
