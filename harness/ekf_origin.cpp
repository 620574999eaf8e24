// E18: origin, local and global position against each other and simulated truth
#include "modes.hpp"
#include "ekf_config.hpp"
using namespace sim;

namespace
{
struct Global { double lat, lon, alt; };
Global of(double lat0, double lon0, double alt0, double n, double e, double d)
{
	Global g{lat0, lon0, alt0 - d};
	const double m = std::hypot(n, e);

	if (m > 1e-9) { destination(lat0, lon0, atan2(e, n), m / RE, g.lat, g.lon); }

	return g;
}
double apart(const Global &a, const Global &b) { return RE * D2R * std::hypot(a.lat - b.lat, wrap((a.lon - b.lon) * D2R) / D2R * cos(a.lat * D2R)); }
}

VH_CHECK(E18)
{
	auto &r = c.rng;
	Config k = stepConfig(r);
	const int ps[] = {P_GPS, P_GPSHGT, P_GPS, P_RNGHGT, P_WING, P_FLOW, P_AUX, P_MAGTYPE};
	profile(k, r, ps[r.below(8)]);
	auto &p = k.params;
	k.dur = r.uni(50, 80);
	k.lat0 = r.uni(-48, 48); // (the field is steep further away: yaw resets in manoeuvres are poor)
	k.mag.period = r.uni(0.015, 0.04);
	k.mag.jitter = 0;
	p.fusion_mode = (p.fusion_mode & ~(MASK_USE_EVPOS | MASK_ROTATE_EV)) | MASK_USE_GPS;

	if (p.vdist_sensor_type == VDIST_SENSOR_EV) { p.vdist_sensor_type = VDIST_SENSOR_BARO; }

	k.gps.on = true;
	k.gps.period = r.uni(0.06, 0.25);
	k.gps.jitter = r.uni(0, 0.2) * k.gps.period;
	p.gps_check_mask = 0;
	k.terrain_slope = 0;
	k.noise_scale = 0.4;
	k.t_takeoff = r.uni(15, 40);
	k.imu_dt = r.uni(0.004, 0.01);
	p.mag_fusion_type = r.chance(0.7) ? MAG_FUSE_TYPE_AUTO : MAG_FUSE_TYPE_HEADING;
	k.mag.on = true;

	// navigation by optical flow before the first fix
	const bool late = p.fusion_mode & MASK_USE_OF ? r.chance(0.6) : r.chance(0.1);

	if (late) { k.faults.push_back({GPS, DROPOUT, 0, k.t_takeoff + r.uni(-5, 15), 0}); }

	if (r.chance(0.2)) { const double t0 = r.uni(20, k.dur); k.faults.push_back({GPS, DROPOUT, t0, t0 + r.logu(0.2, 8), 0}); }

	Flight f = Generator(k, r.u64()).run();
	auto e = std::make_unique<Ekf>();
	configure(*e, k);

	if (r.chance(0.7)) { e->set_min_required_gps_health_time((uint32_t)r.logu(2e5, 1e7)); }

	if (c.verbose) { printf("gps period %.3f delay %.3f (%.0f) imu %.4f jitter %.2f vehicle %d lat %.2f\n", k.gps.period, k.gps.delay, p.gps_delay_ms, k.imu_dt, k.imu_jitter, k.vehicle, k.lat0); }

	std::vector<double> when;

	for (int n = r.below(4); n > 0; n--) { when.push_back(r.uni(0, k.dur)); }

	if (r.chance(0.3)) { when.push_back(r.uni(0, 12)); }

	std::sort(when.begin(), when.end());
	size_t next = 0;
	bool inited = false, was_set = false, commanded = false;
	double o_lat = 0, o_lon = 0;
	uint64_t gps_since = 0, moved_at = 0, unaided_at = 0, h = 0, gps_last = 0;
	double height_err0 = NAN, herr = NAN;
	const double lag = lagOf(k);
	int moves = 0;
	const uint32_t SOURCES = (1u << C_BARO) | (1u << C_GPSHGT) | (1u << C_RNG) | (1u << C_EVHGT);
	uint32_t source = 0;

	auto origin = [&](double & lat, double & lon, float & alt) { uint64_t t = 0; return e->getEkfGlobalOrigin(t, lat, lon, alt); };
	auto stateGlobal = [&]() {
		const auto x = e->getStateAtFusionHorizonAsVector();
		double lat, lon; float alt;
		origin(lat, lon, alt);
		return of(lat, lon, alt, x(7), x(8), x(9));
	};
	auto outGlobal = [&]() {
		const Vector3f x = e->getPosition();
		double lat, lon; float alt;
		origin(lat, lon, alt);
		return of(lat, lon, alt, x(0), x(1), x(2));
	};

	for (const Call &call : f.calls) {
		const double t = (call.at - k.start_us) * 1e-6;

		if (next < when.size() && t > when[next] && inited) {
			next++;
			const auto s = e->control_status_flags();
			const bool aiding = s.gps || s.opt_flow || s.ev_vel || s.ev_pos || (s.fuse_beta && s.fuse_aspd);
			double lat, lon; float alt;
			const bool set = origin(lat, lon, alt);
			const Global g0 = stateGlobal(), w0 = outGlobal();
			const auto x0 = e->getStateAtFusionHorizonAsVector();
			const Snap b = snap(*e, e->get_imu_sample_delayed().time_us);
			// where the vehicle is, moved by a distance
			const double dist = r.chance(0.5) ? r.logu(0.3, 30) : r.logu(30, 30000), dir = r.uni(-PI, PI);
			const Global n = of(set || commanded ? lat : k.lat0, set || commanded ? lon : k.lon0, 0, dist * cos(dir), dist * sin(dir), 0);
			const float nalt = (float)((set || commanded ? alt : k.alt0) + (r.chance(0.3) ? 0 : r.chance(0.5) ? r.uni(-5, 5) : r.uni(-500, 500)));
			const bool ok = e->setEkfGlobalOrigin(n.lat, n.lon, nalt);
			const Snap d = snap(*e, e->get_imu_sample_delayed().time_us);
			c.eval();

			if (c.verbose) { fprintf(vh::out(), "%.3f command set %d aiding %d dist %.1f alt %.1f from %.1f flags %s\n", t, set, aiding, dist, nalt, alt, bits(e->control_status().value).c_str()); }

			if (!ok) { c.fail("origin command refused", "t %.3f", t); }

			const bool set2 = origin(lat, lon, alt);

			if (set2 != set && set) { c.fail("origin lost by the command", "t %.3f", t); }

			if (std::fabs(lat - n.lat) > 1e-9 || std::fabs(wrap((lon - n.lon) * D2R)) > 1e-10 || alt != nalt) { c.fail("commanded origin not reported back", "t %.3f %.9f %.9f %.3f, commanded %.9f %.9f %.3f", t, lat, lon, alt, n.lat, n.lon, nalt); }

			const auto x1 = e->getStateAtFusionHorizonAsVector();

			if (aiding && (set || commanded)) {
				moves++;
				c.count("origin moved while navigating");

				if (s.gps_hgt) { c.count("origin moved with GPS height"); }

				if (s.rng_hgt) { c.count("origin moved with range finder height"); }

				if (s.baro_hgt) { c.count("origin moved with barometric height"); }

				const Global g1 = stateGlobal(), w1 = outGlobal();
				const double tol = 0.01 + 3e-7 * (dist + std::fabs(x0(7)) + std::fabs(x0(8)) + std::fabs(x1(7)) + std::fabs(x1(8)));
				c.peak("global position shift by the command (m)", apart(g0, g1));

				if (!(apart(g0, g1) < tol)) { c.fail("global position changed by moving the origin", "t %.3f estimate by %.4f m, origin by %.2f m", t, apart(g0, g1), dist); }

				if (!(apart(w0, w1) < tol)) { c.fail("global position changed by moving the origin", "t %.3f output by %.4f m, origin by %.2f m", t, apart(w0, w1), dist); }

				if (!(std::fabs(g0.alt - g1.alt) < 2e-3) || !(std::fabs(w0.alt - w1.alt) < 2e-3)) { c.fail("altitude changed by moving the origin", "t %.3f estimate %.3f to %.3f, output %.3f to %.3f", t, g0.alt, g1.alt, w0.alt, w1.alt); }

				// nothing else changes, and it is announced
				for (int i = 0; i < 24; i++) { if ((i < 7 || i > 9) && x0(i) != x1(i)) { c.fail("moving the origin changed another state", "t %.3f state %d", t, i); } }

				float dne[2], dd;
				uint8_t cne, cd;
				e->get_posNE_reset(dne, &cne);
				e->get_posD_reset(&dd, &cd);

				if (d.nr[0] == b.nr[0] && memcmp(d.nr, b.nr, sizeof b.nr) == 0) { c.fail("moving the origin not announced", "t %.3f", t); }

				if (std::fabs(dne[0] - (x1(7) - x0(7))) > tol || std::fabs(dne[1] - (x1(8) - x0(8))) > tol || std::fabs(dd - (x1(9) - x0(9))) > 2e-3) { c.fail("moving the origin announced with another change", "t %.3f", t); }

				// (before the GPS has set it, and shortly after a command without aiding, the altitude is yet to settle)
				moved_at = set && (!unaided_at || call.at - unaided_at > 12000000) ? call.at : 0;
				height_err0 = g0.alt - (k.alt0 - f.at(e->get_imu_sample_delayed().time_us).p.z);
				source = e->control_status().value & SOURCES;

			} else {
				unaided_at = call.at;
				c.count(set ? "origin moved without aiding" : "origin commanded before GPS");

				for (int i = 0; i < 24; i++) { if (x0(i) != x1(i)) { c.fail("commanding the origin without aiding changed the state", "t %.3f state %d", t, i); break; } }
			}

			o_lat = lat;
			o_lon = lon;
			commanded = true;
			was_set = set2;
		}

		double olat, olon; float oalt;
		const bool set_before = call.type == GPS && origin(olat, olon, oalt);
		apply(*e, f, call);

		if (call.type == GPS && !set_before && !commanded && origin(olat, olon, oalt)) {
			// set from this fix: it is where the vehicle is, relative to the start of navigation if that has begun
			const auto fl = e->control_status_flags();
			const bool aided = fl.gps || fl.opt_flow || fl.ev_pos || fl.ev_vel || (fl.fuse_aspd && fl.fuse_beta);
			const auto x = e->getStateAtFusionHorizonAsVector();
			const gps_message &m = f.gps[call.idx];
			const double north = (m.lat * 1e-7 - olat) * D2R * 6371000., east = wrap((m.lon * 1e-7 - olon) * D2R) * std::cos(0.5 * (m.lat * 1e-7 + olat) * D2R) * 6371000.;
			const double en = north - (aided ? x(7) : 0), ee = east - (aided ? x(8) : 0), far = std::hypot(north, east);
			c.count(aided ? "origin set while navigating" : "origin set at the fix");

			if (aided && far > 2) { c.count("origin set away from the start"); c.peak("distance from the start when the origin was set (m)", far); }

			c.expect(std::hypot(en, ee) < 0.05 + 2e-3 * far, "origin does not fit the fix", "t %.3f: fix %.2f %.2f m from the origin, local position %.2f %.2f, aided %d", t, north, east, (double)x(7), (double)x(8), aided);
			c.expect(std::fabs(oalt - (m.alt * 1e-3 + x(9))) < 0.02 + 1e-6 * std::fabs(oalt), "origin altitude does not fit the fix", "t %.3f: origin %.3f, fix %.3f, local %.3f", t, (double)oalt, m.alt * 1e-3, (double)x(9));
		}

		if (call.type == GPS) { gps_last = call.at; }

		if (call.type != IMU || !e->update()) { continue; }

		inited = true;
		const uint64_t now = f.imu[call.idx].time_us;
		const auto s = e->control_status_flags();
		double lat, lon; float alt;
		const bool set = origin(lat, lon, alt);

		if ((set && was_set) || commanded) { if (lat != o_lat || lon != o_lon) { c.fail("origin moved without a command", "t %.3f %.9f %.9f", t, lat, lon); } }

		if (c.verbose && set && !was_set) { fprintf(vh::out(), "%.3f origin set\n", t); }

		if (set && !was_set) { moved_at = 0; o_lat = lat; o_lon = lon; c.count("origin from GPS"); if (commanded) { c.count("origin from GPS after a command"); } }

		was_set = set;

		if (!s.gps) { gps_since = 0; }

		else if (!gps_since) { gps_since = now; }

		if (now - gps_last > 900000 + (uint64_t)(1e6 * lag)) { gps_since = 0; }

		const Truth &tr = f.at(e->get_imu_sample_delayed().time_us);
		const Global tg = of(k.lat0, k.lon0, k.alt0, tr.p.x, tr.p.y, tr.p.z), sg = stateGlobal();

		if (gps_since && now - gps_since > 1500000 && !late) { // (what an unaided start in flight has left behind decays slowly)
			c.eval();
			const double err = apart(sg, tg);
			c.peak(moved_at ? "error of the global position after a move (m)" : "error of the global position (m)", err);

			if (!(err < 2.5)) { c.fail("global position wrong while aided by GPS", "t %.3f: %.2f m, origin moved %.2f s ago; %s", t, err, moved_at ? (call.at - moved_at) * 1e-6 : -1, bits(e->control_status().value).c_str()); }

			h = h * 31 + (int)(err * 100);
		}

		herr = sg.alt - tg.alt;


		if (moved_at && call.at - moved_at < 12000000 && std::isfinite(height_err0) && (e->control_status().value & SOURCES) == source) {
			c.eval();
			const double ch = std::fabs(herr - height_err0);
			c.peak("change of the altitude error after a move (m)", ch);

			if (!(ch < 3)) { c.fail("altitude wrong after the origin was moved", "t %.3f: error %.2f m, was %.2f m %.2f s ago when it was moved; %s", t, herr, height_err0, (call.at - moved_at) * 1e-6, bits(e->control_status().value).c_str()); }
		}

		if (c.case_violations >= 3) { break; }
	}

	if (inited) { c.count("flights"); }

	c.seen(h + moves);
}
