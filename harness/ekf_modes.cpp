// Monitors of mode logic: E13 aiding, E15 height sources, E16 magnetometer modes, E24 vertical acceleration, E25 wind
#include "modes.hpp"
using namespace sim;

static int horizontalAids(const Snap &s) { return s.c(C_GPS) + s.c(C_FLOW) + s.c(C_EVPOS) + s.c(C_EVVEL) + (s.c(C_ASPD) && s.c(C_BETA)); }

static bool aids_other(const Snap &s, int bit)
{
	if (bit == C_GPS) { return s.c(C_FLOW) + s.c(C_EVPOS) + s.c(C_EVVEL) + (s.c(C_ASPD) && s.c(C_BETA)) > 0; }

	return horizontalAids(s) > 1;
}

// E13 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E13)
{
	auto &r = c.rng;
	Config k;
	const double u = r.unit();

	if (u < 0.35) {
		// clean data with holes: activation is due
		k = stepConfig(r);
		const int ps[] = {P_EVPOS, P_EVVEL, P_EVODO, P_AUX, P_GPSYAW, P_EVYAW, P_WING, P_WINGLOSS, P_DRAG, P_FLOW, P_FLOWGPS};
		profile(k, r, ps[r.below(11)]);

		if (r.chance(0.3)) { profile(k, r, ps[r.below(6)]); k.gps.on = true; k.params.fusion_mode |= r.chance(0.5) ? MASK_USE_GPS : 0; }

		k.dur = 75;

	} else { k = wildConfig(r, 75, 3); }

	k.params.reset_timeout_max = (unsigned)r.logu(2e6, 1e7);
	k.beta_keep = r.chance(0.5);

	if (k.start_us < 30000000) { k.start_us += 30000000; }

	if (r.chance(0.3)) { k.params.gps_check_mask = 1; }

	holes(k, r, {GPS, EV, FLOW, ASPD, AUX, MAG, RNG}, 0.4);

	if (r.chance(0.3)) { k.t_land = k.t_takeoff + r.uni(8, 40); }

	Flight f = Generator(k, r.u64()).run();

	if (r.chance(0.5)) { gpsQuality(f, r, r.below(3)); }

	std::vector<std::pair<uint64_t, uint64_t>> bad_flow;

	if (k.flow.on && r.chance(0.5)) { bad_flow = spoilFlow(f, r, 3, 30); }

	const auto &p = k.params;
	const int mask = p.fusion_mode;
	const double lag = lagOf(k);
	auto e = std::make_unique<Ekf>();
	Feeds feeds;
	uint64_t gps_bad_msg = 0, gps_seen = 0;
	uint64_t last_attempt[N_OBS] = {}, bit_since[27] = {}, aid_since = 0, alone_since = 0, air_since = 0, terr_since = 0, gps_fail = 0, ready_gps = 0, ready_ev[3] = {}, ready_flow = 0, slow = 0;

	watch(*e, f, feeds, [&](const Call &, const Snap & a, const Snap & b, double t) {
		c.eval();
		const uint64_t now = b.now_us;
		auto rising = [&](int i) { return b.c(i) && !(a.valid && a.c(i)); };
		auto falling = [&](int i) { return a.valid && a.c(i) && !b.c(i); };
		auto say = [&](const char *what, int bit) {
			c.fail(what, "t %.3f bit %d: now %s; before %s; fusion_mode %d magnetometer mode %d", t, bit, bits(b.cs).c_str(), bits(a.cs).c_str(), mask, p.mag_fusion_type);
		};

		for (int i = 0; i < 27; i++) { if (b.c(i) && !bit_since[i]) { bit_since[i] = now; } else if (!b.c(i)) { bit_since[i] = 0; } }

		// only what is enabled
		static const int need[][2] = {{C_GPS, MASK_USE_GPS}, {C_FLOW, MASK_USE_OF}, {C_EVPOS, MASK_USE_EVPOS}, {C_EVVEL, MASK_USE_EVVEL}, {C_EVYAW, MASK_USE_EVYAW}, {C_GPSYAW, MASK_USE_GPSYAW}};

		for (auto &n : need) { if (b.c(n[0]) && !(mask & n[1])) { say("aiding that is not enabled", n[0]); } }

		// only when aligned
		for (int i : {C_GPS, C_FLOW, C_EVPOS, C_EVVEL}) {
			if (rising(i)) {
				if (!b.c(C_TILT) || !b.c(C_YAW)) { say("aiding started before alignment", i); }

				c.count((std::string("started: ") + (i == C_GPS ? "gps" : i == C_FLOW ? "flow" : i == C_EVPOS ? "vision position" : "vision velocity")).c_str());
			}
		}

		for (int i : {C_EVYAW, C_GPSYAW}) { if (rising(i)) { c.count(i == C_EVYAW ? "started: vision yaw" : "started: gps yaw"); if (!b.c(C_TILT)) { say("yaw aiding started before tilt alignment", i); } } }

		if (rising(C_GPS) && !feeds.origin) { say("gps aiding started without origin", C_GPS); }

		if (rising(C_EVYAW) && b.c(C_GPS) && !rising(C_GPS)) { say("vision yaw started while gps aiding", C_EVYAW); }

		// only with data
		for (int i : {C_EVPOS, C_EVVEL, C_EVYAW}) {
			if (rising(i) && feeds[EV].age(now) > 0.4 + lag + delayOf(k, EV) + 0.5) { say("vision aiding started without data", i); }
		}

		for (int i : {C_GPS, C_GPSYAW}) { if (rising(i) && (feeds[GPS].at.empty() || feeds[GPS].age(now) > lag + 1.0)) { say("gps aiding started without data", i); } }

		if (rising(C_FLOW) && feeds[FLOW].age(now) > lag + 1.0) { say("flow aiding started without data", C_FLOW); }

		// flow of poor quality is not used in the air
		if (b.c(C_AIR) && a.valid && a.c(C_AIR) && !f.flow.empty() && !bad_flow.empty()) {
			const uint64_t h = b.imu_us + (uint64_t)(delayOf(k, FLOW) * 1e6) + 5000;
			bool all_bad = false;

			for (auto &w : bad_flow) { if (h > w.first + 1000000 && h + 300000 < w.second) { all_bad = true; } }

			if (all_bad) {
				c.count("updates with poor flow");

				if (rising(C_FLOW)) { say("flow aiding started with poor flow", C_FLOW); }

				if (attempted(a, b, O_FLOW)) { say("poor flow used in the air", C_FLOW); }
			}
		}

		if (rising(C_ASPD) && !(attempted(a, b, O_TAS) && b.ratio[O_TAS] <= 1)) { say("airspeed reported fused without fusion", C_ASPD); }

		// yaw sources exclude each other
		const int yaws = b.c(C_EVYAW) + b.c(C_GPSYAW) + (b.c(C_MAGHDG) || b.c(C_MAG3D));

		if (yaws > 1) { say("several yaw sources", C_EVYAW); }

		// observations only from active sources
		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) {
			std::string w;

			for (int o = 0; o < N_OBS; o++) { if (a.valid && attempted(a, b, (Obs)o)) { w += obs_names[o]; w += ", "; } }

			printf("%.3f %s| %s| tas %.3f gps %.3f ev %.3f\n", t, bits(b.cs).c_str(), w.c_str(), feeds[ASPD].age(now), feeds[GPS].age(now), feeds[EV].age(now));
		}

		if (a.valid) {
			for (int o = 0; o < N_OBS; o++) { if (attempted(a, b, (Obs)o)) { last_attempt[o] = now; } }

			auto on = [&](int bit) { return a.c(bit) || b.c(bit); };
			const bool airy = b.c(C_AIR);
			auto only = [&](Obs o, bool ok) {
				if (!attempted(a, b, o)) { return; }

				c.count((std::string("observed: ") + obs_names[o]).c_str());

				if (!ok) { c.fail("observation from a source that is not active", "t %.3f %s: now %s; before %s", t, obs_names[o], bits(b.cs).c_str(), bits(a.cs).c_str()); }
			};
			only(O_GHV, on(C_GPS));
			only(O_GVV, on(C_GPS));
			only(O_GHP, on(C_GPS) || std::min(horizontalAids(a), horizontalAids(b)) == 0);
			only(O_EHV, on(C_EVVEL));
			only(O_EVV, on(C_EVVEL));
			only(O_EHP, on(C_EVPOS));
			only(O_FLOW, on(C_FLOW) || (airy && on(C_GPS))); // or for terrain
			only(O_AUX, horizontalAids(a) > 0 || horizontalAids(b) > 0);
			only(O_TAS, airy);
			only(O_BETA, airy && on(C_BETA));
			only(O_DRAG, airy && (mask & MASK_USE_DRAG));
			only(O_MAG, on(C_MAG3D) || rising(C_EVYAW) || rising(C_GPSYAW)); // may have begun in the same step
			only(O_YAW, on(C_MAGHDG) || on(C_EVYAW) || on(C_GPSYAW) || p.mag_fusion_type == MAG_FUSE_TYPE_NONE);
			only(O_BARO, on(C_BARO));
			only(O_GVP, on(C_GPSHGT));
			only(O_RNG, on(C_RNG));
			only(O_EVP, on(C_EVHGT));
		}

		// deactivation
		if (aids_other(b, C_GPS) && b.c(C_GPS)) { if (!alone_since) { alone_since = now; } }

		else { alone_since = 0; }

		if (b.c(C_GPS)) {
			const double age = ((int64_t)(b.imu_us - feeds[GPS].newest_stamp)) * 1e-6;
			c.peak("gps active with data age (s)", age);

			if (age > 10.1) { say("gps aiding without data for 10 s", C_GPS); }

			if (alone_since && now - alone_since > 300000 && age > 1.1) { say("gps aiding kept with other aiding and no data for 1 s", C_GPS); }
		}

		for (int i : {C_EVPOS, C_EVVEL, C_EVYAW}) {
			if (b.c(i) && feeds[EV].age(now) > p.reset_timeout_max * 1e-6 + lag + 0.2) { say("vision aiding without data", i); }
		}

		if (b.c(C_FLOW)) {
			const double age = ((int64_t)(b.imu_us - feeds[FLOW].newest_stamp)) * 1e-6;

			if (age > 10.3) { say("flow aiding without data for 10 s", C_FLOW); }
		}

		if (b.c(C_GPSYAW) && a.valid && a.c(C_GPSYAW) && now - bit_since[C_GPSYAW] > 5100000) {
			const double age = (now - last_attempt[O_YAW]) * 1e-6;
			c.peak("gps yaw active with observation age (s)", age);

			if (age > 6.0) { say("gps yaw aiding without observation for 5 s", C_GPSYAW); }
		}

		if (b.c(C_ASPD) && last_attempt[O_TAS] && now - std::max(last_attempt[O_TAS], bit_since[C_WIND]) > 10100000) { say("airspeed reported fused without fusion for 10 s", C_ASPD); }

		for (int i : {C_GPS, C_FLOW, C_EVPOS, C_EVVEL, C_EVYAW, C_GPSYAW, C_ASPD}) {
			static const char *n[27] = {};
			n[C_GPS] = "stopped: gps"; n[C_FLOW] = "stopped: flow"; n[C_EVPOS] = "stopped: vision position"; n[C_EVVEL] = "stopped: vision velocity"; n[C_EVYAW] = "stopped: vision yaw"; n[C_GPSYAW] = "stopped: gps yaw"; n[C_ASPD] = "stopped: airspeed";

			if (falling(i)) { c.count(n[i]); }
		}

		// stopped only for a reason
		auto jitter = [&](CallType s) { return s == GPS ? k.gps.jitter : s == EV ? k.ev.jitter : s == FLOW ? k.flow.jitter : s == ASPD ? k.aspd.jitter : k.aux.jitter; };
		// data more than 0.1 s behind the fusion horizon is dropped
		auto healthy = [&](CallType s, double w, double gap) { return jitter(s) < 0.08 && feeds[s].regular(now, w, gap) && !faulty(k, s, {LATE, DUPLICATE}); };

		if (falling(C_EVPOS) || falling(C_EVVEL)) {
			if (healthy(EV, p.reset_timeout_max * 1e-6 + 0.5 < 3 ? 3 : p.reset_timeout_max * 1e-6 + 0.5, 0.3)) { say("vision aiding stopped with data", C_EVPOS); }
		}

		if (falling(C_EVYAW) && !b.c(C_GPS) && !b.c(C_GPSYAW) && healthy(EV, 3, 0.3) && p.reset_timeout_max > 1900000 && p.mag_fusion_type != 3 /* not implemented */) { say(p.mag_fusion_type == MAG_FUSE_TYPE_INDOOR && (mask & MASK_USE_GPS) ? "vision yaw given up for GPS in indoor magnetometer mode" : "vision yaw stopped with data", C_EVYAW); }

		// GPS quality as reported when each message arrives
		{
			const uint16_t fail = b.gps;
			const int m = p.gps_check_mask;
			const bool bad = (fail & 1) || ((fail >> 1) & m);

			if (bad || !gps_fail) { gps_fail = now; }

			// quality of each message as it arrives
			if (!feeds[GPS].at.empty() && feeds[GPS].at.back() != gps_seen) { gps_seen = feeds[GPS].at.back(); if (bad) { gps_bad_msg = now; } }

			if (rising(C_GPS) && gps_bad_msg) {
				c.peak("gps aiding started after the last failed check (1/s)", 1e6 / (double)(now - gps_bad_msg + 1));

				if (now - gps_bad_msg < 4900000) { say("gps aiding started soon after a failed quality check", C_GPS); }
			}

			if (falling(C_GPS) && healthy(GPS, 6, 0.6) && gps_fail + 6000000 < now) { say("gps aiding stopped with good data", C_GPS); }
		}

		// activation is due
		auto due = [&](uint64_t &since, bool cond, bool active, double within, const char *what, int bit) {
			if (!cond || active) { since = 0; return; }

			if (!since) { since = now; }

			if (now - since > (uint64_t)(within * 1e6)) { since = now; say(what, bit); }
		};
		const bool aligned = b.c(C_TILT) && b.c(C_YAW);
		due(ready_gps, aligned && (mask & MASK_USE_GPS) && feeds.origin && healthy(GPS, 1.5, 0.6) && gps_fail + 5100000 < now && !anyReset(a, b), b.c(C_GPS), 1.0 + lag, "gps aiding not started", C_GPS);
		due(ready_ev[0], aligned && (mask & MASK_USE_EVPOS) && healthy(EV, 1.0, 0.3), b.c(C_EVPOS), 0.6 + lag, "vision position aiding not started", C_EVPOS);
		due(ready_ev[1], aligned && (mask & MASK_USE_EVVEL) && healthy(EV, 1.0, 0.3), b.c(C_EVVEL), 0.6 + lag, "vision velocity aiding not started", C_EVVEL);
		due(ready_ev[2], b.c(C_TILT) && (mask & MASK_USE_EVYAW) && !b.c(C_GPS) && !b.c(C_GPSYAW) && !((mask & MASK_USE_GPSYAW) && k.gps_yaw) && healthy(EV, 1.0, 0.3), b.c(C_EVYAW), 0.6 + lag, "vision yaw aiding not started", C_EVYAW);

		if (b.c(C_AIR)) { if (!air_since) { air_since = now; } }

		else { air_since = 0; }

		if (e->isTerrainEstimateValid()) { if (!terr_since) { terr_since = now; } }

		else { terr_since = 0; }

		const bool flow_ok = (mask & MASK_USE_OF) && k.flow.period > 0.1 && k.flow.jitter == 0 && k.imu_jitter == 0 && k.imu_dt == 0.005 && !faulty(k, FLOW) && bad_flow.empty() && !faulty(k, IMU) && k.flow_max_rate >= 5 && k.vehicle == MULTI && k.flow_quality >= p.flow_qual_min;
		due(ready_flow, flow_ok && aligned && air_since && now - air_since > 1000000 && terr_since && now - terr_since > 1000000 && healthy(FLOW, 1.5, 0.3), b.c(C_FLOW), 1.0 + lag, "flow aiding not started", C_FLOW);

		// active sources with data are used
		auto used = [&](bool active, uint64_t since, CallType s, Obs o, double within, const char *what) {
			if (!active || !since || now - since < (uint64_t)((within + lag + 0.5) * 1e6) || !healthy(s, within + lag + 0.6, 0.6)) { return; }

			c.count((std::string("in use: ") + obs_names[o]).c_str());

			if (last_attempt[o] + (uint64_t)((within + lag) * 1e6) < now) { c.fail(what, "t %.3f %s: last observation %.3f s ago; %s", t, obs_names[o], (now - last_attempt[o]) * 1e-6, bits(b.cs).c_str()); last_attempt[o] = now; }
		};
		used(b.c(C_GPS), bit_since[C_GPS], GPS, O_GHV, 1.0, "active source not used");
		used(b.c(C_GPS), bit_since[C_GPS], GPS, O_GVV, 1.0, "active source not used");
		used(b.c(C_GPS), bit_since[C_GPS], GPS, O_GHP, 1.0, "active source not used");
		used(b.c(C_EVPOS), bit_since[C_EVPOS], EV, O_EHP, 1.0, "active source not used");
		used(b.c(C_EVVEL), bit_since[C_EVVEL], EV, O_EHV, 1.0, "active source not used");
		used(b.c(C_EVVEL), bit_since[C_EVVEL], EV, O_EVV, 1.0, "active source not used");
		used(b.c(C_EVYAW), bit_since[C_EVYAW], EV, O_YAW, 1.0, "active source not used");

		if (horizontalAids(b)) { if (!aid_since) { aid_since = now; } }

		else { aid_since = 0; }

		used(aid_since != 0, aid_since, AUX, O_AUX, 1.0, "auxiliary velocity not used");
		if (std::hypot(std::hypot(b.x[4] - b.x[22], b.x[5] - b.x[23]), b.x[6]) < 2) { slow = now; }

		used(air_since != 0 && aid_since != 0, std::max(slow, std::max(air_since, aid_since)), ASPD, O_TAS, 1.0, "airspeed not used");
		return c.case_violations < 6;
	});
	c.seen(vh::hash_bytes(last_attempt));
}

// E15 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E15)
{
	auto &r = c.rng;
	Config k;
	const double u = r.unit();

	if (u < 0.5) {
		// low flight, every height sensor available
		k = stepConfig(r);

		if (r.chance(0.7)) { lowMulti(k, r); k.height = r.uni(2, 25); }

		k.gps.on = r.chance(0.85);
		k.rng.on = r.chance(0.8);
		k.rng_max = r.uni(8, 60);
		k.params.vdist_sensor_type = r.below(4);
		k.ev.on = k.params.vdist_sensor_type == VDIST_SENSOR_EV || r.chance(0.3);

		if (k.ev.on && r.chance(0.4)) { k.params.fusion_mode = MASK_USE_EVPOS | (r.chance(0.5) ? MASK_USE_GPS : 0) | (r.chance(0.3) ? MASK_USE_EVVEL : 0); }

		if (r.chance(0.2)) { k.params.fusion_mode = 0; k.gps.on = r.chance(0.5); }

		k.params.range_aid = r.chance(0.6);
		k.params.max_hagl_for_range_aid = r.uni(1, 20);
		k.params.max_vel_for_range_aid = r.uni(0.5, 6);
		k.rng.period = r.uni(0.03, 0.11);
		k.dur = 80;
		k.baro_offset = r.uni(-50, 50);

		if (r.chance(0.4)) { k.terrain_slope = r.uni(-1.5, 1.5); k.height = std::max(k.height, 9.); k.rng_max = std::max(k.rng_max, 40.); k.params.max_hagl_for_range_aid = r.uni(5, 30); }

	} else { k = wildConfig(r, 80, 3); }

	if (k.start_us < 30000000) { k.start_us += 30000000; }

	const bool faults = r.chance(0.4);

	if (faults) {
		for (CallType t : {BARO, GPS, RNG, EV}) {
			if (r.chance(0.4)) {
				const double t0 = r.uni(5, k.dur);
				const FaultType ft[] = {SPIKE, FREEZE, BIAS_STEP, NOISY};
				const FaultType q = ft[r.below(4)];
				k.faults.push_back({t, q, t0, t0 + r.logu(1, 30), q == NOISY ? r.logu(3, 30) : r.uni(-30, 30)});
			}
		}
	}

	holes(k, r, {GPS, EV, BARO, RNG}, 0.35, 30);

	if (r.chance(0.3)) { k.t_land = k.t_takeoff + r.uni(8, 40); }

	Flight f = Generator(k, r.u64()).run();

	if (r.chance(0.4)) { gpsQuality(f, r, r.below(3)); }

	const auto &p = k.params;
	const double lag = lagOf(k);
	auto e = std::make_unique<Ekf>();
	Feeds feeds;
	static const int H[4] = {C_BARO, C_GPSHGT, C_RNG, C_EVHGT};
	static const Obs HO[4] = {O_BARO, O_GVP, O_RNG, O_EVP};
	static const CallType HT[4] = {BARO, GPS, RNG, EV};
	static const char *const HN[4] = {"baro", "gps", "range", "vision"};
	uint64_t origin_set = 0, rng_stuck = 0, rng_out = 0, last_reject = 0, last_ok = 0, last_ok_of[4] = {}, gps_fail = 0, ready[4] = {}, out_of_limits = 0, switched = 0, bad_acc = 0, last_disturb = 0, since = 0;
	float terr_prev = 0;
	bool terr_ok_prev = false, terr_ok_at_switch = false;
	int cur = -1, first_of = -1;
	double expect_first = 0;
	std::string order;

	watch(*e, f, feeds, [&](const Call &, const Snap & a, const Snap & b, double t) {
		c.eval();
		const uint64_t now = b.now_us;
		const int n = b.c(C_BARO) + b.c(C_GPSHGT) + b.c(C_RNG) + b.c(C_EVHGT);
		auto say = [&](const char *what) { c.fail(what, "t %.3f primary %d range aid %d: now %s; before %s", t, p.vdist_sensor_type, p.range_aid, bits(b.cs).c_str(), bits(a.cs).c_str()); };

		if (n > 1) { say("several height sources"); }

		if (n == 0) { say("no height source"); }

		int now_src = -1;

		for (int i = 0; i < 4; i++) { if (b.c(H[i])) { now_src = i; } }

		const bool sw = a.valid && now_src != cur;
		const double z0 = a.x[9], z1 = b.x[9];
		const bool reset = a.valid && a.nr[0] != b.nr[0];

		if (reset && std::fabs((double)b.rs[0][0]) > 0.3) { last_disturb = now; }

		if (b.fault >> 15 & 1 || (e->fault_status().flags.bad_acc_vertical)) { bad_acc = now; }

		if ((b.gps & 1) || (b.gps >> 1 & p.gps_check_mask) || !gps_fail) { gps_fail = now; }

		auto jitter = [&](CallType s) { return s == GPS ? k.gps.jitter : s == EV ? k.ev.jitter : s == BARO ? k.baro.jitter : k.rng.jitter; };
		auto healthy = [&](CallType s, double w, double gap) { return jitter(s) < 0.08 && feeds[s].regular(now, w, gap) && !faulty(k, s, {LATE, DUPLICATE}); };

		// the first position from collect_gps moves the height source too
		if (!feeds.origin) { origin_set = now; }

		// a range finder that was absent for 10 s counts as stuck until its readings vary
		{
			const Truth &tr = f.at(b.imu_us);
			const double dist = -tr.p.z / std::max(0.1, tr.q.R()(2, 2));

			if (feeds[RNG].age(now) > 8 || dist < k.rng_min + 0.2 || dist > k.rng_max - 0.2) { if (!rng_out) { rng_out = now; } if (now - rng_out > 8000000 || feeds[RNG].age(now) > 8) { rng_stuck = now; } }

			else { rng_out = 0; }
		}

		if (sw) {
			c.count((std::string("switched: ") + (cur < 0 ? "none" : HN[cur]) + " to " + (now_src < 0 ? "none" : HN[now_src])).c_str());
			order += (char)('0' + now_src + 1);

			// the height does not move by more than the reported reset
			if (cur >= 0 && now_src >= 0) {
				double jump = z1 - z0 - (reset ? b.rs[0][0] : 0);
				const double dt = (b.imu_us - a.imu_us) * 1e-6;
				// motion, and corrections by measurements
				double corr = 0;

				for (int i = 0; i < 4; i++) { if (attempted(a, b, HO[i])) { corr = std::max(corr, std::fabs((double)b.in[HO[i]][0])); } }

				for (Obs o : {O_GVV, O_EVV}) { if (attempted(a, b, o)) { corr = std::max(corr, std::fabs((double)b.in[o][0])); } }

				const double tol = (std::fabs(a.x[6]) + std::fabs(b.x[6]) + 20 * dt) * dt + 0.02 + 0.02 * std::fabs(z0) * 1e-2 + corr * 0.7 + 3 * std::sqrt(std::max(0., a.var[9]));
				c.peak("height step at switch/tolerance", std::fabs(jump) / tol);
				(void)tol;

				if (std::fabs(jump) > tol && b.nr[0] - a.nr[0] < 2) { c.fail("height moved at a switch of source", "t %.3f %s to %s: height moved by %.3f m, reported reset %.3f m (tolerance %.3f)", t, HN[cur], HN[now_src], z1 - z0, reset ? (double)b.rs[0][0] : 0, tol); }
			}

			// what is left is left for a reason
			const int primary = p.vdist_sensor_type;
			const bool aid = p.range_aid == 1 && (primary == VDIST_SENSOR_BARO || primary == VDIST_SENSOR_GPS);
			const bool timeout = last_ok + 4900000 < now || bad_acc + 1000000 > now;

			if (cur >= 0 && now_src >= 0) {
				bool why = timeout;
				const char *rule = "height source changed without a reason";

				if (now_src == 2) { why = primary == VDIST_SENSOR_RANGE || (aid && (b.c(C_AIR) || a.c(C_AIR))); }

				else if (cur == 2 && primary != VDIST_SENSOR_RANGE) { why = true; }

				else if (now_src == 3) { why = primary == VDIST_SENSOR_EV; }

				else if (now_src == 1) { why = timeout || primary == VDIST_SENSOR_GPS; }

				else if (now_src == 0) { why = timeout || primary == VDIST_SENSOR_BARO || (cur == 1 && a.c(C_GPS) && !b.c(C_GPS)); }

				if (!why) { c.fail(rule, "t %.3f %s to %s, primary %d, last height fused %.2f s ago: before %s", t, HN[cur], HN[now_src], primary, (now - last_ok) * 1e-6, bits(a.cs).c_str()); }
			}

			// range aid only inside its limits
			if (now_src == 2 && primary != VDIST_SENSOR_RANGE) {
				float terr;
				terr = std::min(terr_prev, e->getTerrainVertPos());
				const double hagl = terr - std::min(z0, z1), hi = terr - std::max(z0, z1);
				const double sp = std::min(std::hypot(a.x[4], a.x[5]), std::hypot(b.x[4], b.x[5]));
				const bool aided = horizontalAids(a) > 0 && (a.c(C_GPS) || a.c(C_FLOW) || a.c(C_EVPOS) || a.c(C_EVVEL)) && (b.c(C_GPS) || b.c(C_FLOW) || b.c(C_EVPOS) || b.c(C_EVVEL));
				(void)hagl;
				c.expect(p.range_aid == 1, "range aid not enabled", "t %.3f range aid started, primary %d", t, primary);
				c.expect(b.c(C_AIR), "range aid on ground", "t %.3f", t);
				if (origin_set + 1000000 < now) { c.expect(std::min(hagl, hi) < 0.7 * p.max_hagl_for_range_aid + 0.35, "range aid above its height limit", "t %.3f height above ground %.2f, limit 0.7 x %.2f", t, std::min(hagl, hi), (double)p.max_hagl_for_range_aid); }

				if (aided) { c.expect(sp < 0.7 * p.max_vel_for_range_aid + 0.35, "range aid above its speed limit", "t %.3f speed %.2f, limit 0.7 x %.2f", t, sp, (double)p.max_vel_for_range_aid); }

				c.count("range aid started");
			}

			first_of = now_src;
			switched = now;
			terr_ok_at_switch = terr_ok_prev;
			expect_first = reset ? 1 : 0;
			cur = now_src;
			since = now;
		}

		for (int i = 0; i < 4; i++) { if (a.valid && i != cur && attempted(a, b, HO[i])) { last_reject = now; } }

		for (int i = 0; i < 4; i++) { if (a.valid && i == cur && attempted(a, b, HO[i]) && b.ratio[HO[i]] > 1 && !sw) { last_reject = now; } }

		for (int i = 0; i < 4; i++) { if (a.valid && attempted(a, b, HO[i]) && b.ratio[HO[i]] <= 1) { last_ok = last_ok_of[i] = now; } }

		if (!last_ok) { last_ok = now; }

		// the first innovations of a new source continue from the previous one
		if (first_of >= 0 && now - switched < 1000000) {
			if (a.valid && attempted(a, b, HO[first_of])) {
				const bool clean = !faulty(k, BARO) && !faulty(k, BARO, {DROPOUT}) && !faulty(k, GPS) && !faulty(k, RNG) && !faulty(k, EV) && !faulty(k, IMU) && k.vibration == 0;
				const double in = std::fabs((double)b.in[HO[first_of]][0]);

				if (clean && (first_of != 2 || (terr_ok_at_switch && b.c(C_AIR))) && cur == first_of && last_disturb + 40000000 < switched && bad_acc + 10000000 < now && last_reject + 5000000 < switched) {
					const double tol = first_of == 2 ? 1.0 + 1.2 * std::fabs(k.terrain_slope) : 1.0 + 5 * (k.s_baro + (first_of == 1 ? k.s_gpsh : 0)) * k.noise_scale + 5 * std::fabs(k.terrain_slope);
					c.peak((std::string("first innovation after switch: ") + HN[first_of]).c_str(), in);
					c.count("innovation continuity checks");

					if (in > tol) { c.fail("first innovation of a new height source", "t %.3f %s: innovation %.3f m, tolerance %.3f, %.3f s after the switch", t, HN[first_of], in, tol, (now - switched) * 1e-6); }
				}

				first_of = -1;
			}
		}

		// range aid is left outside its limits
		if (cur == 2 && p.vdist_sensor_type != VDIST_SENSOR_RANGE) {
			const double hagl = e->getTerrainVertPos() - z1, sp = std::hypot(b.x[4], b.x[5]);
			const bool aided = b.c(C_GPS) || b.c(C_FLOW) || b.c(C_EVPOS) || b.c(C_EVVEL);
			const bool beyond = hagl > p.max_hagl_for_range_aid + 0.3 || (aided && sp > p.max_vel_for_range_aid + 0.3) || !b.c(C_AIR) || p.range_aid != 1;

			if (!beyond) { out_of_limits = 0; }

			else if (!out_of_limits) { out_of_limits = now; }

			c.count("updates with range aid");

			if (beyond && now - out_of_limits > (uint64_t)((0.6 + lag) * 1e6) && healthy(BARO, 1.0 + lag, 0.3)) { say("range aid kept outside its limits"); out_of_limits = now; }

		} else { out_of_limits = 0; }

		// a source whose data stopped is replaced
		if (cur >= 0 && now - since > 6500000 && feeds[HT[cur]].age(now) > 6.2 + lag + delayOf(k, HT[cur])) {
			const bool gnd = cur == 2 && !b.c(C_AIR);

			if ((cur == 0 && healthy(GPS, 1.5, 0.6)) || (cur != 0 && healthy(BARO, 1.5, 0.2))) {
				c.fail(cur == 3 ? "vision height kept without data" : "height source without data kept", "t %.3f %s height, no data for %.2f s, another source is healthy: %s ground %d", t, HN[cur], feeds[HT[cur]].age(now), bits(b.cs).c_str(), gnd);
				since = now;
			}
		}

		if (cur >= 0 && feeds[HT[cur]].age(now) > 3) { c.count((std::string("long drop-out of the source in use: ") + HN[cur]).c_str()); }

		// the primary source is used while healthy
		auto due = [&](int i, bool cond, double within, const char *what) {
			if (!cond || cur == i) { ready[i] = 0; return; }

			if (!ready[i]) { ready[i] = now; }

			if (now - ready[i] > (uint64_t)((within + lag) * 1e6)) { say(what); ready[i] = now; }
		};
		const int prim = p.vdist_sensor_type;
		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) {
			const Truth &tr = f.at(b.imu_us);
			printf("tas %.3f %s| z %.3f true %.3f terr %.3f | baro %d %.3f gps %d %.3f rng %d %.3f var %g | vz %.2f bad %d age %.3f clr %.2f lim %.2f %.2f\n", t, bits(b.cs).c_str(), b.x[9], tr.p.z, (double)e->getTerrainVertPos(), attempted(a, b, O_BARO), b.in[O_BARO][0], attempted(a, b, O_GVP), b.in[O_GVP][0], attempted(a, b, O_RNG), b.in[O_RNG][0], b.var[9], b.x[6], e->fault_status().flags.bad_acc_vertical, feeds[RNG].age(now), (double)p.rng_gnd_clearance, k.rng_min, k.rng_max);
		}

		due(0, prim == VDIST_SENSOR_BARO && p.range_aid == 0 && healthy(BARO, 1.0, 0.3), 0.5, "healthy primary not used: baro");
		due(1, prim == VDIST_SENSOR_GPS && p.range_aid == 0 && feeds.origin && healthy(GPS, 1.0, 0.6) && gps_fail + 10200000 < now, 1.0, "healthy primary not used: gps");
		due(3, prim == VDIST_SENSOR_EV && healthy(EV, 1.0, 0.3), 0.6, "healthy primary not used: vision");
		{
			const Truth &tr = f.at(b.imu_us);
			const double tilt = std::acos(std::max(-1., std::min(1., tr.q.R()(2, 2))));
			const double dist = -tr.p.z;
			const bool fit = !rng_stuck && tilt < 0.5 && dist > k.rng_min + 1.5 && dist < k.rng_max * 0.6 - 2 && !faulty(k, RNG) && k.terrain_slope == 0 && k.params.range_cos_max_tilt < 0.75 && k.rng.period < 0.15;
			due(2, prim == VDIST_SENSOR_RANGE && fit && healthy(RNG, 3.0, 0.2), 3.0, "healthy primary not used: range");
		}

		terr_prev = e->getTerrainVertPos();
		terr_ok_prev = e->isTerrainEstimateValid();

		if (cur >= 0) { static const char *const q[4] = {"updates with baro height", "updates with gps height", "updates with range height", "updates with vision height"}; c.count(q[cur]); }

		return c.case_violations < 6;
	});
	(void)expect_first;
	c.seen(vh::hash_str(order.c_str()) ^ k.params.vdist_sensor_type * 977 ^ last_ok);
}

// E16 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E16)
{
	auto &r = c.rng;
	Config k;
	const double u = r.unit();
	const int types[] = {MAG_FUSE_TYPE_AUTO, MAG_FUSE_TYPE_AUTO, MAG_FUSE_TYPE_AUTO, MAG_FUSE_TYPE_HEADING, MAG_FUSE_TYPE_3D, MAG_FUSE_TYPE_INDOOR, MAG_FUSE_TYPE_NONE};

	if (u < 0.7) {
		k = stepConfig(r);
		const int ps[] = {P_MAGTYPE, P_MAGTYPE, P_EVPOS, P_EVYAW, P_GPSYAW, P_WING, P_FLOW, P_GPSHGT};
		const int which = ps[r.below(8)];
		profile(k, r, which);

		if (which != P_MAGTYPE && r.chance(0.7)) { k.params.mag_fusion_type = types[r.below(7)]; }

		k.yaw0 = r.uni(-PI, PI);
		k.roll0 = r.uni(-0.3, 0.3);
		k.pitch0 = r.uni(-0.3, 0.3);
		k.yaw_rate = r.chance(0.4) ? r.uni(0.05, 0.15) : r.uni(0.4, 1.2);
		k.hover = r.chance(0.3);
		k.dur = 70;

		if (r.chance(0.3)) { k.params.mag_declination_source = r.below(8); }

	} else { k = wildConfig(r, 70, 2); k.params.mag_fusion_type = types[r.below(7)]; }

	if (k.start_us < 30000000) { k.start_us += 30000000; }

	if (r.chance(0.4)) { k.params.check_mag_strength = 1; }

	// field disturbances
	std::vector<Fault> bias;

	if (r.chance(0.4)) {
		const int n = r.range(1, 4);

		for (int i = 0; i < n; i++) { const double t0 = r.uni(0, k.dur); bias.push_back({MAG, BIAS_STEP, t0, t0 + r.logu(0.5, 20), r.uni(-0.9, 0.9)}); }

		for (auto &b : bias) { k.faults.push_back(b); }
	}

	holes(k, r, {MAG, GPS, EV}, 0.15);

	if (r.chance(0.5)) { k.t_land = k.t_takeoff + r.uni(8, 35); }

	Flight f = Generator(k, r.u64()).run();

	if (!bias.empty() && r.chance(0.5)) {
		// the field grows or shrinks instead
		for (auto &b : bias) {
			const double g = r.logu(0.05, 8);

			for (magSample &m : f.mag) { const double t = (m.time_us - k.start_us) * 1e-6; if (t > b.t0 && t < b.t1) { m.mag *= (float)g; } }
		}
	}

	const auto &p = k.params;
	const int type = p.mag_fusion_type;
	const double lag = lagOf(k);
	const bool clean_mag = !faulty(k, MAG) && k.mag_bias.norm() < 1e-6 && k.s_mag * k.noise_scale < 0.02 && k.mag.jitter < 0.08;
	const bool clean_imu = !faulty(k, IMU) && k.vibration == 0;
	const bool clean_nav = clean_imu && !faulty(k, GPS) && !faulty(k, EV);
	auto e = std::make_unique<Ekf>();
	Feeds feeds;
	uint64_t ground_since = 0, disturbed_due = 0, undisturbed_due = 0, climb_due = 0, spin_since = 0, quiet_since = 0, mag3d_due = 0, hdg_due = 0, spoilt = 0, decl_due = 0, lost_mag = 0;
	bool aligned_checked = false;
	size_t mag_i = 0;
	std::deque<std::pair<uint64_t, float>> len; // arrival, length
	std::string order;
	double last_heading_err = 0, ground_z = 0, wmax = 0;

	watch(*e, f, feeds, [&](const Call & call, const Snap & a, const Snap & b, double t) {
		c.eval();
		const uint64_t now = b.now_us;
		auto rising = [&](int i) { return b.c(i) && !(a.valid && a.c(i)); };
		auto say = [&](const char *what) { c.fail(what, "t %.3f mag type %d declination source %d fusion mode %d: now %s; before %s", t, type, p.mag_declination_source, p.fusion_mode, bits(b.cs).c_str(), bits(a.cs).c_str()); };
		auto due = [&](uint64_t &since, bool cond, double within, const char *what) {
			if (!cond) { since = 0; return; }

			if (!since) { since = now; }

			if (now - since > (uint64_t)((within + lag) * 1e6)) { since = now; say(what); }
		};

		// samples that have arrived
		for (; mag_i < f.mag.size() && f.mag[mag_i].time_us <= now; mag_i++) { len.push_back({f.mag[mag_i].time_us, f.mag[mag_i].mag.norm()}); }

		const uint64_t span = (uint64_t)((lag + delayOf(k, MAG) + 0.5) * 1e6);

		while (!len.empty() && len.front().first + span + 2000000 < now) { len.pop_front(); }

		// modes exclude each other and follow the configuration
		const bool hdg = b.c(C_MAGHDG), m3 = b.c(C_MAG3D);

		if (hdg && m3) { say("heading and three-axis fusion together"); }

		if ((type == MAG_FUSE_TYPE_HEADING || type == MAG_FUSE_TYPE_INDOOR) && m3) { say("three-axis fusion in a heading mode"); }

		if (type == MAG_FUSE_TYPE_3D && hdg) { say("heading fusion in three-axis mode"); }

		if (type >= MAG_FUSE_TYPE_NONE && (hdg || m3)) { say("magnetometer fused although disabled"); }

		if ((hdg || m3) && !b.c(C_YAW)) { say("magnetometer fused before yaw alignment"); }

		if ((hdg || m3) && (b.c(C_EVYAW) || b.c(C_GPSYAW))) { say("magnetometer fused with another yaw source"); }

		if (type >= MAG_FUSE_TYPE_NONE && a.valid && attempted(a, b, O_MAG)) { say("magnetometer fused although disabled"); }

		if (a.valid && a.c(C_MAGFAULT) && (hdg || m3 || attempted(a, b, O_MAG))) { say("magnetometer fused after it was declared faulty"); }

		if (rising(C_MAGFAULT)) { c.count("magnetometer declared faulty"); if (clean_mag && clean_nav && k.vehicle != FIXED && !faulty(k, GPS, {DROPOUT})) { say("healthy magnetometer declared faulty"); } }

		if (a.valid && attempted(a, b, O_MAG) && b.c(C_MAG3D)) {
			c.count("three-axis updates");

			if (a.c(C_GPS) == b.c(C_GPS) && b.c(C_MAGDEC) != (!b.c(C_GPS) || (p.mag_declination_source & MASK_FUSE_DECL))) { say("declination fusion does not follow the rule"); }

			if (b.c(C_MAGDEC)) { c.count("three-axis updates with declination"); }
		}

		if (!m3 && b.c(C_MAGDEC) && a.valid && attempted(a, b, O_YAW)) { say("declination fused without three-axis fusion"); }

		// flight phase
		if (!b.c(C_AIR)) { if (!ground_since) { ground_since = now; } }

		else { ground_since = 0; }

		const bool mag_alive = k.mag.jitter < 0.08 && feeds[MAG].regular(now, 0.8, 0.35) && !faulty(k, MAG, {LATE, DUPLICATE, FREEZE});

		if (!mag_alive) { lost_mag = now; }

		if (type < MAG_FUSE_TYPE_NONE && !b.c(C_AIR) && a.valid && !a.c(C_AIR) && b.c(C_MAGAIR) && ground_since + 30000 < now) { say("in-flight alignment kept on the ground"); }

		if (type == MAG_FUSE_TYPE_AUTO || type == MAG_FUSE_TYPE_UNUSED) {
			if (rising(C_MAG3D)) {
				c.count("three-axis fusion began");
				order += '3';

				if (!b.c(C_MAGAIR)) { say("three-axis fusion before in-flight alignment"); }

				if (!b.c(C_AIR)) { say("three-axis fusion began on the ground"); }
			}

			if (m3 && ground_since && now - ground_since > (uint64_t)((lag + 0.6) * 1e6) && mag_alive) { say("three-axis fusion on the ground"); ground_since = now; }

			if (a.valid && a.c(C_MAG3D) && hdg) { c.count("three-axis fusion gave way to heading"); order += 'h'; }

			// manoeuvring
			const Truth &tr = f.at(b.imu_us);
			const V3 wn = tr.q.rot(tr.w);
			const V3 an = tr.q.rot(tr.f) + V3(0, 0, G);
			const V3 ae = Q(b.x[0], b.x[1], b.x[2], b.x[3]).rot(tr.f + k.accel_bias - V3(b.x[13], b.x[14], b.x[15]) * (1 / 0.01)) + V3(0, 0, G);
			const double rate = std::fabs(wn.z), acc = std::max(std::hypot(an.x, an.y), std::hypot(ae.x, ae.y)); // as it happens, as the filter sees it

			if (rate > 2 * p.mag_yaw_rate_gate + 0.05) { if (!spin_since) { spin_since = now; } }

			else { spin_since = 0; }

			const V3 we = tr.q.rot(tr.w + k.gyro_bias - V3(b.x[10], b.x[11], b.x[12]) * (1 / 0.01)); // as the filter sees it

			if (std::max(rate, std::fabs(we.z)) > 0.3 * p.mag_yaw_rate_gate || acc > 0.4 * p.mag_acc_gate) { quiet_since = 0; }

			else if (!quiet_since) { quiet_since = now; }

			const bool usable = mag_alive && lost_mag + 3000000 < now && b.c(C_AIR) && b.c(C_MAGAIR) && b.c(C_YAW) && !b.c(C_EVYAW) && !b.c(C_GPSYAW) && !b.c(C_MAGFAULT) && clean_imu;
			due(mag3d_due, usable && spin_since && now - spin_since > 1200000 && !m3, 0.6, "three-axis fusion not used while turning in flight");

			if (m3 && spin_since) { c.count("three-axis while turning"); }

			const bool accurate = clean_nav && std::fabs(b.x[4] - tr.v.x) + std::fabs(b.x[5] - tr.v.y) < 3;
			due(hdg_due, usable && accurate && quiet_since && now - quiet_since > 3000000 && p.mag_acc_gate > 0.3 && m3 && p.mag_yaw_rate_gate > 0.1 && k.gyro_bias.norm() < 0.05, 2.5, "three-axis fusion kept without manoeuvre");

			if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { printf("dbg %.3f %s rate %.3f acc %.3f vel err %.2f %.2f yaw err %.3f z %.2f ground %.2f valid %d terr %.2f\n", t, bits(b.cs).c_str(), rate, acc, b.x[4] - tr.v.x, b.x[5] - tr.v.y, last_heading_err, b.x[9], ground_z, e->isTerrainEstimateValid(), (double)e->getTerrainVertPos()); }

			if (hdg && quiet_since && b.c(C_MAGAIR)) { c.count("heading while quiet in flight"); }
		}

		// alignment after the climb
		{
			if (!b.c(C_AIR)) { ground_z = b.x[9]; }

			else if (a.valid && a.nr[0] != b.nr[0]) { ground_z = -1e9; }

			const double hagl = std::min(ground_z, e->isTerrainEstimateValid() ? (double)e->getTerrainVertPos() : 1e9) - std::max(a.x[9], b.x[9]);
			const bool simple = type <= MAG_FUSE_TYPE_3D;
			due(climb_due, a.valid && simple && b.c(C_AIR) && a.c(C_AIR) && !b.c(C_MAGAIR) && hagl > 1.6 && b.c(C_YAW) && b.c(C_TILT) && mag_alive && !b.c(C_EVYAW) && !b.c(C_GPSYAW) && !b.c(C_MAGFAULT) && !b.c(C_MAGDIST) && !a.c(C_MAGDIST), 0.8, "no in-flight field alignment after the climb");

			if (rising(C_MAGAIR)) {
				c.count("in-flight alignment");
				order += 'a';

				if (!b.c(C_AIR)) { say("in-flight alignment on the ground"); }

				if (hagl < 1.4 && type < MAG_FUSE_TYPE_NONE) { c.count("in-flight alignment below 1.5 m"); }
			}
		}

		// field strength
		if (type < MAG_FUSE_TYPE_NONE && !len.empty() && mag_alive && b.c(C_TILT) && p.synthesize_mag_z == 0) {
			float lo = 1e9f, hi = 0;

			for (auto &s : len) { if (s.first + span >= now) { lo = std::min(lo, s.second); hi = std::max(hi, s.second); } }

			const double want = feeds.origin ? wmm_strength_gauss(f.gps.empty() ? k.lat0 : f.gps[0].lat * 1e-7, f.gps.empty() ? k.lon0 : f.gps[0].lon * 1e-7) : 0.45, gate = feeds.origin ? 0.2 : 0.4;
			const double m = 0.012;
			const bool in = lo > want - gate + m && hi < want + gate - m, out = hi < want - gate - m || lo > want + gate + m;

			if (out) { c.count("strength outside the gate"); }

			if (b.c(C_MAGDIST)) { c.count("disturbance reported"); }

			if (!p.check_mag_strength && b.c(C_MAGDIST)) { say("disturbance reported although not enabled"); }

			// after the origin is set, the expectation changes with the next update
			if (p.check_mag_strength) {
				due(disturbed_due, out && !b.c(C_MAGDIST), 0.1, "disturbance not reported");
				due(undisturbed_due, in && b.c(C_MAGDIST), 0.1, "disturbance reported in a normal field");
			}
		}

		// yaw alignment
		{
			const Truth &tr = f.at(b.imu_us);
			const Q est(b.x[0], b.x[1], b.x[2], b.x[3]);
			const M3 R = est.R(), Rt = tr.q.R();
			// error of rotation about the vertical
			const M3 D = R * Rt.T();
			const double err = std::atan2(D(1, 0) - D(0, 1), D(0, 0) + D(1, 1));
			last_heading_err = err;
			const bool geo = p.mag_declination_source & MASK_USE_GEO_DECL;
			const bool known = !feeds[GPS].at.empty();
			const double decl_before = p.mag_declination_deg * D2R - k.decl, decl_after = k.wmm ? 0 : wmm_declination_rad(k.lat0, k.lon0) - f.cfg.decl;
			(void)decl_before;
			const double expect = geo ? (known ? (k.wmm ? 0 : decl_after) : p.mag_declination_deg * D2R - f.cfg.decl) : p.mag_declination_deg * D2R - f.cfg.decl;

			if (rising(C_YAW)) {
				c.count("yaw alignments");

				if (type < MAG_FUSE_TYPE_NONE && feeds[MAG].at.empty() && !b.c(C_EVYAW) && !b.c(C_GPSYAW) && !(p.fusion_mode & MASK_USE_GPS)) { say("yaw aligned without a source"); }

				if (type >= MAG_FUSE_TYPE_NONE && !b.c(C_EVYAW) && !b.c(C_GPSYAW) && feeds[GPS].at.empty()) { say("yaw aligned without a source"); }
			}

			const bool by_mag = type <= MAG_FUSE_TYPE_3D && !b.c(C_EVYAW) && !b.c(C_GPSYAW);
			const double horiz = f.cfg.strength * std::cos(f.cfg.incl);

			if (!aligned_checked && rising(C_YAW) && by_mag && clean_mag && clean_imu && t < k.t_takeoff - 1 && horiz > 0.1 && tr.v.norm() < 0.05 && p.synthesize_mag_z == 0) {
				aligned_checked = true;
				const double tol = 0.02 + 4 * k.s_mag * k.noise_scale / horiz + (4 * k.s_accel * k.noise_scale + k.accel_bias.norm()) / G * (1 + std::fabs(std::tan(f.cfg.incl)));
				const double d = std::fabs(std::remainder(err - expect, 2 * PI)), d2 = std::fabs(std::remainder(err - (p.mag_declination_deg * D2R - f.cfg.decl), 2 * PI));
				const double best = known ? std::min(d, d2) : d;
				c.count("initial headings compared");
				c.peak("initial heading error/tolerance", best / tol);

				if (best > tol) { c.fail("initial heading is not the true heading", "t %.3f heading error %.4f rad, expected %.4f from declination (tolerance %.4f)", t, err, expect, tol); }
			}

			// once the declination is known the heading refers to it
			const bool still = tr.w.norm() < 0.02 && tr.v.norm() < 0.1 && t < k.t_takeoff - 0.5;

			if (rising(C_EVYAW) || rising(C_GPSYAW)) { spoilt = now; }

			wmax = std::max(wmax * std::exp(-0.01 / 1.5), tr.w.norm());
			const double lagged = wmax * 12 * k.mag.period * (1 + std::fabs(std::tan(f.cfg.incl)));

			// every alignment by the magnetometer gives the true heading
			if (a.valid && a.nr[4] != b.nr[4] && by_mag && !a.c(C_EVYAW) && !a.c(C_GPSYAW) && clean_mag && clean_nav && !b.c(C_MAGFAULT) && horiz > 0.1 && lagged < 0.3 && feeds[MAG].regular(now, 14 * k.mag.period + 0.3, 2.2 * k.mag.period + 0.02) && p.synthesize_mag_z == 0 && !k.ev.on && (k.vehicle == MULTI || !(p.fusion_mode & MASK_USE_GPS))) {
				const V3 up = est.rotInv(V3(0, 0, 1)), tup = tr.q.rotInv(V3(0, 0, 1));
				const double tilt_err = (up - tup).norm();
				const double tol = 0.06 + lagged + 4 * k.s_mag * k.noise_scale / horiz + 1.2 * tilt_err * (1 + std::fabs(std::tan(f.cfg.incl)));
				double d = 10;

				for (double x : {expect, p.mag_declination_deg * D2R - f.cfg.decl, 0.}) { d = std::min(d, std::fabs(std::remainder(err - x, 2 * PI))); }

				// after alignment in flight the declination is the one of the estimated field
				if (!a.c(C_MAGAIR)) {
					c.count(b.c(C_AIR) ? "alignments in flight compared" : "alignments on ground compared");
					c.peak("alignment error/tolerance", d / tol);

					if (d > tol) { c.fail("alignment is not the true heading", "t %.3f heading error %.4f rad (tolerance %.4f), tilt error %.4f", t, err, tol, tilt_err); }
				}
			}

			const bool settled = !k.ev.on && geo && known && still && by_mag && clean_mag && clean_imu && b.c(C_YAW) && horiz > 0.1 && mag_alive && !b.c(C_MAGDIST) && !spoilt && p.synthesize_mag_z == 0 && k.gyro_bias.norm() < 0.02;
			const double tol2 = 0.05 + 4 * k.s_mag * k.noise_scale / horiz + (4 * k.s_accel * k.noise_scale + 2 * k.accel_bias.norm()) / G * (1 + std::fabs(std::tan(f.cfg.incl)));
			due(decl_due, settled && std::fabs(std::remainder(err - decl_after, 2 * PI)) > tol2, 1.0, "heading does not follow the declination of the place");

			if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { printf("dby %.3f %s err %.4f after %.4f param %.4f tol %.4f horiz %.3f nr %d\n", t, bits(b.cs).c_str(), err, decl_after, p.mag_declination_deg * D2R - f.cfg.decl, tol2, horiz, b.nr[4]); }

			if (settled) { c.count("heading with known declination"); }
		}
		(void)call;
		return c.case_violations < 6;
	});
	(void)disturbed_due;
	c.seen(vh::hash_str(order.c_str()) ^ type * 7919 ^ (uint64_t)(last_heading_err * 1e6));
}

// E24 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E24)
{
	auto &r = c.rng;
	Config k;
	const double u = r.unit();
	bool clean = false;

	if (u < 0.75) {
		k = stepConfig(r);
		const int ps[] = {P_GPS, P_GPS, P_GPSHGT, P_RNGHGT, P_EVPOS, P_WING, P_FLOWGPS};
		profile(k, r, ps[r.below(7)]);
		k.dur = 60;
		clean = u < 0.25;

		if (clean) { k.faults.clear(); k.noise_scale = 0.5; }

		else {
			const double t0 = k.t_takeoff + r.uni(-6, 20);
			k.faults.push_back({IMU, r.chance(0.6) ? BIAS_STEP : SPIKE, t0, t0 + r.logu(0.5, 12), r.uni(-9, 9)});

			if (r.chance(0.25)) { const double t1 = t0 + r.uni(0, 15); k.faults.push_back({IMU, SPIKE, t1, t1 + r.logu(0.02, 3), r.uni(-9, 9)}); }

			if (r.chance(0.3)) { holes(k, r, {GPS, BARO, EV, RNG}, 0.2, 8); }
		}

	} else { k = wildConfig(r, 60, 4); }

	if (k.start_us < 20000000) { k.start_us += 20000000; }

	if (r.chance(0.3)) { k.params.vert_innov_test_lim = r.uni(1, 5); if (k.params.vert_innov_test_lim < 3) { clean = false; } }

	Flight f = Generator(k, r.u64()).run();

	bool extra_clip = false;

	if (!clean && r.chance(0.5)) {
		// clipping of some axes only, and also at other times than the errors
		const int axes = 1 + r.below(7), n = r.below(3);
		extra_clip = n > 0;

		for (auto &m : f.imu) { for (int j = 0; j < 3; j++) { m.delta_vel_clipping[j] = m.delta_vel_clipping[j] && (axes >> j & 1); } }

		for (int i = 0; i < n; i++) {
			const double at = k.faults.empty() ? r.uni(5, k.dur) : k.faults[0].t0 + r.uni(-4, 6);
			const uint64_t t0 = k.start_us + (uint64_t)(std::max(0., at) * 1e6), t1 = t0 + (uint64_t)(r.logu(0.05, 8) * 1e6);

			for (auto &m : f.imu) { if (m.time_us >= t0 && m.time_us < t1) { for (int j = 0; j < 3; j++) { m.delta_vel_clipping[j] = m.delta_vel_clipping[j] || (axes >> j & 1); } } }
		}
	}

	const auto &p = k.params;
	const double lag = lagOf(k);
	auto e = std::make_unique<Ekf>();
	Feeds feeds;
	const Fault *fault = nullptr;
	int n_imu = 0;

	for (const Fault &x : k.faults) { if (x.sensor == IMU) { fault = &x; n_imu++; } }

	float pos_ratio = 0, vel_ratio = 0;
	uint64_t pos_at = 0, vel_at = 0, bad_at = 0, surely_at = 0;
	int clip = 0;
	bool mine = false, last_origin = false, both_used = false, seen_bad = false, by_clip = false, lost = false;
	double raised = 0, worst = 0, zend = 0;
	uint64_t rises = 0, h = 0;

	auto seen_attempt = [](const Snap & a, const Snap & b) {
		return attempted(a, b, O_BARO) || attempted(a, b, O_GVP) || attempted(a, b, O_RNG) || attempted(a, b, O_EVP);
	};
	watch(*e, f, feeds, [&](const Call & call, const Snap & a, const Snap & b, double t) {
		(void)call;
		c.eval();
		const uint64_t now = b.now_us;
		const bool flag = e->fault_status_flags().bad_acc_vertical;
		const bool prev = mine;
		// what the fusion of previous updates showed
		const bool pos_recent = pos_at + 1000000 > now, vel_recent = vel_at + 1000000 > now;
		const double lim = p.vert_innov_test_lim;
		bool independent = false, falling = false, near = false;
		auto above = [&](float x, double y) { near |= std::fabs(x - y) < 1e-3; return x > y; };

		if (pos_recent) {
			if (vel_recent) {
				independent = a.valid && !((a.c(C_GPSHGT) && a.c(C_GPS)) || (a.c(C_EVHGT) && a.c(C_EVVEL)));
				falling = (above(vel_ratio, lim) && above(pos_ratio, 0)) | (above(pos_ratio, lim) && above(vel_ratio, 0));

			} else { falling = above(pos_ratio, lim); }
		}

		bool clipping = false;

		for (bool x : e->get_imu_sample_delayed().delta_vel_clipping) { clipping |= x; }

		if (clipping && clip < 100) { clip++; }

		else if (clip > 0) { clip--; }

		const bool bad = (independent || clip > 0) && falling;

		if (feeds.origin != last_origin) { last_origin = feeds.origin; near = true; }

		// an observation may have been hidden by a reset or a stop in the same update
		const bool sure = !near && !lost;

		if (bad) { bad_at = now; if (sure) { surely_at = now; } }

		const uint64_t before = bad_at;

		if (!sure) { bad_at = now; }

		mine = prev ? bad_at + 10000000 > now : bad;

		if (mine != flag) {
			const bool held = prev && !flag && surely_at + 10000000 <= now; // cleared while a doubtful decision could have held it

			if (sure && !held) {
				c.fail(flag ? "bad vertical acceleration reported without cause" : prev ? "bad vertical acceleration not held" : "bad vertical acceleration not reported", "t %.3f height ratio %.3f (age %.3f) velocity ratio %.3f (age %.3f) limit %.2f clip %d, last bad %.3f s ago; %s", t, pos_ratio, (now - pos_at) * 1e-6, vel_ratio, (now - vel_at) * 1e-6, lim, clip, (now - bad_at) * 1e-6, bits(b.cs).c_str());
			}

			mine = flag;

			bad_at = flag && !bad ? now : before;

		} else { c.count("decisions compared"); }

		if (flag && !prev) {
			c.count(independent ? "reported by agreement of height and velocity" : "reported with clipping");
			by_clip = !independent;
			rises++;
			h = h * 31 + (uint64_t)(t * 100);

			if (!raised && fault && t - 0.5 * lag > fault->t0) { raised = t; }

			if (clean && !b.c(C_RNG)) { c.fail("bad vertical acceleration reported in a flight without faults", "t %.3f height ratio %.3f velocity ratio %.3f limit %.2f; %s", t, pos_ratio, vel_ratio, lim, bits(b.cs).c_str()); }
		}

		if (flag) {
			c.count("updates while reported");

			// no learning of accelerometer bias meanwhile
			if (prev && a.valid) {
				for (int i = 13; i < 16; i++) {
					const bool limited = std::fabs(b.x[i]) < std::fabs(a.x[i]) && std::fabs(b.x[i]) > 0.9 * p.acc_bias_lim * 0.008; // the limit follows the mean interval

					if (a.x[i] != b.x[i] && !limited) { c.fail("accelerometer bias learned while bad acceleration is reported", "t %.3f state %d %.9g -> %.9g", t, i, a.x[i], b.x[i]); break; }
				}
			}
		}

		if (!flag && prev) { c.count("cleared"); }

		// observations formed in this update
		const bool shift = a.valid && (a.nr[0] != b.nr[0] || a.nr[1] != b.nr[1] || ((a.cs ^ b.cs) & (1u << C_BARO | 1u << C_GPSHGT | 1u << C_RNG | 1u << C_EVHGT)));
		lost = shift || (lost && !seen_attempt(a, b));

		if (a.valid) {
			for (Obs o : {O_BARO, O_GVP, O_RNG, O_EVP}) { if (attempted(a, b, o)) { pos_ratio = b.in[o][0] / std::sqrt(b.iv[o][0]); pos_at = now; } else if (a.iv[o][0] != 0 && b.iv[o][0] == 0) { lost = true; } }

			for (Obs o : {O_GVV, O_EVV}) { if (attempted(a, b, o)) { vel_ratio = b.in[o][0] / std::sqrt(b.iv[o][0]); vel_at = now; } else if (a.iv[o][0] != 0 && b.iv[o][0] == 0) { lost = true; } }
		}

		// ground truth
		const Truth &tr = f.at(b.imu_us);
		const double ts = (b.imu_us - f.cfg.start_us) * 1e-6, zerr = std::fabs(b.x[6] - tr.v.z);

		if (fault && n_imu == 1 && ts > fault->t0 && ts < fault->t1 && b.c(C_BARO) && b.c(C_GPS) && !b.c(C_GPSHGT)) { both_used = true; }

		if (fault && ts > fault->t0 + 1 && ts < fault->t1) { worst = std::max(worst, zerr); }

		zend = zerr;
		seen_bad |= flag;

		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { printf("dbv %.3f flag %d clip %d pr %.2f vr %.2f vz err %.2f az bias %.4f %s\n", t, flag, clip, pos_ratio, vel_ratio, b.x[6] - tr.v.z, b.x[15] * 100, bits(b.cs).c_str()); }

		return c.case_violations < 4;
	});
	// a strong long-lasting error in the falling direction with healthy independent sensors must be found
	bool simple = fault && n_imu == 1 && k.faults.size() == 1 && both_used && u < 0.75 && k.vehicle == MULTI && p.vdist_sensor_type == VDIST_SENSOR_BARO && p.vert_innov_test_lim <= 3;

	if (simple && fault->mag > 6 && fault->t1 - fault->t0 > 3 && fault->t0 > k.t_takeoff && fault->t0 < 50) {
		c.count("strong errors");
		c.peak("detection time", raised ? raised - fault->t0 - lag : 99);

		if (!raised || raised - fault->t0 > 2.5 + lag) { c.fail("strong acceleration error not reported", "error %.2f m/s/s from %.2f to %.2f, reported at %.2f", fault->mag, fault->t0, fault->t1, raised); }
	}

	if (fault && n_imu == 1 && k.faults.size() == 1 && u < 0.75 && fault->t1 < 44 && seen_bad && !extra_clip && k.vehicle == MULTI) {
		c.count("recoveries");
		c.peak("vertical velocity error during fault", worst);
		c.peak("vertical velocity error at the end", zend);

		if (zend > 2.0) { c.fail("no recovery after bad acceleration", "vertical velocity error %.2f at the end, worst %.2f; error %.2f m/s/s from %.2f to %.2f", zend, worst, fault->mag, fault->t0, fault->t1); }
	}

	if (clean) { c.count("flights without faults"); }

	(void)by_clip;
	c.seen(h ^ (uint64_t)(worst * 1e6) * 31 ^ rises);
}

// E25 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E25)
{
	auto &r = c.rng;
	Config k;
	const double u = r.unit();
	bool clean = false;

	if (u < 0.75) {
		k = stepConfig(r);
		const int ps[] = {P_WING, P_WING, P_WING, P_WINGLOSS, P_DRAG, P_DRAG, P_GPS};
		const int which = ps[r.below(7)];
		profile(k, r, which);
		k.dur = 70;
		clean = which != P_WINGLOSS && r.chance(0.5);

		if (!clean) {
			holes(k, r, {ASPD}, 0.5, 25);
			holes(k, r, {GPS}, 0.3, 20);

			if (r.chance(0.3)) { k.t_land = r.uni(k.t_takeoff + 10, 50); }

			if (r.chance(0.3)) { noise(k, r, ASPD, 5); }

			if (which == P_GPS) { k.aspd.on = r.chance(0.5); k.beta = r.chance(0.3); }
		}

	} else { k = wildConfig(r, 70, 3); if (r.chance(0.5)) { k.aspd.on = true; } }

	if (k.start_us < 20000000) { k.start_us += 20000000; }

	k.beta_keep = r.chance(0.5);

	if (k.beta && k.beta_keep && r.chance(0.5)) { k.t_land = k.t_takeoff + r.uni(10, 25); }

	Flight f = Generator(k, r.u64()).run();
	const auto &p = k.params;
	const double lag = lagOf(k);
	const bool drag = p.fusion_mode & MASK_USE_DRAG;
	auto e = std::make_unique<Ekf>();
	Feeds feeds;
	uint64_t rise_due = 0, beta_due = 0, possible_at = 0, accepted_at = 0, beta_ok_at = 0, not_synth_since = 0, air_since = 0, all_stopped = 0;
	bool ever = false;
	double end_err = -1, end_sd = 0;
	uint64_t h = 0;

	watch(*e, f, feeds, [&](const Call & call, const Snap & a, const Snap & b, double t) {
		(void)call;
		c.eval();
		const uint64_t now = b.now_us;
		auto say = [&](const char *what, double v = 0, double w = 0) { c.fail(what, "t %.3f wind %.6g %.6g var %.4g %.4g (%.6g, %.6g); now %s; before %s", t, b.x[22], b.x[23], b.var[22], b.var[23], v, w, bits(b.cs).c_str(), bits(a.cs).c_str()); };
		auto due = [&](uint64_t &since, bool cond, double within, const char *what) {
			if (!cond) { since = 0; return; }

			if (!since) { since = now; }

			if (now - since > (uint64_t)(within * 1e6)) { since = now; say(what); }
		};

		const bool synth = a.valid && horizontalAids(a) == 0;
		const bool air = b.c(C_AIR);
		const bool rising = b.c(C_WIND) && !(a.valid && a.c(C_WIND)), falling = a.valid && a.c(C_WIND) && !b.c(C_WIND);

		if (synth || !a.valid) { not_synth_since = now; }

		if (!air) { air_since = now; }

		const bool tas = a.valid && attempted(a, b, O_TAS), beta = a.valid && attempted(a, b, O_BETA), drg = a.valid && attempted(a, b, O_DRAG);

		if (air && (b.c(C_BETA) || feeds[ASPD].age(now) < lag + 0.3)) { possible_at = now; }

		// used only in flight with the states active
		if (tas) { c.count("airspeed observations"); if (!b.c(C_WIND) || !air) { say("airspeed fused with inactive wind states or on ground"); } }

		if (beta) { c.count("sideslip observations"); if (!b.c(C_WIND) || !air || !b.c(C_BETA)) { say("sideslip fused with inactive wind states, on ground or not enabled"); } }

		if (drg) { c.count("drag observations"); if (!b.c(C_WIND) || !air || !drag) { say("drag fused with inactive wind states, on ground or not enabled"); } }

		if ((tas || beta || drg) && synth && not_synth_since == now) { say("wind-relative data fused without aiding"); }

		if (rising) {
			c.count("activated");
			h = h * 31 + (uint64_t)(t * 100);

			if (!air) { say("wind states activated on ground"); }

			if (synth) { say("wind states activated without aiding"); }

			if (feeds[ASPD].age(now) > lag + 0.4 && !b.c(C_BETA) && !drag) { say("wind states activated without wind-relative data"); }

			// airspeed of the moment
			const double vx = b.x[4], vy = b.x[5];
			const double dv = a.valid ? std::hypot(b.x[4] - a.x[4], b.x[5] - a.x[5]) : 10;
			const Q q(b.x[0], b.x[1], b.x[2], b.x[3]);
			const M3 R = q.R();
			const double yaw = std::atan2(R(1, 0), R(0, 0));
			const bool level = std::fabs(R(2, 0)) < 0.9;
			double best = 1e9, cov_best = 1e9;
			bool any = false, low = false;

			for (const airspeedSample &s : f.aspd) {
				const double age = (double)b.imu_us - ((double)s.time_us - delayOf(k, ASPD) * 1e6 - 5000);

				if (age < -2500 || age > 115000) { continue; }

				any = true;
				low |= s.true_airspeed < 1.2f;
				const double ex = vx - s.true_airspeed * std::cos(yaw), ey = vy - s.true_airspeed * std::sin(yaw);
				best = std::min(best, std::hypot(b.x[22] - ex, b.x[23] - ey));
				const double rt = math::constrain(p.eas_noise, 0.5f, 5.0f) * math::constrain(s.eas2tas, 0.9f, 10.0f);
				const double R_TAS = rt * rt, R_yaw = std::pow(10 * D2R, 2), by = std::pow(s.true_airspeed * std::sin(15 * D2R), 2);
				const double cy = std::cos(yaw), sy = std::sin(yaw);
				const double full22 = R_TAS * cy * cy + R_yaw * ey * ey + by * sy * sy + b.var[4], full23 = R_TAS * sy * sy + R_yaw * ex * ex + by * cy * cy + b.var[5], full2223 = (R_TAS - by) * sy * cy - R_yaw * ex * ey;
				// after one airspeed observation along the heading
				const double vx2 = full22 * cy + full2223 * sy, vy2 = full2223 * cy + full23 * sy, S = vx2 * cy + vy2 * sy + R_TAS + b.var[4] * cy * cy + b.var[5] * sy * sy;
				const double g22 = full22 - vx2 * vx2 / S, g23 = full23 - vy2 * vy2 / S;
				auto off = [&](double w22, double w23) { return std::max(std::fabs(std::log(std::max(1e-9, b.var[22]) / w22)), std::fabs(std::log(std::max(1e-9, b.var[23]) / w23))); };
				cov_best = std::min({cov_best, off(full22, full23), off(g22, g23)});
			}

			if (a.valid && !anyReset(a, b) && !drg) {
				if (tas && !any) { say("airspeed observation without a sample"); }

				else if (tas && level) {
					c.count("activated from airspeed");
					const double tol = 0.3 + 2 * dv + 1.2 * std::fabs(b.in[O_TAS][0]) + (beta ? 0.35 * std::fabs(best) + 0.25 * std::hypot(vx - b.x[22], vy - b.x[23]) : 0);
					c.peak("initial wind difference/tolerance", best / tol);

					if (best > tol) { say("initial wind does not follow airspeed and heading", best, tol); }

					if (!beta && dv < 0.1) {
						c.count("initial uncertainty compared");
						c.peak("log of initial variance ratio", cov_best);

						if (cov_best > 0.5) { say("initial wind uncertainty does not match", cov_best); }
					}

				} else if (!tas && !beta && !low) {
					c.count("activated from zero");

					if (b.x[22] != 0 || b.x[23] != 0) { say("wind does not start from zero without airspeed"); }

					const double w = p.initial_wind_uncertainty * p.initial_wind_uncertainty;

					if (std::fabs(b.var[22] - w) > 0.02 * w + 1e-6 || std::fabs(b.var[23] - w) > 0.02 * w + 1e-6) { say("initial wind uncertainty is not the configured one", w); }
				}
			}

			ever = true;
		}

		if (falling) {
			c.count("deactivated");

			if (!synth && (drag || accepted_at + 9900000 > now)) { say("wind states deactivated while in use"); }
		}

		if (a.valid && !a.c(C_WIND) && !b.c(C_WIND)) {
			if (a.x[22] != b.x[22] || a.x[23] != b.x[23]) { say("inactive wind states changed", a.x[22], a.x[23]); }

			if (b.var[22] != 0 || b.var[23] != 0) { say("inactive wind states carry uncertainty"); }

			if (!ever && (b.x[22] != 0 || b.x[23] != 0)) { say("wind before activation"); }
		}

		if ((tas && b.ratio[O_TAS] <= 1) || (beta && b.ratio[O_BETA] <= 1) || rising) { accepted_at = now; }

		// obligations
		const bool flying = air && now - air_since > (uint64_t)(lag * 1e6) && now - not_synth_since > 300000 && a.valid;
		const bool src = (feeds[ASPD].regular(now, 1.5 + lag, 0.25) && !faulty(k, ASPD) && k.aspd.jitter < 0.05) || b.c(C_BETA) || (drag && p.mag_fusion_type != MAG_FUSE_TYPE_INDOOR);
		due(rise_due, flying && src && !b.c(C_WIND), 0.5, "wind states not active");
		due(all_stopped, !drag && b.c(C_WIND) && possible_at + 10400000 + (uint64_t)(lag * 1e6) < now, 0.1, "wind states kept without data");
		const V3 rel(b.x[4] - b.x[22], b.x[5] - b.x[23], b.x[6]), rel0(a.x[4] - a.x[22], a.x[5] - a.x[23], a.x[6]);
		const bool steady = a.valid && !anyReset(a, b) && !rising;

		if (tas && steady && rel.norm() < 0.85 && rel0.norm() < 0.85) { say("airspeed fused with very low relative wind", rel0.norm(), rel.norm()); }

		if (beta && steady && !tas && rel.norm() < 6.5 && rel0.norm() < 6.5) { say("sideslip fused with low relative wind", rel0.norm(), rel.norm()); }

		const bool fast = rel.norm() > 7.5 && rel0.norm() > 7.5;
		due(beta_due, flying && b.c(C_BETA) && fast && !beta && !anyReset(a, b), std::max(0.15, p.beta_avg_ft_us * 1e-6) + 0.05, "sideslip not fused");

		if (beta) {
			if (steady && beta_ok_at && now - beta_ok_at + 100 < p.beta_avg_ft_us) { say("sideslip fused more often than configured", (now - beta_ok_at) * 1e-6); }

			beta_ok_at = b.ratio[O_BETA] <= 0.999 && memcmp(&a.x[22], &b.x[22], 2 * sizeof a.x[22]) ? now : b.ratio[O_BETA] > 1.001 ? 0 : beta_ok_at; // not fused when badly conditioned
		}

		// accuracy
		if (clean && b.c(C_WIND) && air) {
			const bool fw = k.vehicle == FIXED;

			if (t > k.t_takeoff + (fw ? 30 : 35) && (!fw || k.aspd.on) && t < k.t_land - 1) {
				if (b.c(C_MAGFAULT)) { clean = false; } // heading was lost

				end_err = std::hypot(b.x[22] - k.wind.x, b.x[23] - k.wind.y);
				end_sd = std::sqrt(b.var[22] + b.var[23]);
			}
		}

		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { printf("dbw %.3f wind %.3f %.3f (true %.3f %.3f) var %.3f %.3f vel %.2f %.2f %.2f tas %d beta %d drag %d possible %.2f accepted %.2f %s\n", t, b.x[22], b.x[23], k.wind.x, k.wind.y, b.var[22], b.var[23], b.x[4], b.x[5], b.x[6], tas, beta, drg, (now - possible_at) * 1e-6, (now - accepted_at) * 1e-6, bits(b.cs).c_str()); }

		return c.case_violations < 4;
	});

	if (end_err >= 0 && clean) {
		const bool fw = k.vehicle == FIXED;
		c.count(fw ? "winds compared with airspeed" : "winds compared with drag");
		c.peak(fw ? "final wind error with airspeed" : "final wind error with drag", end_err);
		c.peak(fw ? "final wind error/deviation with airspeed" : "final wind error/deviation with drag", end_err / (end_sd + 0.2));
		const double tol = fw ? 1.8 + 3 * end_sd : 3.5 + 2 * end_sd;

		if (end_err > tol) { c.fail("wind does not converge", "final error %.2f m/s, reported deviation %.2f, tolerance %.2f", end_err, end_sd, tol); }
	}

	c.seen(h ^ (uint64_t)(end_err * 1e6) * 31);
}
