// E19: terrain estimate and control limits against a reference fed with the same samples, and against simulated truth
#include "shadow.hpp"
#include "modes.hpp"
using namespace sim;

namespace
{
// whether a range sample is usable, from the samples and the attitude only
struct RangeHealth {
	double lpf{0}, min{0}, max{0};
	uint64_t stamp{0}, bad_at{0}, valid_at{0};
	bool regular{false}, stuck{false}, unsure{false}, was_valid{false};
	double smin{0}, smax{0};

	// returns whether the sample that became due is used
	bool step(uint64_t now, bool due, uint64_t t, const rangeSample &s, double ct, const parameters &p)
	{
		unsure = false;

		if (due) { stamp = t; }

		lpf = std::min(4e6, lpf * 0.995 + 0.005 * (double)(now - stamp));

		if (now - stamp > 400000 || lpf >= 2e6) { regular = false; was_valid = false; if (std::fabs(lpf - 2e6) < 200) { unsure = true; } return false; }

		if (std::fabs(lpf - 2e6) < 200) { unsure = true; }

		regular = true;

		if (!due) { return false; }

		was_valid = false;

		if (s.quality == 0) { bad_at = now; return false; }

		if (now - bad_at <= (uint64_t)(p.range_valid_quality_s * 1e6f)) { return false; }

		if (std::fabs(ct - p.range_cos_max_tilt) < 2e-4) { unsure = true; }

		if (!(ct > p.range_cos_max_tilt) || !(s.rng >= (float)min && s.rng <= (float)max)) { return false; }

		if (stamp - valid_at > 10000000) {
			// no valid data for ten seconds: has to vary first
			if (smax - smin > 0.1) { smin = smax = 0; stuck = false; }

			else {
				if (std::fabs(smax - smin - 0.1) < 1e-5) { unsure = true; }

				smax = std::max(smax, (double)s.rng);

				if (smin < 0.1 || s.rng < smin) { smin = s.rng; }

				stuck = true;
			}
		}

		if (stuck) { return false; }

		valid_at = stamp;
		was_valid = true;
		return true;
	}
};
double tiltOf(const Q &q) { return acos(std::max(-1.0, std::min(1.0, q.R()(2, 2)))); }
double tiltOf(const double *x) { return tiltOf(Q(x[0], x[1], x[2], x[3])); }
}

VH_CHECK(E19)
{
	auto &r = c.rng;
	Config k = stepConfig(r);
	auto &p = k.params;
	const int ps[] = {P_GPS, P_RNGHGT, P_FLOW, P_FLOWGPS, P_GPS, P_GPSHGT, P_EVPOS, P_EVVEL};
	const int prof = ps[r.below(8)];
	profile(k, r, prof);
	lowMulti(k, r);
	k.dur = r.uni(40, 80);

	if (r.chance(0.2)) { k.height = r.uni(10, 40); }

	k.rng.on = r.chance(0.93);
	k.rng.period = r.uni(0.105, 0.16);
	k.rng.delay = p.range_delay_ms * 1e-3;
	k.rng_min = r.chance(0.6) ? 0.1 : r.uni(0.1, 1);
	k.rng_max = r.chance(0.5) ? 80 : r.uni(4, 30);
	k.accel = r.uni(1, 4);
	k.terrain_slope = r.chance(0.4) ? r.uni(-0.5, 0.5) : 0;
	p.rng_gnd_clearance = r.uni(0.05, 0.5);
	k.terrain = p.rng_gnd_clearance;
	p.terrain_p_noise = r.logu(0.05, 10);
	p.terrain_gradient = r.uni(0, 1);
	p.range_noise = r.logu(0.05, 0.5);
	p.range_noise_scaler = r.chance(0.5) ? r.uni(0, 0.1) : 0;
	p.range_innov_gate = r.uni(0.5, 6);
	p.range_valid_quality_s = r.uni(0, 2);
	p.range_cos_max_tilt = r.chance(0.6) ? 0.7071 : r.uni(0.9, 0.999);
	p.vehicle_variance_scaler = r.chance(0.5) ? 0 : r.uni(0, 2);
	p.terrain_fusion_mode = r.chance(0.7) ? 3 : (int)r.below(4);
	p.range_aid = r.chance(0.25);
	p.max_hagl_for_range_aid = r.uni(2, 20);
	p.max_vel_for_range_aid = r.uni(0.5, 6);

	if (r.chance(0.3)) { p.rng_sens_pitch = r.uni(-0.3, 0.3); }

	if (r.chance(0.4)) {
		k.flow.on = true;
		p.flow_qual_min = (int32_t)r.range(0, 100);
		k.flow_quality = (uint8_t)r.range(p.flow_qual_min, 255);
	}

	k.flow_max_rate = r.uni(2, 8);
	k.flow_min_hgt = r.uni(0.1, 1.5);
	k.flow_max_hgt = r.logu(3, 80);

	if (r.chance(0.3) && (p.fusion_mode & MASK_USE_OF) && k.gps.on) { p.fusion_mode ^= MASK_USE_OF; p.fusion_mode |= MASK_USE_GPS; }

	bool clean = true;

	if (r.chance(0.5)) { holes(k, r, {RNG}, 0.5); clean = false; }

	if (r.chance(0.2)) { holes(k, r, {FLOW}, 0.4); }

	if (r.chance(0.15)) { holes(k, r, {GPS}, 0.4); clean = false; }

	for (int n = r.chance(0.4) ? 1 + r.below(3) : 0; n > 0; n--) {
		const FaultType ft[] = {SPIKE, BIAS_STEP, FREEZE, NOISY, BIAS_STEP};
		const FaultType t = ft[r.below(5)];
		const double t0 = k.t_takeoff + r.uni(-5, 25);
		k.faults.push_back({RNG, t, t0, t0 + r.logu(1, 30), t == NOISY ? r.logu(2, 30) : r.logu(0.3, 20) * (r.chance(0.5) ? 1 : -1)});
		clean = false;
	}

	Flight f = Generator(k, r.u64()).run();

	for (int n = r.chance(0.4) ? 1 + r.below(3) : 0; n > 0; n--) {
		const uint64_t t0 = k.start_us + (uint64_t)(r.uni(0, k.dur) * 1e6), t1 = t0 + (uint64_t)(r.logu(0.1, 10) * 1e6);

		for (auto &s : f.rng) { if (s.time_us >= t0 && s.time_us < t1) { s.quality = r.chance(0.8) ? 0 : 100; } }

		clean = false;
	}

	if (r.chance(0.12)) {
		// started in the air
		f.flags.push_back(1);
		f.calls.insert(f.calls.begin() + r.range(2, 60), {INAIR, (uint32_t)f.flags.size() - 1, k.start_us});
		clean = false;
	}

	auto e = std::make_unique<Ekf>();
	configure(*e, k);
	// the reference
	RangeHealth health;
	health.min = k.rng_min;
	health.max = k.rng_max;
	shadow::Queue<rangeSample> rq;
	shadow::Queue<flowSample> fq;
	Snap a;
	bool started = false, init = false, flow_ready = false, out_lost = false, flow_kept = false;
	double vpos = 0, var = 1e4;
	uint64_t t_range = 0, t_fake = 0, t_flow = 0, now = 0, fresh_since = 0, h = 0, in_air_since = 0, doubt = 0;
	rangeSample rs{};
	flowSample fs{};
	V3 of_ang;
	double of_dt = 0, of_bias[2] = {0, 0}, comp[2] = {0, 0};
	V3 fgyro;
	double fdt = 0;
	Q q0;
	V3 bias0;

	for (const Call &call : f.calls) {
		apply(*e, f, call);

		if (call.type == RNG) { rq.push(shadow::Shadow::stamp(f.rng[call.idx].time_us, p.range_delay_ms), f.rng[call.idx]); }

		if (call.type == FLOW) { fq.push(shadow::Shadow::stamp(f.flow[call.idx].time_us, p.flow_delay_ms), f.flow[call.idx]); }

		if (call.type != IMU) { continue; }

		now = f.imu[call.idx].time_us;
		const double t = (now - k.start_us) * 1e-6;

		if (!e->update()) {
			// (the filter can start between two updates)
			continue;
		}

		const imuSample &imu = e->get_imu_sample_delayed();
		const Snap s = snap(*e, now);
		const float gv = e->getTerrainVertPos(), gvar = e->get_terrain_var();
		const bool valid = e->isTerrainEstimateValid();
		const uint8_t bits_ = e->getTerrainEstimateSensorBitfield();
		const bool air = s.c(C_AIR);
		c.eval();

		// ---- what holds in any state
		if (!(gvar >= 0 && gvar <= 1e4f)) { c.fail("terrain variance out of bounds", "t %.3f %g", t, gvar); }

		// ---- control limits
		{
			float vxy, vz, hmin, hmax;
			e->get_ekf_ctrl_limits(&vxy, &vz, &hmin, &hmax);
			const bool rng_only = s.c(C_RNG) && !p.range_aid;
			const bool flow_only = s.c(C_FLOW) && !s.c(C_GPS) && !s.c(C_EVPOS) && !s.c(C_EVVEL) && !(s.c(C_ASPD) && s.c(C_BETA));
			const double wmin = flow_only ? std::max(k.rng_min, k.flow_min_hgt) : k.rng_min, wmax = flow_only ? std::min(0.75 * k.rng_max, k.flow_max_hgt) : 0.75 * k.rng_max;
			const double wv = std::max(0.0, 0.5 * k.flow_max_rate * (gv - s.x[9]));
			c.count(flow_only ? "limits of optical flow" : rng_only ? "limits of the range finder" : "no limits");

			if (std::isfinite(vz)) { c.fail("vertical speed limit given", "t %.3f", t); }

			if (flow_only != (bool)std::isfinite(vxy) || (flow_only && std::fabs(vxy - wv) > 1e-4 * (1 + wv))) { c.fail("speed limit wrong", "t %.3f: %g, should be %g (%s)", t, vxy, flow_only ? wv : NAN, bits(s.cs).c_str()); }

			if ((flow_only || rng_only) != (bool)std::isfinite(hmin) || (std::isfinite(hmin) && std::fabs(hmin - wmin) > 1e-4 * wmin)) { c.fail("minimum height limit wrong", "t %.3f: %g, should be %g (%s)", t, hmin, flow_only || rng_only ? wmin : NAN, bits(s.cs).c_str()); }

			if ((flow_only || rng_only) != (bool)std::isfinite(hmax) || (std::isfinite(hmax) && std::fabs(hmax - wmax) > 1e-4 * wmax)) { c.fail("maximum height limit wrong", "t %.3f: %g, should be %g (%s)", t, hmax, flow_only || rng_only ? wmax : NAN, bits(s.cs).c_str()); }
		}

		// ---- samples that become due
		uint64_t ts = 0, ft = 0;
		const bool d_rng = rq.pop(imu.time_us, rs, ts);
		// attitude when the measurement is prepared: the one predicted in this update
		const V3 dang = d3(imu.delta_ang) - bias0;
		const Q qp = started ? (q0 * Q::fromRotVec(dang)).unit() : Q(s.x[0], s.x[1], s.x[2], s.x[3]);
		const M3 R = qp.R();
		const double ct = R(2, 0) * sin(p.rng_sens_pitch) + R(2, 2) * cos(p.rng_sens_pitch);
		const bool usable = health.step(imu.time_us, d_rng, ts, rs, ct, p);
		bool unsure = health.unsure || !started;

		if (!started) { doubt = now + 5100000; }

		const bool d_flow = fq.pop(imu.time_us, fs, ft);
		of_ang += d3(imu.delta_ang) - V3(s.x[10], s.x[11], s.x[12]);
		of_dt += imu.delta_ang_dt;
		const bool range_old = t_range + 5000000 < now;
		bool flow_due = false;

		if (d_flow) {
			const bool was_flow = a.c(C_FLOW);
			bool comp_ok = true;
			const double dmin = std::max(0.8 * of_dt, 0.001), dmax = std::min(1.2 * of_dt, 0.2);
			const bool dt_ok = fs.dt >= dmin && fs.dt <= dmax;
			const bool good = fs.quality >= p.flow_qual_min && R(2, 2) > p.range_cos_max_tilt && std::hypot(fs.flow_xy_rad(0), fs.flow_xy_rad(1)) <= fs.dt * k.flow_max_rate && dt_ok;

			if (std::fabs(R(2, 2) - p.range_cos_max_tilt) < 2e-4 || std::fabs(fs.dt - dmin) < 1e-4 || std::fabs(fs.dt - dmax) < 1e-4 || std::fabs(fs.flow_xy_rad.norm() - fs.dt * k.flow_max_rate) < 1e-5) { unsure = true; }

			fgyro = d3(fs.gyro_xyz);
			fdt = fs.dt;

			if (of_dt > 1) { comp_ok = false; }

			else if (std::isfinite(fgyro.x) && std::isfinite(fgyro.y) && std::isfinite(fgyro.z)) {
				if (of_dt > 1e-6 && fs.dt > 1e-6 && std::fabs(of_dt - fs.dt) < 0.1) {
					for (int i = 0; i < 2; i++) { of_bias[i] = 0.99 * of_bias[i] + 0.01 * std::max(-0.1, std::min(0.1, (i ? fgyro.y : fgyro.x) / fs.dt + (i ? of_ang.y : of_ang.x) / of_dt)); }
				}

			} else { fgyro = of_ang * -1.0; of_bias[0] = of_bias[1] = 0; }

			of_ang = V3();
			of_dt = 0;

			if (good && comp_ok) {
				comp[0] = fs.flow_xy_rad(0) - fgyro.x;
				comp[1] = fs.flow_xy_rad(1) - fgyro.y;
				// used here only when nothing else uses it and GPS constrains the velocity
				flow_ready = air && range_old && !was_flow && a.c(C_GPS);
			}

			else { flow_ready = false; }

			if (std::llabs((long long)(t_range + 5000000) - (long long)now) < 20000 || a.c(C_GPS) != s.c(C_GPS) || a.c(C_FLOW) != s.c(C_FLOW)) { unsure = true; }
		}

		flow_due = ((flow_ready && d_flow) || flow_kept) && (p.terrain_fusion_mode & 2);
		flow_kept = false;
		bool guessed = false;

		// ---- one step of the reference
		const double v0 = vpos, var0 = var;
		const float in = s.in[O_HAGL][0], iv = s.iv[O_HAGL][0], ratio = s.ratio[O_HAGL];
		const bool formed = started && (memcmp(&in, &a.in[O_HAGL][0], 4) || memcmp(&iv, &a.iv[O_HAGL][0], 4));
		double tol = 1e-4 + 3e-6 * std::fabs(s.x[9]), vtol = 0;
		bool reset_ok = false;
		(void)reset_ok;
		const double clear = p.rng_gnd_clearance;
		const double off_z = (R * (d3(p.rng_pos_body) - d3(p.imu_pos_body))).z;
		const double meas = rs.rng * ct + off_z, range_c = rs.rng + off_z / ct;
		const bool use_range = p.terrain_fusion_mode & 1;
		const double P99 = s.var[9];

		if (started && !(fabs(v0 - gv) < 1e9)) { c.fail("terrain height not finite", "t %.3f", t); }

		if (!air) {
			vpos = s.x[9] + clear;
			var = sq(clear);
			init = true;
			t_range = t_fake = now;
			c.count("on ground");

			if (std::fabs(gv - vpos) > tol || std::fabs(gvar - var) > 1e-5 * var) { c.fail("terrain height on ground wrong", "t %.3f: %.4f, height %.4f clearance %.3f; variance %g", t, gv, s.x[9], clear, gvar); }

		} else if (!init) {
			guessed = true;
			if (use_range && usable) { vpos = s.x[9] + meas; var = sq(p.range_noise); init = true; t_range = now; c.count("initialised in the air by range"); tol += 3e-4 * meas + 1e-3; }

			else if (flow_due) { vpos = std::max(0.0, s.x[9]); var = 100; init = true; t_range = now; c.count("initialised in the air by flow"); flow_kept = true; }

			else { vpos = gv; var = gvar; }

			vtol = 1e-3;

			if (!unsure && (std::fabs(gv - vpos) > tol || std::fabs(gvar - var) > 1e-3 * var)) { c.fail("terrain height initialised wrong", "t %.3f: %.4f (variance %g), should be %.4f (%g)", t, gv, gvar, vpos, var); }

			if (unsure || std::fabs(gv - vpos) > tol) { init = init || valid; if (valid && !t_range) { t_range = now; } }

		} else if (started) {
			double pv = var0 + sq(imu.delta_vel_dt * p.terrain_p_noise) + sq(imu.delta_vel_dt * p.terrain_gradient) * (sq(s.x[4]) + sq(s.x[5]));
			pv = std::min(1e4, std::max(0.0, pv));
			const bool expect = use_range && usable;

			if (!unsure && formed != expect) { c.fail(expect ? "usable range sample not used" : "unusable range sample used", "t %.3f: range %.3f quality %d, cosine of tilt %.4f (limit %.4f), regular %d stuck %d, limits %.2f %.2f", t, rs.rng, rs.quality, ct, p.range_cos_max_tilt, health.regular, health.stuck, k.rng_min, k.rng_max); }

			if (formed && (d_rng || !unsure)) {
				c.count("range samples used");
				const double obs = std::max(0.0, P99 * p.vehicle_variance_scaler) + sq(p.range_noise) + sq(p.range_noise_scaler * range_c), S = pv + obs;
				const double inn = v0 - s.x[9] - meas, gate = std::max(1.f, p.range_innov_gate), ra = sq(inn) / (sq(gate) * S);
				const double itol = tol + 3e-4 * std::fabs(meas) * (1 + std::fabs(tan(acos(std::min(1.0, ct))))) + 1e-4;

				if (!(std::fabs(in - inn) < itol)) { c.fail("terrain innovation wrong", "t %.3f: %.4f, should be %.4f (terrain %.3f height %.3f range %.3f cosine %.4f)", t, in, inn, v0, s.x[9], rs.rng, ct); }

				if (!(std::fabs(iv - S) < 2e-3 * S)) { c.fail("terrain innovation variance wrong", "t %.3f: %g, should be %g", t, iv, S); }

				if (!(std::fabs(ratio - ra) < 0.01 * ra + 1e-3 + 3 * std::fabs(inn) * itol / (sq(gate) * S))) { c.fail("terrain test ratio wrong", "t %.3f: %g, should be %g", t, ratio, ra); }

				if (ratio <= 1) {
					const double g = pv / S;
					vpos = v0 - g * in;
					pv = pv * (1 - g);
					t_range = now;
					c.count("range samples fused");

				} else if (t_range + 10000000 < now) {
					vpos = s.x[9] + meas;
					pv = obs;
					tol += itol;
					c.count("terrain reset to range");

				} else { c.count("range samples rejected"); }

				const bool rej = e->innov_check_fail_status().flags.reject_hagl;

				if (ratio <= 1 && rej) { c.fail("accepted range sample reported as rejected", "t %.3f", t); }

				if (ratio > 1 && t_range + 10000000 >= now && !rej) { c.fail("rejected range sample not reported", "t %.3f", t); }

				vtol = 3e-3;
			}

			var = pv;

			// flow
			if (flow_due && !unsure) {
				c.count("flow used for terrain");
				const Q q(s.x[0], s.x[1], s.x[2], s.x[3]);
				const V3 arm = d3(p.flow_pos_body) - d3(p.imu_pos_body), vel(s.x[4], s.x[5], s.x[6]);
				const V3 vb = q.rotInv(vel) + (fgyro * (-1 / fdt)).cross(arm);
				const double best = std::max(p.flow_noise, 0.05f), worst = std::max(p.flow_noise_qual_min, 0.05f);
				double w = 255. - p.flow_qual_min;
				w = w >= 1 ? std::max(0., std::min(1., (fs.quality - p.flow_qual_min) / w)) : 0;
				const double Rv = sq(best * w + worst * (1 - w));
				vpos = std::max(vpos, clear + s.x[9]);
				const double hag = vpos - s.x[9], c33 = q.R()(2, 2), inv = 1 / hag;
				if (hag < 0.3) { out_lost = true; doubt = now + 5100000; } // (single precision of the height)

				float oi[2], ov[2];
				e->getFlowInnov(oi);
				e->getFlowInnovVar(ov);

				for (int i = 0; i < 2 && !out_lost; i++) {
					const double pred = (i ? -vb.x : vb.y) * c33 * inv, rate = comp[i] / fdt + of_bias[i], inn = pred - rate;
					const double H = (i ? vb.x : -vb.y) * c33 * inv * inv; // change of the predicted rate with terrain height
					const double S = H * H * var + Rv;
					const double gate = std::max(1.f, p.flow_innov_gate);

					if (!(std::fabs(oi[i] - inn) < 2e-3 + 3e-3 * std::fabs(pred) + 2e-4 * inv)) { c.fail("terrain flow innovation wrong", "t %.3f axis %d: %.5f, should be %.5f", t, i, oi[i], inn); }

					if (!(std::fabs(ov[i] - S) < 0.01 * S)) { c.fail("terrain flow innovation variance wrong", "t %.3f axis %d: %g, should be %g", t, i, ov[i], S); }

					const double ra = sq(oi[i]) / (sq(gate) * S);

					if (std::fabs(ra - 1) < 0.02) { out_lost = true; doubt = now + 5100000; }

					if (ra <= 1) {
						const double K = var * H / S;
						vpos -= K * oi[i];
						tol += 0.01 * std::fabs(K * oi[i]) + 2e-4;
						var = std::max(0.0, var - K * H * var);
						t_flow = now;
						c.count("flow fused for terrain");

					} else { c.count("flow rejected for terrain"); }
				}

				vtol += 0.01;
			}

			if (vpos - s.x[9] < clear) { vpos = s.x[9] + clear; c.count("held at the ground clearance"); }

			if (unsure && (formed || d_flow || flow_due)) { doubt = now + 5100000; }

			if (unsure && !(std::fabs(gv - vpos) < tol)) {
				// take over what was decided
				if (formed && ratio <= 1) { t_range = now; }

				else if (d_flow || flow_due) { t_flow = now; }

			} else if (!out_lost) {
				if (!(std::fabs(gv - vpos) < tol + 1e-3 * std::fabs(vpos - v0))) { c.fail("terrain height step wrong", "t %.3f: %.5f, should be %.5f (was %.5f); range used %d ratio %.3f, flow used %d", t, gv, vpos, v0, formed, ratio, flow_due); }

				if (!(unsure && d_flow) && !(std::fabs(gvar - var) < (vtol + 1e-4) * (var + (formed ? var0 : 0)) + 1e-7)) { c.fail("terrain variance step wrong", "t %.3f: %g, should be %g (was %g); range used %d, flow used %d", t, gvar, var, var0, formed, flow_due); }
			}

			out_lost = false;
		}

		if (started && gv - s.x[9] < clear - 1e-4 - 3e-7 * std::fabs(s.x[9]) && init && !guessed) { c.fail("height above ground below the clearance", "t %.3f %.4f", t, gv - s.x[9]); }

		// ---- validity
		if (started && !unsure) {
			auto recent = [&](uint64_t x) { return x && x + 5000000 > now; };
			const bool near = std::llabs((long long)(t_range + 5000000) - (long long)now) < 25000 || std::llabs((long long)(t_flow + 5000000) - (long long)now) < 25000 || now < doubt;

			if (!near) {
				const bool want = init && (recent(t_range) || recent(t_flow));

				if (valid != want) { c.fail(want ? "terrain estimate not reported valid" : "terrain estimate valid without recent data", "t %.3f: last range %.2f s, flow %.2f s ago", t, t_range ? (now - t_range) * 1e-6 : -1, t_flow ? (now - t_flow) * 1e-6 : -1); }

				const bool wr = use_range && recent(t_range) && t_fake != t_range, wf = (p.terrain_fusion_mode & 2) && recent(t_flow);

				if ((bits_ & 1) != wr || ((bits_ >> 1) & 1) != wf) { c.fail("sensors supporting the terrain estimate reported wrong", "t %.3f: %x, should be %d %d", t, bits_, wr, wf); }

				c.count(valid ? "valid" : "not valid");
			}
		}

		// ---- truth
		if (!air || (started && s.nr[0] != a.nr[0])) { in_air_since = now + (air ? 8000000 : 0); }

		if (d_rng && usable && use_range && ratio <= 1 && rs.quality > 0) { if (!fresh_since) { fresh_since = now; } }

		if (imu.time_us - health.stamp > 300000 || !use_range || (formed && ratio > 1) || (d_rng && !usable)) { fresh_since = 0; }

		if (clean && air && fresh_since && now - fresh_since > 3000000 && now > in_air_since + 4000000 && k.terrain_slope == 0 && s.c(C_TILT) && (Q(s.x[0], s.x[1], s.x[2], s.x[3]).rotInv(V3(0, 0, 1)) - f.at(imu.time_us).q.rotInv(V3(0, 0, 1))).norm() < 0.04) {
			const Truth &tr = f.at(imu.time_us);
			const double err = (gv - s.x[9]) - (k.terrain - tr.p.z);
			// settles with the gain that the configured noise gives
			c.peak("error of the height above ground (m)", std::fabs(err));
			c.count("height above ground compared with truth");

			const double bound = 0.3 + 3 * std::sqrt(gvar) + 3 * std::sqrt(std::max(0.0, P99)) + 0.03 * (k.terrain - tr.p.z);

			if (!(std::fabs(err) < bound)) { const Q qt(s.x[0], s.x[1], s.x[2], s.x[3]); c.fail("height above ground wrong with good range data", "t %.3f: %.3f m, truth %.3f; attitude error %.3f tilt %.3f/%.3f, %s", t, gv - s.x[9], k.terrain - tr.p.z, (qt.conj() * tr.q).rotVec().norm(), acos(qt.R()(2, 2)), acos(tr.q.R()(2, 2)), bits(s.cs).c_str()); }
		}

		h = h * 31 + (uint64_t)std::llround((gv - s.x[9]) * 20) + 7 * formed + valid;
		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { fprintf(vh::out(), "%.3f z %.3f (true %.3f) vpos %.3f var %.4f rng %.3f q %d used %d ratio %.3f innov %.3f P99 %.4f resets %d true hag %.3f flow %d %d unsure %d age %.3f %s\n", t, s.x[9], f.at(imu.time_us).p.z, gv, gvar, rs.rng, rs.quality, formed, ratio, in, P99, s.nr[0], k.terrain - f.at(imu.time_us).p.z, d_flow, flow_due, unsure, (now - t_range) * 1e-6, bits(s.cs).c_str()); }

		// continue from what was observed
		vpos = gv;
		var = gvar;
		q0 = Q(s.x[0], s.x[1], s.x[2], s.x[3]);
		bias0 = V3(s.x[10], s.x[11], s.x[12]);
		a = s;
		started = true;

		if (c.case_violations >= 4) { break; }
	}

	if (started) { c.count("flights"); }

	c.seen(h);
}
