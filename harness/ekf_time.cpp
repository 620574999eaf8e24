// Monitors of time: when delayed measurements are fused, and what GPS quality checks decide over time
#include "modes.hpp"
using namespace sim;

static int horizontalAids(const Snap &s) { return s.c(C_GPS) + s.c(C_FLOW) + s.c(C_EVPOS) + s.c(C_EVVEL) + (s.c(C_ASPD) && s.c(C_BETA)); }

// the largest delay of the sensors in use
static double maxDelay(const parameters &p)
{
	double d = std::max({p.baro_delay_ms, p.auxvel_delay_ms, p.airspeed_delay_ms});

	if (p.mag_fusion_type != MAG_FUSE_TYPE_NONE) { d = std::max(d, (double)p.mag_delay_ms); }

	if (p.range_aid || p.vdist_sensor_type == VDIST_SENSOR_RANGE) { d = std::max(d, (double)p.range_delay_ms); }

	if ((p.fusion_mode & MASK_USE_GPS) || p.vdist_sensor_type == VDIST_SENSOR_GPS) { d = std::max(d, (double)p.gps_delay_ms); }

	if (p.fusion_mode & MASK_USE_OF) { d = std::max(d, (double)p.flow_delay_ms); }

	if ((p.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) || p.vdist_sensor_type == VDIST_SENSOR_EV) { d = std::max(d, (double)p.ev_delay_ms); }

	return d * 1e-3;
}

static float delayMs(const parameters &p, CallType t)
{
	return t == GPS ? p.gps_delay_ms : t == EV ? p.ev_delay_ms : t == BARO ? p.baro_delay_ms : t == MAG ? p.mag_delay_ms : t == RNG ? p.range_delay_ms : t == FLOW ? p.flow_delay_ms : t == ASPD ? p.airspeed_delay_ms : p.auxvel_delay_ms;
}

// E10 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E10)
{
	auto &r = c.rng;
	Config k = stepConfig(r);
	const int ps[] = {P_GPS, P_GPSHGT, P_EVPOS, P_EVVEL, P_AUX, P_MAGTYPE, P_WING, P_FLOW, P_VERT};
	profile(k, r, ps[r.below(9)]);
	k.dur = 45;
	k.alt0 = r.uni(-30, 60); // fine resolution of the barometric height tells the samples apart
	auto &p = k.params;

	if (r.chance(0.15)) { p.vdist_sensor_type = r.below(4); }

	if (r.chance(0.15)) { p.fusion_mode &= ~(MASK_USE_GPS); }

	k.imu_dt = r.chance(0.3) ? 0.01 : r.uni(0.001, 0.0125);
	k.imu_jitter = r.chance(0.5) ? r.uni(0, 0.5) : 0;
	k.start_us = (uint64_t)std::exp(r.uni(std::log(1.5e6), std::log(1e14)));
	const double longest = r.logu(20, 700);
	auto delay = [&](SensorCfg & s, float &d) { d = (float)(r.chance(0.3) ? r.uni(0, longest) : std::floor(r.uni(0, longest))); s.delay = d * 1e-3; };
	delay(k.mag, p.mag_delay_ms);
	delay(k.gps, p.gps_delay_ms);
	delay(k.baro, p.baro_delay_ms);
	delay(k.rng, p.range_delay_ms);
	delay(k.flow, p.flow_delay_ms);
	delay(k.ev, p.ev_delay_ms);
	delay(k.aux, p.auxvel_delay_ms);
	delay(k.aspd, p.airspeed_delay_ms);
	p.sensor_interval_min_ms = r.chance(0.5) ? 20 : (int)r.range(5, 40);
	const bool regular = r.chance(0.5);
	k.baro.period = r.logu(0.003, 0.25);
	k.mag.period = r.logu(0.004, 0.15);

	for (SensorCfg *s : {&k.gps, &k.ev, &k.aux, &k.aspd, &k.flow, &k.rng}) { s->period = r.uni(0.1, 0.25); }

	for (SensorCfg *s : {&k.gps, &k.ev, &k.aux, &k.aspd, &k.flow, &k.rng, &k.baro, &k.mag}) { if (!regular) { s->jitter = r.uni(0, 0.4) * s->period; } }

	if (k.vehicle == FIXED || r.chance(0.3)) { k.aspd.on = true; }

	if (r.chance(0.3)) { k.aux.on = true; }

	holes(k, r, {BARO, GPS, EV, ASPD, AUX, MAG}, 0.15, 6);
	p.static_pressure_coef_xp = p.static_pressure_coef_xn = p.static_pressure_coef_yp = p.static_pressure_coef_yn = p.static_pressure_coef_z = 0;
	Flight f = Generator(k, r.u64()).run();
	const double md = maxDelay(p);
	const int imu_len = (int)std::ceil((float)(md * 1e3) / 10) + 1, obs_len = std::max(2, std::min((int)std::ceil((float)(md * 1e3) * 1.5f / p.sensor_interval_min_ms), imu_len));
	auto e = std::make_unique<Ekf>();
	configure(*e, k);

	struct In { uint64_t stamp, arrive; size_t seq; };
	size_t seq = 0, prev_seq = 0;
	struct Sensor { CallType t; std::vector<In> v; size_t next{0}; };
	Sensor sens[4] = {{GPS, {}, 0}, {EV, {}, 0}, {ASPD, {}, 0}, {AUX, {}, 0}};
	std::vector<In> baro_in; // raw stamps
	std::vector<float> baro_h;
	Sensor mag{MAG, {}, 0};
	const bool need_gps = (p.fusion_mode & MASK_USE_GPS) || p.vdist_sensor_type == VDIST_SENSOR_GPS;
	auto cut = [&](CallType t, uint64_t st) { return st - (uint64_t)(delayMs(p, t) * 1000) - 5000; };
	Snap a;
	uint64_t baro_seen_at = 0;
	size_t imu_next = 0, group_next = 0, last_to = 0, last_from = 0;
	uint64_t baro_stamp = 0, last_close = 0;
	bool synced = false;
	double lagmin = 1e9, lagmax = 0, interval = 0, baro_gap = 0;
	uint64_t first_update = 0, h = 0;
	int ev_repeat = 0;
	double thinned = 0; // largest recent interval to which data is thinned
	bool origin = false;
	uint64_t origin_at = 0;

	for (const Call &call : f.calls) {
		apply(*e, f, call);
		seq++;

		// GPS data received before there was an origin has no position and may be left out
		if (e->global_origin_valid() != origin) { origin = !origin; origin_at = call.at + 50000; }

		if (call.type != IMU) {
			switch (call.type) {
			case GPS: if (need_gps && f.gps[call.idx].fix_type > 2) { sens[0].v.push_back({cut(GPS, f.gps[call.idx].time_usec), call.at, seq}); } break;

			case EV: sens[1].v.push_back({cut(EV, f.ev[call.idx].time_us), call.at, seq}); break;

			case ASPD: sens[2].v.push_back({cut(ASPD, f.aspd[call.idx].time_us), call.at, seq}); break;

			case AUX: sens[3].v.push_back({cut(AUX, f.aux[call.idx].time_us), call.at, seq}); break;

			case MAG: mag.v.push_back({cut(MAG, f.mag[call.idx].time_us / 1000 * 1000), call.at, seq}); break;

			case BARO:
				if (!baro_in.empty()) { baro_gap = std::max(baro_gap * 0.98, (call.at - baro_in.back().arrive) * 1e-6); }

				baro_in.push_back({f.baro[call.idx].time_us, call.at, seq});
				baro_h.push_back(f.baro[call.idx].hgt);
				break;

			default: break;
			}

			continue;
		}

		if (!e->update()) { continue; }

		const uint64_t now = f.imu[call.idx].time_us;
		Snap b = snap(*e, now);
		const uint64_t hz = b.imu_us;
		const imuSample im = e->get_imu_sample_delayed();
		const double t = (now - k.start_us) * 1e-6;
		c.eval();

		// inertial data: in order, none lost
		if (a.valid) {
			const uint64_t h0 = a.imu_us;

			if (hz <= h0) { c.fail("fusion horizon does not advance", "t %.3f horizon %llu after %llu", t, (unsigned long long)hz, (unsigned long long)h0); break; }

			double sg = 0, sv = 0;
			bool clip[3] {};
			int n = 0;

			while (imu_next < f.imu.size() && f.imu[imu_next].time_us <= h0) { imu_next++; }

			V3 dv;
			bool found = false;

			for (size_t i = imu_next; i < f.imu.size() && f.imu[i].time_us <= hz; i++) {
				sg += f.imu[i].delta_ang_dt;
				sv += f.imu[i].delta_vel_dt;
				dv += d3(f.imu[i].delta_vel);
				n++;

				for (int j = 0; j < 3; j++) { clip[j] |= f.imu[i].delta_vel_clipping[j]; }

				found |= f.imu[i].time_us == hz;
			}

			c.count("inertial samples compared");

			if (!found) { c.fail("fusion horizon is not the time of an inertial sample", "t %.3f", t); }

			if (std::fabs(sg - im.delta_ang_dt) > 1e-6 + 1e-6 * sg || std::fabs(sv - im.delta_vel_dt) > 1e-6 + 1e-6 * sv) { c.fail("inertial data lost or repeated", "t %.3f: %.7f s and %.7f s delivered for %.7f s and %.7f s of input (%d samples)", t, im.delta_ang_dt, im.delta_vel_dt, sg, sv, n); }

			for (int j = 0; j < 3; j++) { if (clip[j] != im.delta_vel_clipping[j]) { c.fail("clipping lost or invented", "t %.3f axis %d", t, j); } }

			if ((dv - d3(im.delta_vel)).norm() > 0.02 + 0.15 * dv.norm()) { c.fail("velocity increments lost", "t %.3f delivered %.5f %.5f %.5f for %.5f %.5f %.5f", t, im.delta_vel(0), im.delta_vel(1), im.delta_vel(2), dv.x, dv.y, dv.z); }

		} else { first_update = now; }

		const double lag = (now - hz) * 1e-6;
		interval = std::max(interval * 0.999, std::floor(lag * 1e6 / (obs_len - 1)) * 1e-6);
		lagmin = std::min(lagmin, lag);
		lagmax = std::max(lagmax, lag);

		const double step = std::max(0.01, k.imu_dt * (1 + k.imu_jitter));

		if (t > 4) {
			c.peak("lag beyond the largest delay", lag - md);
			c.peak("lag short of the largest delay", md - lag);

			// mean update interval is kept at 10 ms
			if (c.verbose && (lag < md * 0.93 - 2 * step)) { printf("lag %.4f md %.4f dt %.5f jitter %.3f step now %.4f len %d\n", lag, md, k.imu_dt, k.imu_jitter, (hz - a.imu_us) * 1e-6, imu_len); }

			// (only on average when the inertial interval is not much shorter)
			const double slack = 0.07 + 0.25 * std::min(1., k.imu_dt / 0.006);

			if (lag < md * (1 - slack) - 2 * step || lag > (1 + slack) * (md + 0.01) * std::max(1., k.imu_dt / 0.01) + 3 * step + 0.005) { c.fail("fusion horizon does not lag by the largest delay", "t %.3f lag %.4f, largest delay %.4f", t, lag, md); break; }
		}

		// barometer: each sample once
		const baroSample bs = e->get_baro_sample_delayed();

		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { printf("upd %.6f horizon %.6f baro %.6f %d in\n", t, (hz - k.start_us) * 1e-6, ((int64_t)(bs.time_us - k.start_us)) * 1e-6, (int)baro_in.size()); }


		if (bs.time_us != baro_stamp && bs.time_us != 0 && t > 1.5) {
			const bool first = !synced;
			bool ok = false;
			size_t from = group_next, to = 0, tried = 0;

			auto search = [&](size_t begin) {
				for (size_t i = begin; i < baro_in.size() && !ok && tried < 4000; i++, tried++) {
					if (!first && i > begin + 400) { break; }
	
					uint64_t sum = 0;
					float hs = 0;
	
					for (size_t j = i; j < baro_in.size() && j < i + 400; j++) {
						sum += baro_in[j].stamp / 1000;
						hs += baro_h[j];
						const uint64_t st = 1000 * (sum / (j - i + 1)) - (uint64_t)(p.baro_delay_ms * 1000) - 5000;
	
						if (st > bs.time_us + 2000) { break; }
	
						if (first && baro_in[j].stamp - baro_in[i].stamp > (uint64_t)(3e6 * interval) && j > i + 1) { break; }
	
						if (st == bs.time_us && std::fabs(hs / (float)(j - i + 1) - bs.hgt) < 1e-6 + 2e-7 * std::fabs(bs.hgt)) { ok = true; from = i; to = j; break; }
					}
				}
			};
			search(group_next);

			// an average can match more than one group of samples: the previous one may have been another
			if (!ok && !first) { search(last_from + 1); if (ok) { c.count("ambiguous averages"); group_next = from; } }

			if (!ok) {
				if (c.verbose) {
					for (size_t j = 0; j < baro_in.size(); j++) { if (std::fabs((double)baro_in[j].stamp - p.baro_delay_ms * 1000 - 5000 - bs.time_us) < 60000) { printf("  in %zu stamp %.6f h %.4f\n", j, (baro_in[j].stamp - k.start_us - p.baro_delay_ms * 1000 - 5000) * 1e-6, baro_h[j]); } }

					printf("next %zu synced %d\n", group_next, synced);
				}

				c.fail("barometer data altered on the way to fusion", "t %.3f: %.4f m stamped %.6f s matches no average of the data that arrived", t, bs.hgt, ((int64_t)(bs.time_us - k.start_us)) * 1e-6);
				synced = false;
				group_next = baro_in.size();

			} else {
				const uint64_t h0 = a.valid ? a.imu_us : 0;
				c.count("barometer averages matched");

				if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { printf("bar %.4f %zu..%zu stamp %.6f horizon %.6f..%.6f closed at %.6f\n", t, from, to, (bs.time_us - k.start_us) * 1e-6, (h0 - k.start_us) * 1e-6, (hz - k.start_us) * 1e-6, (baro_in[to].arrive - k.start_us) * 1e-6); }

				if (to > from) { c.count("barometer averages of several samples"); }

				if (synced && from != group_next) {
					// replaced by newer data that passed the horizon in the same update, or too old
					const uint64_t d = (uint64_t)(p.baro_delay_ms * 1000) + 5000;
					bool gap = false;

					for (size_t q = std::max<size_t>(1, group_next); q <= from; q++) { gap |= baro_in[q].stamp - baro_in[q - 1].stamp > (uint64_t)(1e6 * (2.2 * interval + k.baro.jitter)); }

					const bool together = baro_in[from - 1].seq > prev_seq || baro_in[from - 1].stamp - d + 2000 > h0;

					if (together) { c.count("barometer data replaced within one update"); }

					else if (gap) { c.count("barometer averages across a drop-out"); }

					else if (baro_in[from - 1].stamp - d + 95000 < h0) { c.count("barometer data too old"); }

					else { c.fail("accepted barometer data lost", "t %.3f: samples %zu to %zu not fused; stamps %.6f to %.6f, next fused %.6f, horizon %.6f to %.6f, interval %.4f", t, group_next, from - 1, (baro_in[group_next].stamp - d - k.start_us) * 1e-6, (baro_in[from - 1].stamp - d - k.start_us) * 1e-6, (bs.time_us - k.start_us) * 1e-6, (h0 - k.start_us) * 1e-6, (hz - k.start_us) * 1e-6, interval); }
				}

				if (synced) {
					const double since = (baro_in[to].stamp - last_close) * 1e-6;

					// thinned as much as needed, not more
					if (to > from && from == last_to + 1 && (baro_in[to - 1].stamp - last_close) * 1e-6 > interval + 2 * step + 0.002) { c.fail("barometer data thinned more than needed", "t %.3f: sample %.4f s after the last one withheld, interval %.4f", t, (baro_in[to - 1].stamp - last_close) * 1e-6, interval); }

					c.peak("barometer spacing short of the interval", interval - since);
				}

				if (bs.time_us > hz) { c.fail("measurement fused before its time", "t %.3f barometer %.6f s ahead", t, (bs.time_us - hz) * 1e-6); }

				if (a.valid && synced && bs.time_us <= h0 && baro_in[to].seq <= prev_seq) { c.fail("measurement fused late", "t %.3f barometer %.6f s behind the previous horizon, samples %zu to %zu spanning %.4f s, interval %.4f", t, (h0 - bs.time_us) * 1e-6, from, to, (baro_in[to].stamp - baro_in[from].stamp) * 1e-6, interval); }

				group_next = to + 1;
				last_close = baro_in[to].stamp;
				last_to = to;
				last_from = from;
				synced = true;
			}

			baro_stamp = bs.time_us;
			baro_seen_at = now;
			h = h * 31 + bs.time_us - k.start_us;
		}

		if (synced && !baro_in.empty() && now - baro_seen_at > (uint64_t)(1e6 * (std::max(baro_gap, interval) * 2 + k.baro.jitter + 2 * step + 0.02)) && now - baro_in.back().arrive < (uint64_t)(1e6 * baro_gap) && (hz - (baro_in.back().stamp - (uint64_t)(p.baro_delay_ms * 1000))) < 90000 + (uint64_t)0 && baro_in.back().stamp < hz) {
			c.fail("barometer data not fused", "t %.3f none for %.3f s", t, (now - baro_seen_at) * 1e-6);
			baro_seen_at = now;
		}

		auto passed = [&](Sensor & s) {
			int n = 0;

			while (s.next < s.v.size() && s.v[s.next].stamp <= hz) {
				if (s.v[s.next].stamp + 100000 > hz) { n++; }

				s.next++;
			}

			return n;
		};

		if (!a.valid) { for (Sensor &s : sens) { passed(s); } passed(mag); }

		// other sensors: in the update in which the horizon passes the time of validity
		if (a.valid) {
			const uint64_t h0 = a.imu_us;
			const bool no_reset = !anyReset(a, b) && t > 2;

			for (Sensor &s : sens) {
				const int n = passed(s);
				const bool quiet = no_reset && (s.t != GPS || hz > origin_at);
				// stamps rounded differently by a microsecond
				auto both = [&](int bit) { return a.c(bit) && b.c(bit); };
				auto used = [&](Obs o, bool expected, const char *name) {
					const bool at = attempted(a, b, o);

					if (at && n) { c.count(name); }

					if (!quiet) { return; }

					if (at && !n && o == O_EVP) { if (ev_repeat++) { return; } c.fail("vision height fused repeatedly", "t %.3f; %s", t, bits(b.cs).c_str()); return; }

					if (at && !n) { c.fail("measurement fused without reaching the horizon", "t %.3f %s; %s", t, name, bits(b.cs).c_str()); }

					if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { for (In & q : s.v) { if (q.stamp <= hz && q.stamp + 200000 > hz) { printf("obs %.4f %s at %d n %d stamp %.6f arrived %.6f horizon %.6f .. %.6f\n", t, name, at, n, (q.stamp - k.start_us) * 1e-6, (q.arrive - k.start_us) * 1e-6, (h0 - k.start_us) * 1e-6, (hz - k.start_us) * 1e-6); } } }

					if (!at && n && expected) { c.fail("measurement not fused when the horizon passed", "t %.3f %s; %s", t, name, bits(b.cs).c_str()); }
				};
				const bool air = b.c(C_AIR) && a.c(C_AIR);

				switch (s.t) {
				case GPS:
					if (both(C_GPS)) { used(O_GHV, true, "gps velocity"); used(O_GHP, true, "gps position"); used(O_GVV, true, "gps vertical velocity"); }

					if (both(C_GPSHGT)) { used(O_GVP, true, "gps height"); }

					break;

				case EV:
					if (both(C_EVPOS)) { used(O_EHP, !(p.fusion_mode & MASK_USE_GPS), "vision position"); }

					if (both(C_EVVEL)) { used(O_EHV, true, "vision velocity"); }

					if (both(C_EVHGT)) { used(O_EVP, true, "vision height"); }

					break;

				case ASPD: {
						const double rel = std::sqrt(std::pow(b.x[4] - b.x[22], 2) + std::pow(b.x[5] - b.x[23], 2) + b.x[6] * b.x[6]);

						if (both(C_WIND) && air) { used(O_TAS, horizontalAids(a) > 0 && rel > 2, "airspeed"); }

						break;
					}

				case AUX: if (horizontalAids(a) > 0 && horizontalAids(b) > 0) { used(O_AUX, true, "auxiliary velocity"); } break;

				default: break;
				}
			}

			thinned = std::max(thinned * 0.999, interval);
			const int n = passed(mag);

			if (k.mag.period - k.mag.jitter > thinned + 0.004) {
				if (a.c(C_MAG3D) && b.c(C_MAG3D) && no_reset && !b.c(C_MAGDIST)) {
					const bool at = attempted(a, b, O_MAG);

					if (at) { c.count("magnetometer"); }

					if (at != (n > 0)) { c.fail(at ? "measurement fused without reaching the horizon" : "measurement not fused when the horizon passed", "t %.3f magnetometer; %s", t, bits(b.cs).c_str()); }
				}
			}
		}

		a = b;
		prev_seq = seq;

		if (c.case_violations >= 4) { break; }
	}

	if (first_update) { c.count("flights"); c.peak("start time hours", k.start_us / 3.6e9); if (k.start_us > 4294967296ull) { c.count("flights beyond 2^32 us"); } }

	c.seen(h ^ k.start_us);
}

// E14 ------------------------------------------------------------------------------------------------------------------
VH_CHECK(E14)
{
	auto &r = c.rng;
	Config k = stepConfig(r);
	const int ps[] = {P_GPS, P_GPSHGT, P_GPS, P_AUX, P_MAGTYPE, P_WING, P_EVPOS, P_FLOW};
	profile(k, r, ps[r.below(8)]);
	k.dur = r.uni(40, 75);
	auto &p = k.params;
	p.fusion_mode |= r.chance(0.9) ? MASK_USE_GPS : 0;
	k.gps.on = true;
	k.gps.period = r.uni(0.1, 0.4);
	k.gps.jitter = r.uni(0, 0.15) * k.gps.period;
	k.t_takeoff = r.chance(0.3) ? 1e9 : r.uni(8, k.dur);
	k.imu_dt = r.uni(0.003, 0.01);
	k.start_us = (uint64_t)std::exp(r.uni(std::log(1.5e6), std::log(1e13)));
	k.noise_scale = r.chance(0.5) ? 0.2 : 1;
	const double m = r.unit();
	p.gps_check_mask = m < 0.15 ? 0 : m < 0.3 ? 21 : m < 0.4 ? 511 : m < 0.7 ? (1 << r.below(9)) : (int)r.below(512);
	p.req_nsats = r.range(4, 12);
	p.req_pdop = (float)r.uni(1.2, 4);
	p.req_hacc = (float)r.logu(0.9, 10);
	p.req_vacc = (float)r.logu(1.3, 15);
	p.req_sacc = (float)r.logu(0.25, 3);
	p.req_hdrift = (float)r.logu(0.05, 1);
	p.req_vdrift = (float)r.logu(0.05, 1.5);

	if (r.chance(0.3)) { holes(k, r, {GPS}, 0.5, 15); }

	Flight f = Generator(k, r.u64()).run();
	uint64_t health = 10000000;
	// history of the quality
	const double gentle = r.chance(0.6) ? r.uni(0.3, 2) : r.uni(2, 12);

	for (int n = (int)gentle + (r.chance(gentle - std::floor(gentle)) ? 1 : 0); n > 0; n--) {
		const double s0 = r.uni(0, k.dur), s1 = s0 + (r.chance(0.3) ? 0.01 : r.logu(0.3, 30));
		const int what = r.below(13);
		const double e = r.logu(0.02, 8) * (r.chance(0.5) ? 1 : -1), e2 = r.uni(-1, 1) * e;
		const int edge = r.below(5);
		bool one = s1 - s0 < 0.1;
		const uint8_t fix = (uint8_t)r.below(3);

		for (size_t i = 0; i < f.gps.size(); i++) {
			gps_message &g = f.gps[i];
			const double t = (g.time_usec - k.start_us) * 1e-6, q = t - s0;

			if (t < s0 || (t > s1 && !one)) { continue; }

			auto around = [&](float &v, float req) { v = edge == 0 ? req : edge == 1 ? std::nextafter(req, 1e9f) : edge == 2 ? std::nextafter(req, 0.f) : edge == 3 ? req * 1.5f : req * (float)(0.8 + 0.4 * r.unit()); };

			switch (what) {
			case 0: g.fix_type = fix; break;

			case 1: g.nsats = (uint8_t)(edge == 0 ? p.req_nsats : p.req_nsats - 1 - edge % 2); break;

			case 2: around(g.pdop, p.req_pdop); break;

			case 3: around(g.eph, p.req_hacc); break;

			case 4: around(g.epv, p.req_vacc); break;

			case 5: around(g.sacc, p.req_sacc); break;

			case 6: g.lat += (int)(e * q * 90); g.lon += (int)(e2 * q * 90); break; // drifting position

			case 7: g.alt += (int)(1000 * e * q); break;

			case 8: g.vel_ned(0) += (float)e; g.vel_ned(1) += (float)e2; break;

			case 9: g.vel_ned(2) += (float)e; break;

			case 10: g.lat += (int)(e * 2000); break; // jump

			case 11: g.alt += (int)(e * 5000); break;

			case 12: g.fix_type = (uint8_t)r.below(6); break;
			}

			if (one) { break; }
		}
	}

	// movement on the ground
	for (int n = r.chance(0.4) ? r.below(4) : 0; n > 0; n--) {
		const double s0 = r.uni(0, k.dur), s1 = s0 + r.logu(0.05, 6);
		const float a = (float)r.logu(0.05, 3);

		for (imuSample &s : f.imu) {
			const double t = (s.time_us - k.start_us) * 1e-6;

			if (t >= s0 && t <= s1) { s.delta_ang += Vector3f((float)r.gauss(), (float)r.gauss(), (float)r.gauss()) * a * s.delta_ang_dt; s.delta_vel += Vector3f((float)r.gauss(), (float)r.gauss(), (float)r.gauss()) * 3 * a * s.delta_vel_dt; }
		}
	}

	auto e = std::make_unique<Ekf>();
	configure(*e, k);

	if (r.chance(0.6)) { health = (uint64_t)(r.logu(0.2, 25) * 1e6); e->set_min_required_gps_health_time((uint32_t)health); }

	const bool need = (p.fusion_mode & MASK_USE_GPS) || p.vdist_sensor_type == VDIST_SENSOR_GPS;
	const double CR = 6371000.0;
	bool started = false, inited = false, origin = false, was_gps = false;
	uint64_t last_fail = 0, first_bad = 0, newest = 0, prev_at = 0, last_pass = 0;
	double prev_lat = 0, prev_lon = 0, o_lat = 0, o_lon = 0;
	float prev_alt = 0;
	double pd[3] = {0, 0, 0}, vf[2] = {0, 0}, vd = 0;
	float metric[3] = {0, 0, 0};
	unsigned expected = 0;
	int seen_masks = 0;
	bool other = false;
	uint64_t h = 0;

	for (const Call &call : f.calls) {
		const gps_message *g = call.type == GPS ? &f.gps[call.idx] : nullptr;
		const filter_control_status_u before = e->control_status();
		const float vz = e->getVelocity().isAllFinite() ? (float)e->getStateAtFusionHorizonAsVector()(6) : 0;
		const float pz = (float)e->getStateAtFusionHorizonAsVector()(9);
		apply(*e, f, call);

		if (call.type == IMU) {
			started = true;
			newest = f.imu[call.idx].time_us;

			const bool updated = e->update();

			inited = inited || updated || e->covariances_diagonal()(4) > 0; // (it can start between two filter updates)

			if (!updated) { continue; }

			const bool gps = e->control_status_flags().gps;

			if (gps && !was_gps) {
				c.count("gps aiding started");

				if (!origin) { c.fail("GPS used before the origin is known", "t %.3f", (newest - k.start_us) * 1e-6); }

				if (last_fail + 5000000 >= newest) { c.fail("GPS used too soon after a failed check", "t %.3f: %.3f s", (newest - k.start_us) * 1e-6, (newest - last_fail) * 1e-6); }

				c.peak("gps aiding start after the last failure: shortest (negative)", -(double)(newest - last_fail) * 1e-6);
				first_bad = 0;
			}

			if (was_gps && !gps) { c.count("gps aiding stopped"); }

			const auto now_on = e->control_status_flags();
			other = now_on.opt_flow || now_on.ev_pos || now_on.ev_vel || (now_on.fuse_aspd && now_on.fuse_beta);

			if (!other) { first_bad = 0; }

			if (gps && first_bad && first_bad + 400000 + (uint64_t)(1e6 * lagOf(k)) < newest) { c.fail("GPS used while its checks fail and other aiding is there", "t %.3f first bad message %.3f last pass %.3f s ago; %s", (newest - k.start_us) * 1e-6, (first_bad - k.start_us) * 1e-6, (newest - last_pass) * 1e-6, bits(e->control_status().value).c_str()); }

			was_gps = gps;
			continue;
		}

		if (!g || !started || !need) { continue; }

		

		const double t = (newest - k.start_us) * 1e-6;
		unsigned sure = 0x3f, want = 0;
		want |= (unsigned)(g->fix_type < 3) << 0;
		want |= (unsigned)(g->nsats < p.req_nsats) << 1;
		want |= (unsigned)(g->pdop > p.req_pdop) << 2;
		want |= (unsigned)(g->eph > p.req_hacc) << 3;
		want |= (unsigned)(g->epv > p.req_vacc) << 4;
		want |= (unsigned)(g->sacc > p.req_sacc) << 5;
		const bool air = before.flags.in_air, rest = before.flags.vehicle_at_rest;

		if (g->fix_type >= 3) {
			const double dt = std::min(10., std::max(0.001, (newest - (prev_at ? prev_at : 0)) * 1e-6)), co = dt / 10;
			auto decide = [&](int bit, double v, double lim) {
				if (std::fabs(v - lim) > 2e-3 * lim + 1e-4) { sure |= 1u << bit; want |= (unsigned)(v > lim) << bit; }
			};
			auto lim = [&](double v, double l) { return std::min(l, std::max(-l, v)); };

			const float alt = 1e-3f * (float)g->alt;

			if (!air && rest) {
				double d[3] = {0, 0, prev_at ? (double)(prev_alt - alt) : 0};

				if (prev_at) {
					d[0] = (g->lat * 1e-7 - prev_lat) * M_PI / 180 * CR;
					d[1] = wrap((g->lon * 1e-7 - prev_lon) * M_PI / 180) * CR * cos(g->lat * 1e-7 * M_PI / 180);
				}

				for (int i = 0; i < 3; i++) {
					const double l = 10. * (i < 2 ? p.req_hdrift : p.req_vdrift);
					pd[i] = lim(d[i] / dt, l) * co + pd[i] * (1 - co);
				}

				for (int i = 0; i < 2; i++) { vf[i] = lim(g->vel_ned(i), 10. * p.req_hdrift) * co + vf[i] * (1 - co); }

				metric[0] = (float)std::hypot(pd[0], pd[1]);
				metric[1] = (float)std::fabs(pd[2]);
				metric[2] = (float)std::hypot(vf[0], vf[1]);
				decide(6, metric[0], p.req_hdrift);
				decide(7, metric[1], p.req_vdrift);
				decide(8, metric[2], p.req_hdrift);
				c.count("checked at rest");

			} else {
				for (double &x : pd) { x = 0; }

				vf[0] = vf[1] = 0;
				sure |= 7u << 6;

				if (!air) { want |= expected & (7u << 6); c.count("checked moving on ground"); } // kept

				else { c.count("checked in the air"); }
			}

			prev_at = newest;
			prev_lat = g->lat * 1e-7;
			prev_lon = g->lon * 1e-7;
			prev_alt = alt;
			vd = lim((double)g->vel_ned(2) - vz, 10. * p.req_vdrift) * co + vd * (1 - co);
			decide(9, std::fabs(vd), p.req_vdrift);

		} else {
			sure = 0x3ff;
			want |= expected & ~0x3fu;
			c.count("messages without fix");
		}

		uint16_t got = 0;
		e->get_gps_check_status(&got);
		c.eval();
		static const char *const names[] = {"fix", "satellites", "dilution", "horizontal accuracy", "vertical accuracy", "speed accuracy", "horizontal drift", "vertical drift", "horizontal speed", "vertical speed"};

		for (int i = 0; i < 10; i++) {
			if (!(sure & (1u << i))) { c.count("checks too close to call"); }

			else if (((got ^ want) >> i) & 1) { c.fail("GPS check result wrong", "t %.3f %s: reported %d; air %d rest %d metrics %.4f %.4f %.4f, vertical speed %.4f; limits %.4f %.4f", t, names[i], (got >> i) & 1, air, rest, metric[0], metric[1], metric[2], vd, p.req_hdrift, p.req_vdrift); }
		}

		if (got >> 10) { c.fail("GPS check status has unknown bits", "%x", got); }

		expected = got & 0x3ff;
		seen_masks |= expected;

		if (g->fix_type >= 3) {
			float d[3];
			bool blocked;
			const bool up = e->get_gps_drift_metrics(d, &blocked);

			if (up != !air) { c.fail("GPS drift metrics update wrong", "t %.3f %d air %d rest %d", t, up, air, rest); }

			if (blocked != !rest) { c.fail("GPS drift metrics blocked wrong", "t %.3f", t); }

			for (int i = 0; i < 3; i++) { if (std::fabs(d[i] - metric[i]) > 1e-3 * metric[i] + 3e-4) { c.fail("GPS drift metric wrong", "t %.3f number %d: %.5f, should be %.5f", t, i, d[i], metric[i]); metric[i] = d[i]; } }
		}

		if (!last_fail) { last_fail = newest; }

		if ((expected & 1) || ((expected >> 1) & (unsigned)p.gps_check_mask)) { last_fail = newest; c.count("messages failing the checks"); if (last_pass && g->fix_type > 2 && other && !first_bad && newest > last_pass + 5300000) { first_bad = newest; } }

		else { last_pass = newest; first_bad = 0; c.count("messages passing the checks"); }

		const bool passed = last_fail + health < newest && !(expected & 1);
		const bool close = std::llabs((long long)(last_fail + health) - (long long)newest) < 2;

		double lat = 0, lon = 0;
		float alt = 0;
		uint64_t when = 0;
		const bool has = e->getEkfGlobalOrigin(when, lat, lon, alt);

		if (has && !origin) {
			c.count("origin set");

			if (!inited) { c.fail("origin set before the filter runs", "t %.3f", t); }

			if (!passed && !close) { c.fail("origin set before the checks passed long enough", "t %.3f: last failure %.3f s ago, %.3f s required, failing %x mask %x", t, (newest - last_fail) * 1e-6, health * 1e-6, expected, p.gps_check_mask); }

			c.peak("origin set early by (s)", (double)((int64_t)(last_fail + health - newest)) * 1e-6);

			if (std::fabs(alt - (1e-3f * (float)g->alt + pz)) > 1e-3) { c.fail("altitude of the origin wrong", "t %.3f %.4f, GPS %.4f, height state %.4f", t, alt, g->alt * 1e-3, -pz); }

			const auto s = before.flags;

			if (!s.ev_pos && !s.ev_vel && !s.opt_flow && !s.gps && !s.fuse_aspd && !s.fuse_beta && (std::fabs(lat - g->lat * 1e-7) > 1e-9 || std::fabs(lon - g->lon * 1e-7) > 1e-9)) { c.fail("position of the origin wrong", "t %.3f %.9f %.9f, GPS %.7f %.7f", t, lat, lon, g->lat * 1e-7, g->lon * 1e-7); }

			o_lat = lat;
			o_lon = lon;

		} else if (!has && passed && !close && inited) { c.fail("origin not set although the checks passed long enough", "t %.3f: last failure %.3f s ago, %.3f s required, failing %x mask %x", t, (newest - last_fail) * 1e-6, health * 1e-6, expected, p.gps_check_mask); }

		else if (origin && (!has || lat != o_lat || lon != o_lon)) { c.fail("origin moved by GPS data", "t %.3f", t); o_lat = lat; o_lon = lon; }

		origin = has;
		h = h * 131 + got + has;

		if (c.case_violations >= 4) { break; }
	}

	for (int i = 0; i < 10; i++) { if (seen_masks & (1 << i)) { static const char *const fn[] = {"failed: fix", "failed: satellites", "failed: dilution", "failed: horizontal accuracy", "failed: vertical accuracy", "failed: speed accuracy", "failed: horizontal drift", "failed: vertical drift", "failed: horizontal speed", "failed: vertical speed"}; c.count(fn[i]); } }

	if (inited) { c.count("flights"); }

	c.seen(h);
}
