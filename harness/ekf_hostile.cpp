// E01: hostile use under the sanitizers; E22: determinism and independence of instances
#include "ekf_config.hpp"
#include "ekf_all.hpp"
#include <thread>
#include <csetjmp>
using namespace sim;

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define INITIALISED(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef INITIALISED
#define INITIALISED(p, n) (void)(p)
#endif

static volatile uint64_t g_sink;

// every published value is defined
static void readEverything(const Ekf &e)
{
	readAll(e, [](const char *, const void *p, size_t n) {
		INITIALISED(p, n);
		uint8_t s = 0;

		for (size_t i = 0; i < n; i++) { s ^= ((const uint8_t *)p)[i]; }

		g_sink = g_sink + s;
	});
}

struct Evil {
	vh::Rng &r;
	double level; // how much of the data is not what a sensor reports
	float val(double lo, double hi)
	{
		if (!r.chance(level)) { return (float)r.uni(lo, hi); }

		switch (r.below(12)) {
		case 0: return NAN;

		case 1: return INFINITY;

		case 2: return -INFINITY;

		case 3: return 3.4e38f;

		case 4: return -3.4e38f;

		case 5: return 1e-42f;

		case 6: return 0.f;

		case 7: return -0.f;

		case 8: return (float)r.logu(1, 1e12);

		case 9: return -(float)r.logu(1, 1e12);

		case 10: return (float)(hi * 1e3);

		default: return (float)lo;
		}
	}
	Vector3f vec(double lo, double hi) { return Vector3f(val(lo, hi), val(lo, hi), val(lo, hi)); }
	uint64_t stamp(uint64_t now)
	{
		if (!r.chance(level)) { return now - std::min<uint64_t>(now, r.below(50000)); }

		switch (r.below(8)) {
		case 0: return 0;

		case 1: return UINT64_MAX;

		case 2: return now + r.u64() % 100000000ull;

		case 3: return now - std::min<uint64_t>(now, r.u64() % 100000000ull);

		case 4: return r.u64();

		case 5: return 1;

		case 6: return now + 1;

		default: return now;
		}
	}
};

static void wildParameters(parameters &p, vh::Rng &r)
{
	p.fusion_mode = r.u64() & 1023;
	p.vdist_sensor_type = r.below(4);
	p.terrain_fusion_mode = r.below(4);
	p.sensor_interval_min_ms = (int)r.range(1, 100);

	for (float *d : {&p.mag_delay_ms, &p.baro_delay_ms, &p.gps_delay_ms, &p.airspeed_delay_ms, &p.flow_delay_ms, &p.range_delay_ms, &p.ev_delay_ms, &p.auxvel_delay_ms}) { *d = r.chance(0.3) ? 0 : r.range(0, 500); }

	p.mag_fusion_type = r.below(6);
	p.mag_declination_source = r.below(8);
	p.mag_declination_deg = r.uni(-180, 180);
	p.range_aid = r.below(2);
	p.gps_check_mask = r.u64() & 511;
	p.synthesize_mag_z = r.below(2);
	p.check_mag_strength = r.below(2);
	p.rng_sens_pitch = r.uni(-1, 1);
	p.flow_qual_min = r.range(0, 255);
	p.is_moving_scaler = r.uni(0, 2);
	p.vel_Tau = r.logu(1e-3, 20);
	p.pos_Tau = r.logu(1e-3, 20);
	p.acc_bias_lim = r.uni(0, 1);
	p.acc_bias_learn_tc = r.logu(1e-2, 10);
	p.beta_avg_ft_us = r.logu(1e3, 1e6);
	p.reset_timeout_max = r.range(100000, 20000000);
	p.bad_acc_reset_delay_us = (int)r.range(0, 2000000);
	p.EKFGSF_reset_delay = r.range(0, 2000000);
	p.EKFGSF_yaw_err_max = r.uni(0.05, 3);

	for (Vector3f *v : {&p.imu_pos_body, &p.gps_pos_body, &p.rng_pos_body, &p.flow_pos_body, &p.ev_pos_body}) { if (r.chance(0.5)) { *v = Vector3f(r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)); } }

	for (float *d : {&p.static_pressure_coef_xp, &p.static_pressure_coef_xn, &p.static_pressure_coef_yp, &p.static_pressure_coef_yn, &p.static_pressure_coef_z}) { if (r.chance(0.3)) { *d = r.uni(-0.3, 0.3); } }

	for (float *d : {&p.gyro_noise, &p.accel_noise, &p.gps_vel_noise, &p.gps_pos_noise, &p.baro_noise, &p.mag_noise, &p.mag_heading_noise, &p.eas_noise, &p.beta_noise, &p.range_noise, &p.flow_noise, &p.drag_noise}) { if (r.chance(0.2)) { *d *= (float)r.logu(0.01, 100); } }

	for (float *d : {&p.baro_innov_gate, &p.gps_pos_innov_gate, &p.gps_vel_innov_gate, &p.heading_innov_gate, &p.mag_innov_gate, &p.tas_innov_gate, &p.beta_innov_gate, &p.range_innov_gate, &p.ev_vel_innov_gate, &p.ev_pos_innov_gate, &p.flow_innov_gate, &p.auxvel_gate}) { if (r.chance(0.2)) { *d = (float)r.uni(0, 100); } }
}

static void command(Ekf &e, vh::Rng &r, Evil &ev, vh::Ctx &c)
{
	switch (r.below(19)) {
	case 0: e.resetImuBias(); break;

	case 1: e.resetGyroBias(); break;

	case 2: e.resetAccelBias(); break;

	case 3: e.resetMagBias(); break;

	case 4: {
			// any place on earth
			const double lat = r.uni(-90, 90), lon = r.uni(-180, 180);
			e.setEkfGlobalOrigin(lat, lon, ev.val(-500, 9000));
			c.count("command: origin");
			break;
		}

	case 5: e.set_gnd_effect_flag(true); break;

	case 6: e.set_in_air_status(r.chance(0.5)); break;

	case 7: e.set_is_fixed_wing(r.chance(0.5)); break;

	case 8: e.set_fuse_beta_flag(r.chance(0.5)); break;

	case 9: e.set_gnd_effect_flag(r.chance(0.5)); break;

	case 10: e.set_air_density(ev.val(0.5, 1.4)); break;

	case 11: e.set_rangefinder_limits(ev.val(0, 1), ev.val(1, 100)); break;

	case 12: e.set_optical_flow_limits(ev.val(0, 10), ev.val(0, 1), ev.val(1, 100)); break;

	case 13: e.set_min_required_gps_health_time((uint32_t)r.u64()); break;

	case 14: { float d[3] = {}; bool b = false; e.get_gps_drift_metrics(d, &b); break; }

	case 15: e.clear_warning_events(); break;

	case 16: e.clear_information_events(); break;

	case 17:
		if (r.chance(0.2)) { wildParameters(*e.getParamHandle(), r); c.count("parameters changed in use"); }

		break;

	case 18:
		if (r.chance(0.1)) { e.init(r.u64() % 1000000000ull); c.count("command: init"); }

		break;
	}
}

VH_CHECK(E01)
{
	auto &r = c.rng;
	Evil ev{r, 0};
	std::unique_ptr<Ekf> ekf(new Ekf); // not value-initialised
	readEverything(*ekf); // before any data

	if (r.chance(0.5)) {
		// a plausible flight with corrupted values in between
		Config k = wildConfig(r, r.uni(15, 40), 6);

		if (r.chance(0.6)) { wildParameters(k.params, r); }

		Flight f = Generator(k, r.u64()).run();
		configure(*ekf, f.cfg);
		const double level = r.chance(0.3) ? 0 : r.logu(1e-4, 0.1);
		const double from = r.uni(0, 20);
		const double cmd = r.chance(0.5) ? 0 : r.logu(1e-4, 1e-2);
		bool air = false;

		for (const Call &call : f.calls) {
			const double t = (call.at - (double)f.cfg.start_us) * 1e-6;
			ev.level = 0.3;
			const bool bad = t > from && r.chance(level);

			if (bad) { c.count("corrupted samples"); }

			if (bad && r.chance(0.1)) { // time
				c.count("corrupted time stamps");
				const uint64_t w = ev.stamp(call.at);

				switch (call.type) {
				case IMU: f.imu[call.idx].time_us = w; break;

				case MAG: f.mag[call.idx].time_us = w; break;

				case GPS: f.gps[call.idx].time_usec = w; break;

				case BARO: f.baro[call.idx].time_us = w; break;

				case ASPD: f.aspd[call.idx].time_us = w; break;

				case RNG: f.rng[call.idx].time_us = w; break;

				case FLOW: f.flow[call.idx].time_us = w; break;

				case EV: f.ev[call.idx].time_us = w; break;

				case AUX: f.aux[call.idx].time_us = w; break;

				default: break;
				}

			} else if (bad) {
				switch (call.type) {
				case IMU: if (r.chance(0.05)) { if (r.chance(0.5)) { f.imu[call.idx].delta_ang = ev.vec(-1, 1); } else { f.imu[call.idx].delta_vel = ev.vec(-1, 1); } } break;

				case MAG: f.mag[call.idx].mag = ev.vec(-1, 1); break;

				case GPS: {
						gps_message &g = f.gps[call.idx];

						switch (r.below(9)) {
						case 0: g.lat = (int32_t)r.u64(); break;

						case 1: g.lon = (int32_t)r.u64(); break;

						case 2: g.alt = (int32_t)r.u64(); break;

						case 3: g.vel_ned = ev.vec(-20, 20); break;

						case 4: g.yaw = ev.val(-4, 4); break;

						case 5: g.yaw_offset = ev.val(-4, 4); break;

						case 6: g.eph = ev.val(0, 10); g.epv = ev.val(0, 10); break;

						case 7: g.sacc = ev.val(0, 2); g.pdop = ev.val(0, 5); break;

						default: g.fix_type = r.below(256); g.nsats = r.below(256); g.vel_ned_valid = r.chance(0.5); break;
						}

						break;
					}

				case BARO: f.baro[call.idx].hgt = ev.val(-500, 9000); break;

				case ASPD: f.aspd[call.idx].true_airspeed = ev.val(0, 50); f.aspd[call.idx].eas2tas = ev.val(0.5, 2); break;

				case RNG: f.rng[call.idx].rng = ev.val(0, 100); f.rng[call.idx].quality = (int8_t)r.u64(); break;

				case FLOW: { flowSample &w = f.flow[call.idx]; w.dt = ev.val(0, 0.2); w.quality = r.below(256); w.flow_xy_rad = Vector2f(ev.val(-1, 1), ev.val(-1, 1)); w.gyro_xyz = ev.vec(-1, 1); break; }

				case EV: { extVisionSample &w = f.ev[call.idx]; w.pos = ev.vec(-100, 100); w.vel = ev.vec(-20, 20); w.quat = Quatf(ev.val(-1, 1), ev.val(-1, 1), ev.val(-1, 1), ev.val(-1, 1)); w.posVar = ev.vec(0, 1); w.angVar = ev.val(0, 1); break; }

				case AUX: f.aux[call.idx].vel = ev.vec(-20, 20); f.aux[call.idx].velVar = ev.vec(0, 1); break;

				default: break;
				}
			}

			apply(*ekf, f, call);

			if (cmd > 0 && r.chance(cmd)) { ev.level = r.chance(0.5) ? 0 : 0.3; command(*ekf, r, ev, c); }

			if (call.type == IMU) {
				ekf->update();
				c.eval();

				if (r.chance(0.01)) { readEverything(*ekf); }
			}

			if (ekf->control_status().flags.in_air != air) { air = !air; c.count("flight phase changes"); }
		}

		c.count("flights");
		c.seen(vh::mix(ekf->control_status().value, vh::mix(ekf->fault_status().value, ekf->innov_check_fail_status().value)));

	} else {
		// any call in any order
		parameters p;
		wildParameters(p, r);
		*ekf->getParamHandle() = p;
		uint64_t now = r.chance(0.2) ? r.u64() % 1000 : r.chance(0.1) ? UINT64_MAX - 1000000 : r.u64() % 10000000000ull;
		const double lv = r.chance(0.3) ? 0 : r.logu(1e-4, 0.3), tl = r.chance(0.5) ? 0 : r.logu(1e-4, 0.1);
		const int n = (int)r.logu(500, 20000);
		const double step = r.logu(500, 20000), imu_share = r.uni(0.2, 0.9);

		for (int i = 0; i < n; i++) {
			ev.level = lv;

			if (r.chance(imu_share)) {
				imuSample m{};
				now += (uint64_t)(step * r.uni(0.2, 2));
				ev.level = tl;
				m.time_us = r.chance(0.98) ? now : ev.stamp(now);
				ev.level = lv * 0.02;
				m.delta_ang = ev.vec(-0.02, 0.02);
				m.delta_vel = Vector3f(ev.val(-0.1, 0.1), ev.val(-0.1, 0.1), ev.val(-0.15, -0.05));
				m.delta_ang_dt = r.chance(0.95) ? (float)(step * 1e-6) : ev.val(0, 0.02);
				m.delta_vel_dt = r.chance(0.95) ? m.delta_ang_dt : ev.val(0, 0.02);

				for (bool &b : m.delta_vel_clipping) { b = r.chance(0.05); }

				ekf->setIMUData(m);

				if (r.chance(0.98)) { ekf->update(); }

				c.eval();
				continue;
			}

			ev.level = tl;
			const uint64_t w = ev.stamp(now);
			ev.level = lv;

			switch (r.below(10)) {
			case 0: { magSample s{}; s.time_us = w; s.mag = ev.vec(-0.5, 0.5); ekf->setMagData(s); break; }

			case 1: {
					gps_message g{};
					g.time_usec = w;
					g.lat = r.chance(lv) ? (int32_t)r.u64() : 473000000 + (int)r.range(-10000, 10000);
					g.lon = r.chance(lv) ? (int32_t)r.u64() : 85000000 + (int)r.range(-10000, 10000);
					g.alt = r.chance(lv) ? (int32_t)r.u64() : 400000 + (int)r.range(-10000, 10000);
					g.yaw = r.chance(0.5) ? NAN : ev.val(-4, 4);
					g.yaw_offset = r.chance(0.5) ? NAN : ev.val(-4, 4);
					g.fix_type = r.below(6);
					g.eph = ev.val(0, 3);
					g.epv = ev.val(0, 3);
					g.sacc = ev.val(0, 1);
					g.vel_m_s = ev.val(0, 10);
					g.vel_ned = ev.vec(-5, 5);
					g.vel_ned_valid = r.chance(0.9);
					g.nsats = r.below(30);
					g.pdop = ev.val(0, 3);
					ekf->setGpsData(g);
					break;
				}

			case 2: { baroSample s{}; s.time_us = w; s.hgt = ev.val(395, 405); ekf->setBaroData(s); break; }

			case 3: { airspeedSample s{}; s.time_us = w; s.true_airspeed = ev.val(0, 30); s.eas2tas = ev.val(0.9, 1.5); ekf->setAirspeedData(s); break; }

			case 4: { rangeSample s{}; s.time_us = w; s.rng = ev.val(0, 20); s.quality = (int8_t)r.range(-1, 100); ekf->setRangeData(s); break; }

			case 5: { flowSample s{}; s.time_us = w; s.quality = r.below(256); s.flow_xy_rad = Vector2f(ev.val(-0.1, 0.1), ev.val(-0.1, 0.1)); s.gyro_xyz = r.chance(0.2) ? Vector3f(NAN, NAN, NAN) : ev.vec(-0.1, 0.1); s.dt = ev.val(0, 0.1); ekf->setOpticalFlowData(s); break; }

			case 6: {
					extVisionSample s{};
					s.time_us = w;
					s.pos = ev.vec(-10, 10);
					s.vel = ev.vec(-5, 5);
					s.quat = Quatf(ev.val(-1, 1), ev.val(-1, 1), ev.val(-1, 1), ev.val(-1, 1));
					s.posVar = ev.vec(0, 1);

					for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) { s.velCov(a, b) = a == b ? ev.val(0, 1) : 0; } }

					s.angVar = ev.val(0, 1);
					s.vel_frame = r.chance(0.5) ? velocity_frame_t::LOCAL_FRAME_FRD : velocity_frame_t::BODY_FRAME_FRD;
					ekf->setExtVisionData(s);
					break;
				}

			case 7: { auxVelSample s{}; s.time_us = w; s.vel = ev.vec(-5, 5); s.velVar = ev.vec(0, 1); ekf->setAuxVelData(s); break; }

			case 8: command(*ekf, r, ev, c); break;

			case 9: if (r.chance(0.2)) { readEverything(*ekf); } break;
			}
		}

		c.count("random call sequences");
		c.seen(vh::mix(ekf->control_status().value, vh::mix(ekf->fault_status().value, ekf->innov_check_fail_status().value + 77)));
	}

	readEverything(*ekf);
}

// ---------------------------------------------------------------- E22
static uint64_t digest(const Ekf &e)
{
	uint64_t h = 1469598103934665603ull;
	readAll(e, [&](const char *, const void *p, size_t n) { for (size_t i = 0; i < n; i++) { h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ull; } });
	return h;
}

static const char *difference(const Ekf &a, const Ekf &b)
{
	std::vector<std::string> x;
	std::vector<const char *> names;
	readAll(a, [&](const char *n, const void *p, size_t k) { x.emplace_back((const char *)p, k); names.push_back(n); });
	size_t i = 0;
	const char *d = nullptr;
	readAll(b, [&](const char *, const void *p, size_t k) { if (!d && x[i] != std::string((const char *)p, k)) { d = names[i]; } i++; });
	return d;
}

struct Placed {
	void *mem;
	Ekf *e;
	Placed(uint8_t fill)
	{
		mem = aligned_alloc(64, (sizeof(Ekf) + 127) / 64 * 64);
		memset(mem, fill, sizeof(Ekf));
		e = new (mem) Ekf;
	}
	~Placed() { e->~Ekf(); free(mem); }
	Placed(const Placed &) = delete;
};

VH_CHECK(E22)
{
	auto &r = c.rng;
	Config k = wildConfig(r, r.uni(20, 50), 5);

	if (r.chance(0.3)) { wildParameters(k.params, r); }

	Flight f = Generator(k, r.u64()).run();
	Config k2 = wildConfig(r, k.dur, 5);
	Flight f2 = Generator(k2, r.u64()).run();
	// user commands at random instants, the same for both
	std::vector<std::pair<size_t, uint64_t>> cmds;

	if (r.chance(0.5)) { for (int i = 0; i < 6; i++) { cmds.push_back({r.below((uint32_t)f.calls.size()), r.u64()}); } }

	std::sort(cmds.begin(), cmds.end());
	vh::Ctx dummy;
	auto run = [&](Ekf & e, const Flight & fl, size_t i, bool withcmd, size_t &ci) {
		apply(e, fl, fl.calls[i]);

		while (withcmd && ci < cmds.size() && cmds[ci].first == i) {
			vh::Rng q(cmds[ci].second);
			Evil ev{q, 0};
			command(e, q, ev, dummy);
			ci++;
		}

		return fl.calls[i].type == IMU && e.update();
	};

	const int mode = r.below(3);
	auto a = std::make_unique<Placed>((uint8_t)0);
	auto b = std::make_unique<Placed>(r.chance(0.5) ? (uint8_t)0xff : (uint8_t)r.u64());
	configure(*a->e, f.cfg);
	configure(*b->e, f.cfg);

	if (mode < 2) {
		// side by side, the second one with other instances living and dying around it and read out at random times
		auto o = std::make_unique<Placed>((uint8_t)0x55);
		configure(*o->e, f2.cfg);
		size_t ca = 0, cb = 0, co = 0, j = 0;
		bool ok = true;

		for (size_t i = 0; i < f.calls.size() && ok; i++) {
			run(*a->e, f, i, true, ca);

			while (mode == 1 && j < f2.calls.size() && f2.calls[j].at <= f.calls[i].at + (f2.cfg.start_us - f.cfg.start_us)) { run(*o->e, f2, j++, false, co); }

			if (mode == 1 && r.chance(0.0003)) { o = std::make_unique<Placed>((uint8_t)r.u64()); configure(*o->e, f2.cfg); c.count("other instances destroyed"); }

			run(*b->e, f, i, true, cb);

			if (r.chance(0.02)) { readEverything(*b->e); c.count("read-outs of one instance"); }

			if (f.calls[i].type == IMU && (r.chance(0.03) || i + 20 > f.calls.size())) {
				c.eval();

				if (digest(*a->e) != digest(*b->e)) {
					const char *d = difference(*a->e, *b->e);
					ok = c.expect(false, "instances differ", "%s differs at %.3f s (%s)", d ? d : "?", (f.calls[i].at - (double)f.cfg.start_us) * 1e-6, mode == 1 ? "another instance running" : "same calls");
				}
			}
		}

		c.count(mode ? "paired flights with others" : "paired flights");

	} else {
		// concurrently in threads: same result as alone
		std::vector<uint64_t> da, db;
		auto go = [&](Ekf & e, const Flight & fl, bool wc, std::vector<uint64_t> &out) {
			size_t ci = 0;

			for (size_t i = 0; i < fl.calls.size(); i++) { run(e, fl, i, wc, ci); if (i % 2000 == 0) { out.push_back(digest(e)); } }

			out.push_back(digest(e));
		};
		go(*a->e, f, false, da);
		auto o = std::make_unique<Placed>((uint8_t)0x55);
		configure(*o->e, f2.cfg);
		std::vector<uint64_t> x;
		std::thread t1([&] { go(*b->e, f, false, db); }), t2([&] { go(*o->e, f2, false, x); });
		t1.join();
		t2.join();
		c.eval(da.size());
		c.expect(da == db, "concurrent run differs", "results differ when another instance runs in another thread");
		c.count("concurrent flights");
	}

	c.seen(vh::mix(a->e->control_status().value, mode));
}
