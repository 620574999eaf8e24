// Flight configurations shared by the filter monitors
#pragma once
#include "ekf_sim.hpp"
namespace sim
{
// sensors spaced widely enough that nothing is averaged or dropped on the way in
inline Config stepConfig(vh::Rng &r)
{
	Config k;
	k.vehicle = r.chance(0.65) ? MULTI : FIXED;
	k.dur = 45;
	k.t_takeoff = r.uni(16, 22);
	k.yaw0 = r.uni(-PI, PI);
	k.lat0 = r.uni(-60, 60);
	k.lon0 = r.uni(-180, 180);
	k.alt0 = r.uni(-50, 2000);
	k.gyro_bias = V3(r.gauss(), r.gauss(), r.gauss()) * 0.01;
	k.accel_bias = V3(r.gauss(), r.gauss(), r.gauss()) * 0.05;
	k.wind = V3(r.uni(-6, 6), r.uni(-6, 6), 0);
	k.start_us = 1000000 + r.below(3000000000ull);
	auto &p = k.params;
	auto arm = [&](double s) { return Vector3f(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); };
	p.imu_pos_body = arm(0.2);
	p.gps_pos_body = arm(0.8);
	p.ev_pos_body = arm(0.5);
	p.rng_pos_body = arm(0.4);
	p.flow_pos_body = arm(0.4);
	p.gps_check_mask = 0;
	p.gyro_noise = r.logu(0.005, 0.05);
	p.accel_noise = r.logu(0.1, 1);
	p.gyro_bias_p_noise = r.logu(3e-4, 5e-3);
	p.accel_bias_p_noise = r.logu(1e-3, 1e-2);
	p.mage_p_noise = r.logu(1e-4, 5e-3);
	p.magb_p_noise = r.logu(3e-5, 5e-4);
	p.gps_vel_noise = r.uni(0.1, 0.5);
	p.gps_pos_noise = r.uni(0.2, 1);
	p.baro_noise = r.uni(0.5, 3);
	p.mag_noise = r.uni(0.03, 0.08);
	auto sensor = [&](SensorCfg & s, double per, float &delay) {
		s.on = true;
		s.period = per * r.uni(0.95, 1.1);
		s.phase = r.unit() * per;
		delay = (float)r.range(0, 150); // whole milliseconds: no question of rounding the time stamps
		s.delay = delay * 1e-3;
	};
	k.rng_min = 0.1;
	k.rng_max = 80;
	p.rng_gnd_clearance = 0.1;
	sensor(k.mag, 0.11, p.mag_delay_ms);
	sensor(k.gps, 0.2, p.gps_delay_ms);
	sensor(k.baro, 0.12, p.baro_delay_ms);
	sensor(k.rng, 0.11, p.range_delay_ms);
	sensor(k.flow, 0.12, p.flow_delay_ms);
	sensor(k.ev, 0.11, p.ev_delay_ms);
	sensor(k.aux, 0.13, p.auxvel_delay_ms);
	sensor(k.aspd, 0.12, p.airspeed_delay_ms);
	k.rng.on = k.flow.on = k.ev.on = k.aux.on = k.aspd.on = false;
	return k;
}

inline void lowMulti(Config &k, vh::Rng &r)
{
	k.vehicle = MULTI;
	k.height = r.uni(3, 12);
	k.speed = r.uni(1, 5);
	k.climb = 1.5;
	k.wind = k.wind * 0.3;
}
inline void noise(Config &k, vh::Rng &r, CallType t, double mag)
{
	if (r.chance(0.6)) { k.faults.push_back({t, SPIKE, k.t_takeoff + r.uni(-4, 8), k.dur, mag * r.logu(0.3, 10)}); }
}

enum Profile { P_GPS, P_GPSHGT, P_RNGHGT, P_EVPOS, P_EVVEL, P_EVODO, P_AUX, P_NOAID, P_VERT, N_VELPOS,
	       P_MAGTYPE = 20, P_GPSYAW, P_EVYAW, P_NOMAG, P_INDOOR, P_SYNTHZ, P_MAGBAD, N_MAG,
	       P_WING = 40, P_WINGLOSS, P_DRAG, P_FLOW, P_FLOWGPS, N_AIR
	     };

inline void profile(Config &k, vh::Rng &r, int which)
{
	auto &p = k.params;

	switch (which) {
	case P_GPSHGT:
		p.vdist_sensor_type = VDIST_SENSOR_GPS;
		break;

	case P_RNGHGT:
		lowMulti(k, r);
		k.rng.on = true;
		p.vdist_sensor_type = VDIST_SENSOR_RANGE;
		p.rng_sens_pitch = r.chance(0.5) ? r.uni(-0.15, 0.15) : 0;
		k.accel = 1.5;
		break;

	case P_EVPOS: case P_EVVEL: case P_EVODO:
		k.ev.on = true;
		k.ev_vel_frame = r.chance(0.5) ? velocity_frame_t::BODY_FRAME_FRD : velocity_frame_t::LOCAL_FRAME_FRD;
		p.fusion_mode = which == P_EVPOS ? MASK_USE_EVPOS | (r.chance(0.4) ? MASK_USE_EVVEL : 0) : which == P_EVVEL ? MASK_USE_EVVEL : MASK_USE_EVPOS | MASK_USE_GPS;

		if (r.chance(0.6)) {
			p.fusion_mode |= MASK_ROTATE_EV;
			k.ev_yaw = r.uni(-PI, PI);
		}

		k.ev_origin = V3(r.uni(-20, 20), r.uni(-20, 20), 0);

		if (which != P_EVODO && r.chance(0.5)) { k.gps.on = false; }

		if (r.chance(0.3)) { p.vdist_sensor_type = VDIST_SENSOR_EV; }

		break;

	case P_AUX:
		k.aux.on = true;

		if (r.chance(0.4)) { k.ev.on = true; p.fusion_mode = MASK_USE_EVVEL; k.gps.on = false; }

		break;

	case P_NOAID:
		k.gps.on = r.chance(0.3);
		p.fusion_mode = 0;

		if (r.chance(0.5)) { k.faults.push_back({MAG, DROPOUT, 40, 60, 0}); }

		break;

	case P_VERT:
		// acceleration errors and clipping in flight
		k.faults.push_back({IMU, r.chance(0.5) ? SPIKE : BIAS_STEP, k.t_takeoff + 6, k.t_takeoff + r.uni(7, 16), r.uni(-8, 8)});

		if (r.chance(0.5)) { p.vdist_sensor_type = VDIST_SENSOR_GPS; }

		break;

	case P_MAGTYPE: {
			const int t[] = {MAG_FUSE_TYPE_AUTO, MAG_FUSE_TYPE_HEADING, MAG_FUSE_TYPE_3D};
			p.mag_fusion_type = t[r.below(3)];
			p.mag_declination_source = r.below(8);
			p.mag_declination_deg = r.uni(-30, 30);

			if (!(p.mag_declination_source & MASK_USE_GEO_DECL)) { k.wmm = false; k.decl = p.mag_declination_deg * D2R; k.incl = r.uni(-1.2, 1.2); k.strength = r.uni(0.3, 0.6); }

			if (r.chance(0.3)) { k.mag_bias = V3(r.uni(-0.05, 0.05), r.uni(-0.05, 0.05), r.uni(-0.05, 0.05)); }

			break;
		}

	case P_GPSYAW:
		p.fusion_mode |= MASK_USE_GPSYAW;
		k.gps_yaw = true;
		k.gps_yaw_offset = r.chance(0.5) ? r.uni(-PI, PI) : 0;
		noise(k, r, GPS, 1);
		break;

	case P_EVYAW:
		k.ev.on = true;
		p.fusion_mode = MASK_USE_EVYAW | (r.chance(0.7) ? MASK_USE_EVPOS : 0) | (r.chance(0.3) ? MASK_USE_EVVEL : 0);

		if (r.chance(0.5)) { k.gps.on = false; }

		if (r.chance(0.4)) { k.ev_yaw = r.uni(-0.3, 0.3); }

		break;

	case P_NOMAG:
		p.mag_fusion_type = MAG_FUSE_TYPE_NONE;

		if (r.chance(0.5)) { p.fusion_mode = 0; }

		break;

	case P_INDOOR:
		p.mag_fusion_type = MAG_FUSE_TYPE_INDOOR;
		p.fusion_mode = 0;

		if (r.chance(0.5)) { k.aux.on = true; }

		break;

	case P_SYNTHZ:
		p.synthesize_mag_z = 1;
		k.mag_bias = V3(0, 0, r.uni(-0.1, 0.1));
		break;

	case P_MAGBAD:
		noise(k, r, MAG, 0.3);

		if (r.chance(0.4)) { p.check_mag_strength = 1; }

		if (r.chance(0.4)) { p.mag_fusion_type = MAG_FUSE_TYPE_HEADING; }

		break;

	case P_WING: case P_WINGLOSS:
		k.vehicle = FIXED;
		k.speed = r.uni(12, 20);
		k.height = 60;
		k.aspd.on = r.chance(0.85) || which == P_WINGLOSS;
		k.beta = r.chance(0.8) || which == P_WINGLOSS;
		k.dur = which == P_WINGLOSS ? 65 : 50;
		k.eas2tas = r.uni(0.95, 1.3);
		p.beta_noise = r.uni(0.1, 0.5);
		p.eas_noise = r.uni(0.5, 2);
		p.wind_vel_p_noise = r.logu(0.02, 0.5);
		p.wind_vel_p_noise_scaler = r.uni(0, 1);
		p.initial_wind_uncertainty = r.uni(0.5, 2);

		if (which == P_WINGLOSS) { const double t = k.t_takeoff + r.uni(14, 18); k.faults.push_back({GPS, DROPOUT, t, t + r.uni(10, 25), 0}); }

		break;

	case P_DRAG:
		k.vehicle = MULTI;
		p.fusion_mode |= MASK_USE_DRAG;
		k.speed = r.uni(3, 12);
		k.height = 30;
		p.bcoef_x = (float)r.uni(10, 60);
		p.bcoef_y = (float)r.uni(10, 60);
		k.drag_bx = p.bcoef_x;
		k.drag_by = p.bcoef_y;
		p.drag_noise = r.uni(0.3, 2.5);
		break;

	case P_FLOW: case P_FLOWGPS:
		lowMulti(k, r);
		k.rng.on = k.flow.on = true;
		p.fusion_mode = MASK_USE_OF | (which == P_FLOWGPS ? MASK_USE_GPS : 0);
		k.gps.on = which == P_FLOWGPS || r.chance(0.3);
		k.flow_gyro_bias = r.chance(0.5) ? r.uni(-0.05, 0.05) : 0;
		k.flow_gyro = r.chance(0.8);
		k.flow_quality = (uint8_t)r.range(60, 255);
		k.flow_max_rate = 5;
		k.flow_max_hgt = 80;
		p.flow_noise = r.uni(0.05, 0.3);
		p.flow_noise_qual_min = r.uni(0.3, 0.8);
		p.flow_qual_min = (int32_t)r.range(0, 100);

		if (k.flow_quality < p.flow_qual_min + 5) { k.flow_quality = (uint8_t)(p.flow_qual_min + 5); }

		if (which == P_FLOWGPS) { p.req_sacc = 0.5; const double t = k.t_takeoff + 6; k.faults.push_back({GPS, DROPOUT, t, t + 12, 0}); }

		break;
	}
}

inline Config velposConfig(vh::Rng &r) { Config k = stepConfig(r); profile(k, r, r.below(N_VELPOS)); return k; }
inline Config magConfig(vh::Rng &r) { Config k = stepConfig(r); profile(k, r, P_MAGTYPE + r.below(N_MAG - P_MAGTYPE)); return k; }
inline Config airConfig(vh::Rng &r) { Config k = stepConfig(r); profile(k, r, P_WING + r.below(N_AIR - P_WING)); return k; }
inline Config anyConfig(vh::Rng &r) { const double u = r.unit(); return u < 0.4 ? velposConfig(r) : u < 0.7 ? magConfig(r) : airConfig(r); }
// outliers on every sensor
inline void outliers(Config &k, vh::Rng &r)
{
	noise(k, r, GPS, 5);
	noise(k, r, BARO, 10);
	noise(k, r, MAG, 0.1);
	noise(k, r, RNG, 1);
	noise(k, r, FLOW, 0.5);
	noise(k, r, EV, 1);
	noise(k, r, AUX, 1);
	noise(k, r, ASPD, 5);
}


// episodes of flow of poor quality or beyond the sensor's limits; returns the times (us) of each
inline std::vector<std::pair<uint64_t, uint64_t>> spoilFlow(Flight &f, vh::Rng &r, int episodes, double maxlen = 15)
{
	std::vector<std::pair<uint64_t, uint64_t>> w;

	for (int i = 0; i < episodes; i++) {
		const uint64_t t0 = f.cfg.start_us + (uint64_t)(r.uni(0, f.cfg.dur) * 1e6), t1 = t0 + (uint64_t)(r.logu(0.3, maxlen) * 1e6);
		const int what = f.cfg.params.flow_qual_min > 0 ? r.below(2) : 1;
		w.push_back({t0, t1});

		for (flowSample &s : f.flow) {
			if (s.time_us < t0 || s.time_us > t1) { continue; }

			if (what == 0) { s.quality = (uint8_t)r.below(f.cfg.params.flow_qual_min); }

			else { const float n = s.flow_xy_rad.norm(), want = (float)f.cfg.flow_max_rate * s.dt * r.uni(1.02, 1.6); s.flow_xy_rad = n > 1e-3f ? Vector2f(s.flow_xy_rad * (want / n)) : Vector2f(want, 0); }
		}
	}

	return w;
}

// every gate, noise and reported accuracy different from the others
inline void spread(Config &k, vh::Rng &r)
{
	auto &p = k.params;
	auto gate = [&](float &g) { g = r.uni(2.2, 6.5); };
	gate(p.baro_innov_gate);
	gate(p.gps_pos_innov_gate);
	gate(p.gps_vel_innov_gate);
	gate(p.heading_innov_gate);
	gate(p.mag_innov_gate);
	gate(p.tas_innov_gate);
	gate(p.beta_innov_gate);
	gate(p.range_innov_gate);
	gate(p.ev_vel_innov_gate);
	gate(p.ev_pos_innov_gate);
	gate(p.flow_innov_gate);
	gate(p.auxvel_gate);
	p.mag_heading_noise = r.uni(0.15, 0.4);
	p.range_noise = r.uni(0.05, 0.3);
	p.pos_noaid_noise = r.uni(3, 20);
	k.gps_eph = r.uni(0.3, 3);
	k.gps_epv = r.uni(0.5, 4);
	k.gps_sacc = r.uni(0.1, 0.8);
	k.ev_pos_var_axes = V3(r.uni(0.5, 3), r.uni(0.5, 3), r.uni(0.5, 3));

	if (r.chance(0.5)) { k.ev_pos_var = r.logu(0.005, 1); }

	double a[9];

	for (double &v : a) { v = r.uni(-0.12, 0.12); }

	auto dot = [&](int i, int j) { return a[3 * i] * a[3 * j] + a[3 * i + 1] * a[3 * j + 1] + a[3 * i + 2] * a[3 * j + 2]; };
	const double cov[6] = {dot(0, 0) + 0.003, dot(1, 1) + 0.003, dot(2, 2) + 0.003, dot(0, 1), dot(0, 2), dot(1, 2)};
	std::copy(cov, cov + 6, k.ev_vel_cov);
	k.ev_ang_var = r.logu(0.001, 0.02);
	k.aux_var = V3(r.logu(0.005, 0.2), r.logu(0.005, 0.2), r.logu(0.005, 0.2));
}

// everything at once: realistic sensor rates, any mix of sensors, parameters and faults
inline Config wildConfig(vh::Rng &r, double dur = 60, int faults = 4)
{
	Config k = anyConfig(r);
	auto &p = k.params;
	k.dur = dur;
	k.imu_dt = r.chance(0.5) ? 0.01 : r.uni(0.0025, 0.012);
	k.imu_jitter = r.chance(0.5) ? r.uni(0, 0.3) : 0;
	k.t_takeoff = r.uni(12, 22);

	if (r.chance(0.25)) { k.t_land = r.uni(k.t_takeoff + 10, dur); }

	auto rate = [&](SensorCfg & s, double lo, double hi, double on) {
		s.period = r.logu(lo, hi);
		s.jitter = r.chance(0.5) ? r.uni(0, 0.5) * s.period : 0;

		if (on >= 0 && r.chance(0.3)) { s.on = r.chance(on); }
	};
	rate(k.mag, 0.01, 0.12, -1);
	rate(k.baro, 0.01, 0.12, -1);
	rate(k.gps, 0.1, 0.4, 0.8);
	rate(k.rng, 0.03, 0.15, 0.5);
	rate(k.flow, 0.02, 0.12, 0.5);
	rate(k.ev, 0.02, 0.15, 0.5);
	rate(k.aux, 0.03, 0.2, 0.3);
	rate(k.aspd, 0.05, 0.2, 0.5);

	if (r.chance(0.3)) {
		int bits = 0;
		const int all[] = {MASK_USE_GPS, MASK_USE_OF, MASK_INHIBIT_ACC_BIAS, MASK_USE_EVPOS, MASK_USE_EVYAW, MASK_USE_DRAG, MASK_ROTATE_EV, MASK_USE_GPSYAW, MASK_USE_EVVEL};

		for (int b : all) { if (r.chance(b == MASK_USE_GPS ? 0.7 : 0.3)) { bits |= b; } }

		p.fusion_mode = bits;
	}

	if (r.chance(0.2)) { p.vdist_sensor_type = r.below(4); }

	if (r.chance(0.2)) { p.mag_fusion_type = r.below(6); }

	if (r.chance(0.2)) { p.range_aid = 1; p.max_hagl_for_range_aid = r.uni(2, 20); p.max_vel_for_range_aid = r.uni(0.5, 10); }

	if (r.chance(0.2)) { p.synthesize_mag_z = 1; }

	if (r.chance(0.2)) { p.check_mag_strength = 1; }

	if (r.chance(0.3)) { p.gps_check_mask = 245; p.req_hdrift = 0.5; }

	if (r.chance(0.2)) { k.beta = true; }

	const int n = r.below(faults + 1);

	for (int i = 0; i < n; i++) {
		const CallType all[] = {GPS, BARO, MAG, RNG, FLOW, EV, AUX, ASPD, IMU};
		const CallType t = all[r.below(9)];
		const double t0 = r.uni(2, dur), len = r.logu(0.3, 20);

		if (t == IMU) {
			const FaultType ft[] = {SPIKE, BIAS_STEP, NOISY};
			k.faults.push_back({t, ft[r.below(3)], t0, t0 + len, r.uni(-10, 10)});

		} else {
			const FaultType ft = (FaultType)r.below(N_FAULTS);
			k.faults.push_back({t, ft, t0, t0 + len, ft == LATE ? r.uni(0, 0.4) : ft == NOISY ? r.logu(1, 30) : (t == MAG ? 0.3 : 10) * r.logu(0.03, 10) * (r.chance(0.5) ? 1 : -1)});
		}
	}

	if (r.chance(0.2)) { k.vibration = r.uni(0, 5); }

	return k;
}
} // namespace sim
