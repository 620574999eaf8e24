// E20: estimate against simulated truth, with sensors that are as good as the filter is told
#include "modes.hpp"
using namespace sim;

namespace
{
enum Kind { K_GPS, K_WING, K_GPSYAW, K_EVYAW, K_EVROT, K_EVVEL, K_FLOW, K_DRAG, K_RNGHGT, N_KIND };
const char *const kind_names[N_KIND] = {"gps", "fixed wing", "gps heading", "vision with heading", "vision rotated", "vision velocity", "optical flow", "drag", "range height"};
}

VH_CHECK(E20)
{
	auto &r = c.rng;
	Config k = stepConfig(r);
	auto &p = k.params;
	const Kind kind = (Kind)r.below(N_KIND);
	k.vehicle = MULTI;
	k.lat0 = r.uni(-45, 45);
	k.dur = 75;
	k.imu_dt = r.chance(0.5) ? 0.01 : r.uni(0.004, 0.01);
	k.imu_jitter = r.chance(0.5) ? r.uni(0, 0.2) : 0;
	k.gyro_bias = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * 0.02;
	k.accel_bias = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * 0.1;
	k.roll0 = r.uni(-0.15, 0.15);
	k.pitch0 = r.uni(-0.15, 0.15);
	k.speed = r.uni(2, 10);
	p.gyro_noise = 0.015f;
	p.accel_noise = 0.35f;
	p.gyro_bias_p_noise = 1e-3f;
	p.accel_bias_p_noise = 3e-3f;
	auto rate = [&](SensorCfg & s, double lo, double hi) { s.period = r.logu(lo, hi); s.jitter = r.chance(0.5) ? r.uni(0, 0.3) * s.period : 0; };
	rate(k.mag, 0.015, 0.06);
	rate(k.baro, 0.015, 0.1);
	rate(k.gps, 0.1, 0.25);
	rate(k.rng, 0.03, 0.1);
	rate(k.flow, 0.03, 0.1);
	rate(k.ev, 0.03, 0.1);
	rate(k.aspd, 0.05, 0.12);
	p.static_pressure_coef_xp = p.static_pressure_coef_xn = p.static_pressure_coef_yp = p.static_pressure_coef_yn = p.static_pressure_coef_z = 0;
	bool absolute = true;
	CallType aid = GPS;

	switch (kind) {
	case K_GPS: if (r.chance(0.4)) { p.vdist_sensor_type = VDIST_SENSOR_GPS; } break;

	case K_WING:
		k.vehicle = FIXED;
		k.speed = r.uni(12, 20);
		k.height = 60;
		k.aspd.on = r.chance(0.8);
		k.beta = r.chance(0.8);
		break;

	case K_GPSYAW:
		p.fusion_mode |= MASK_USE_GPSYAW;
		k.gps_yaw = true;
		k.gps_yaw_offset = r.chance(0.5) ? r.uni(-PI, PI) : 0;
		// (without magnetometer fusion the heading is reset to that of the GPS velocity based estimator in flight)
		break;

	case K_EVYAW:
		k.ev.on = true;
		k.gps.on = false;
		p.fusion_mode = MASK_USE_EVYAW | MASK_USE_EVPOS | (r.chance(0.4) ? MASK_USE_EVVEL : 0);
		aid = EV;
		if (r.chance(0.4)) { p.vdist_sensor_type = VDIST_SENSOR_EV; }
		break;

	case K_EVROT:
		k.ev.on = true;
		k.gps.on = false;
		p.fusion_mode = MASK_USE_EVPOS | MASK_ROTATE_EV | (r.chance(0.4) ? MASK_USE_EVVEL : 0);
		k.ev_yaw = r.uni(-PI, PI);
		k.ev_origin = V3(r.uni(-2, 2), r.uni(-2, 2), 0);
		// (the rotation is found from each sample, its errors act on the distance from the origin of the vision frame)
		k.s_evq = 0.001;
		k.ev_pos_var = 1;
		k.speed = r.uni(0.5, 1.5);
		absolute = false;
		aid = EV;
		break;

	case K_EVVEL:
		k.ev.on = true;
		k.gps.on = false;
		p.fusion_mode = MASK_USE_EVVEL;
		// (velocity in the body frame is fused as if the attitude was known: no bound for the heading then)
		k.ev_vel_frame = velocity_frame_t::LOCAL_FRAME_FRD;
		absolute = false;
		aid = EV;
		break;

	case K_FLOW:
		lowMulti(k, r);
		k.accel = 2;
		k.rng.on = k.flow.on = true;
		k.gps.on = false;
		p.fusion_mode = MASK_USE_OF;
		k.flow_max_rate = 5;
		k.flow_max_hgt = 80;
		absolute = false;
		aid = FLOW;
		break;

	case K_DRAG:
		p.fusion_mode |= MASK_USE_DRAG;
		k.speed = r.uni(4, 10);
		k.height = 30;
		p.bcoef_x = (float)r.uni(15, 40);
		p.bcoef_y = (float)r.uni(15, 40);
		k.drag_bx = p.bcoef_x;
		k.drag_by = p.bcoef_y;
		break;

	case K_RNGHGT:
		lowMulti(k, r);
		k.rng.on = true;
		p.vdist_sensor_type = VDIST_SENSOR_RANGE;
		k.accel = 1.5;
		break;

	default: break;
	}

	if (!k.gps.on) {
		// where the vehicle is is not known: the declination is what is configured
		k.wmm = false;
		p.mag_declination_deg = (float)r.uni(-30, 30);
		k.decl = p.mag_declination_deg * D2R;
		k.incl = r.uni(-0.8, 0.8);
		k.strength = r.uni(0.3, 0.6);
	}

	if (k.mag.on && r.chance(0.3) && kind != K_GPSYAW) { p.mag_fusion_type = r.chance(0.5) ? MAG_FUSE_TYPE_HEADING : MAG_FUSE_TYPE_AUTO; }

	// sensors as good as the filter is told, or better
	const double q = r.uni(0.3, 0.9);
	p.gps_vel_noise = (float)r.uni(0.1, 0.4);
	p.gps_pos_noise = (float)r.uni(0.3, 0.8);
	p.baro_noise = (float)r.uni(0.5, 2.5);
	p.mag_noise = 0.05f;
	k.s_gpsv = q * 0.7 * p.gps_vel_noise;
	k.s_gpsp = q * 0.7 * p.gps_pos_noise;
	k.s_gpsh = q * p.gps_pos_noise;
	k.s_baro = q * std::min(1.f, p.baro_noise) * 0.5;
	k.s_mag = q * 0.01;
	k.s_gyro = q * 0.005;
	k.s_accel = q * 0.15;
	k.s_tas = q * p.eas_noise;
	// interruption of the aiding
	double g0 = 1e9, g1 = 1e9;

	if (r.chance(0.6)) {
		g0 = r.uni(k.t_takeoff + 14, k.dur - 20);
		g1 = g0 + r.logu(0.3, 4);
		k.faults.push_back({aid, DROPOUT, g0, g1, 0});
	}

	Flight f = Generator(k, r.u64()).run();
	auto e = std::make_unique<Ekf>();
	configure(*e, k);
	double worst[6] {};
	uint64_t h = 0;
	int n = 0;
	const std::string name = kind_names[kind];
	// greatest error seen in thousands of flights on code that tracks, doubled
	const char *const en[] = {"tilt", "yaw", "horizontal velocity", "vertical velocity", "horizontal position", "height"};
	double bound[6] = {0.07, 0.3, 0.8, 0.7, 4.6, 1.6};

	switch (kind) {
	case K_EVYAW: bound[4] = 0.4; break;

	case K_EVROT: bound[0] = 0.08; bound[1] = 0.4; bound[2] = 1.6; break;

	case K_EVVEL: bound[2] = 0.3; break;

	case K_FLOW: bound[0] = 0.11; bound[2] = 2; break;

	case K_RNGHGT: bound[5] = 2; break;

	default: break;
	}

	if (p.vdist_sensor_type == VDIST_SENSOR_GPS) { bound[5] = 3.6; }

	observe(*e, f, [&](const Call &, const Snap &, const Snap & s, double t) {
		if (!s.valid) { return true; }

		const Truth &tr = f.at(s.imu_us);
		const double th = (tr.us - k.start_us) * 1e-6;

		if (th < k.t_takeoff + 10 || (th > g0 - 0.1 && th < g1 + 8)) { return true; }

		const Q qe(s.x[0], s.x[1], s.x[2], s.x[3]);
		const V3 up = V3(0, 0, 1);
		const V3 dr = (qe * tr.q.conj()).rotVec(); // rotation from true to estimated, in the navigation frame
		const V3 dv = V3(s.x[4], s.x[5], s.x[6]) - tr.v, dp = V3(s.x[7], s.x[8], s.x[9]) - tr.p;
		if (c.verbose && getenv("T0") && t > atof(getenv("T0")) && t < atof(getenv("T1"))) { fprintf(vh::out(), "%.3f dr %.3f %.3f %.3f dv %.3f %.3f %.3f dp %.2f %.2f %.2f ratio %.2f gb %.3f %.3f %.3f ab %.3f %.3f %.3f %s\n", t, dr.x, dr.y, dr.z, dv.x, dv.y, dv.z, dp.x, dp.y, dp.z, s.ratio[O_YAW], s.x[10], s.x[11], s.x[12], s.x[13], s.x[14], s.x[15], bits(s.cs).c_str()); }

		const double err[6] = {(qe.rotInv(up) - tr.q.rotInv(up)).norm(), std::fabs(dr.z), std::hypot(dv.x, dv.y), std::fabs(dv.z), absolute ? std::hypot(dp.x, dp.y) : 0, std::fabs(dp.z)};
		c.eval();
		n++;

		for (int i = 0; i < 6; i++) {
			worst[i] = std::max(worst[i], err[i]);

			if (!(err[i] <= bound[i])) {
				return c.fail("lost", "%s: %s is off by %.3f (never more than %.2f when tracking) at %.2f s", name.c_str(), en[i], err[i], bound[i], t), false;
			}
		}

		if (n % 100 == 0) { for (int i = 0; i < 6; i++) { h = h * 1099511628211ull + (uint64_t)(err[i] / bound[i] * 20); } }

		return true;
	});

	for (int i = 0; i < 6; i++) { c.peak((name + " " + en[i]).c_str(), worst[i]); }

	// the filter has to have had an estimate for nearly all of the time looked at
	const double looked = k.dur - k.t_takeoff - 10 - (g0 < 1e8 ? g1 - g0 + 8.1 : 0);

	if (!c.case_violations && n * 0.012 < 0.5 * looked) { c.fail("absent", "%s: the filter had an estimate for only %d of its updates in %.0f s", name.c_str(), n, looked); }

	c.count("flights");
	c.count(name.c_str());
	c.seen(h);
}
