// Every value the estimator publishes, visited with a name
#pragma once
#include "ekf_sim.hpp"

namespace sim
{
template<typename V> void readAll(const Ekf &e, V v)
{
	float a[4], b, d, x;
	auto f = [&](const char *n, float y) { v(n, &y, sizeof y); };
	auto arr = [&](const char *n, const float *y, int k) { for (int i = 0; i < k; i++) { f(n, y[i]); } };
	auto vec = [&](const char *n, const auto &y, int k) { for (int i = 0; i < k; i++) { f(n, y(i)); } };
	auto u16 = [&](const char *n, uint16_t y) { v(n, &y, sizeof y); };
	auto u32 = [&](const char *n, uint32_t y) { v(n, &y, sizeof y); };
	e.getGpsVelPosInnov(a, b, a + 2, d); arr("gps innovation", a, 4); f("gps innovation", b); f("gps innovation", d);
	e.getGpsVelPosInnovVar(a, b, a + 2, d); arr("gps innovation variance", a, 4); f("gps innovation variance", b); f("gps innovation variance", d);
	e.getGpsVelPosInnovRatio(a[0], a[1], a[2], a[3]); arr("gps ratio", a, 4);
	e.getEvVelPosInnov(a, b, a + 2, d); arr("ev innovation", a, 4); f("ev innovation", b); f("ev innovation", d);
	e.getEvVelPosInnovVar(a, b, a + 2, d); arr("ev innovation variance", a, 4); f("ev innovation variance", b); f("ev innovation variance", d);
	e.getEvVelPosInnovRatio(a[0], a[1], a[2], a[3]); arr("ev ratio", a, 4);
	e.getBaroHgtInnov(x); f("baro", x); e.getBaroHgtInnovVar(x); f("baro", x); e.getBaroHgtInnovRatio(x); f("baro", x);
	e.getRngHgtInnov(x); f("range", x); e.getRngHgtInnovVar(x); f("range", x); e.getRngHgtInnovRatio(x); f("range", x);
	e.getAuxVelInnov(a); arr("aux", a, 2); e.getAuxVelInnovVar(a); arr("aux", a, 2); e.getAuxVelInnovRatio(x); f("aux", x);
	e.getFlowInnov(a); arr("flow", a, 2); e.getFlowInnovVar(a); arr("flow", a, 2); e.getFlowInnovRatio(x); f("flow", x);
	vec("flow velocity", e.getFlowVelBody(), 2); vec("flow velocity", e.getFlowVelNE(), 2); vec("flow rates", e.getFlowCompensated(), 2); vec("flow rates", e.getFlowUncompensated(), 2); vec("flow gyro", e.getFlowGyro(), 3);
	e.getHeadingInnov(x); f("heading", x); e.getHeadingInnovVar(x); f("heading", x); e.getHeadingInnovRatio(x); f("heading", x);
	e.getMagInnov(a); arr("mag", a, 3); e.getMagInnovVar(a); arr("mag", a, 3); e.getMagInnovRatio(x); f("mag", x);
	e.getDragInnov(a); arr("drag", a, 2); e.getDragInnovVar(a); arr("drag", a, 2); e.getDragInnovRatio(a); arr("drag", a, 2);
	e.getAirspeedInnov(x); f("airspeed", x); e.getAirspeedInnovVar(x); f("airspeed", x); e.getAirspeedInnovRatio(x); f("airspeed", x);
	e.getBetaInnov(x); f("beta", x); e.getBetaInnovVar(x); f("beta", x); e.getBetaInnovRatio(x); f("beta", x);
	e.getHaglInnov(x); f("hagl", x); e.getHaglInnovVar(x); f("hagl", x); e.getHaglInnovRatio(x); f("hagl", x);
	vec("state", e.getStateAtFusionHorizonAsVector(), 24);
	const auto &P = e.covariances();

	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { f("covariance", P(i, j)); } }

	vec("variance", e.covariances_diagonal(), 24);
	e.get_true_airspeed(&x); f("true airspeed", x);
	vec("wind", e.getWindVelocity(), 2); vec("wind", e.getWindVelocityVariance(), 2);
	uint64_t t; double la, lo; float alt;
	const bool org = e.getEkfGlobalOrigin(t, la, lo, alt); v("origin", &org, sizeof org); v("origin", &t, sizeof t); v("origin", &la, sizeof la); v("origin", &lo, sizeof lo); f("origin", alt); f("origin", e.getEkfGlobalOriginAltitude());
	e.get_ekf_gpos_accuracy(a, a + 1); arr("gpos accuracy", a, 2);
	e.get_ekf_lpos_accuracy(a, a + 1); arr("lpos accuracy", a, 2);
	e.get_ekf_vel_accuracy(a, a + 1); arr("vel accuracy", a, 2);
	e.get_ekf_ctrl_limits(a, a + 1, a + 2, a + 3); arr("control limits", a, 4);
	vec("velocity variance", e.getVelocityVariance(), 3); vec("position variance", e.getPositionVariance(), 3); vec("tracking error", e.getOutputTrackingError(), 3);
	u32("validity", e.global_position_is_valid() | e.local_position_is_valid() << 1 | e.isTerrainEstimateValid() << 2 | e.inertial_dead_reckoning() << 3 | e.attitude_valid() << 4 | e.get_in_air_status() << 5 | e.get_wind_status() << 6 | e.isVehicleAtRest() << 7 | e.global_origin_valid() << 8 | e.isHorizontalAidingActive() << 9);
	u32("terrain sensors", e.getTerrainEstimateSensorBitfield()); f("terrain", e.getTerrainVertPos()); f("terrain", e.get_terrain_var());
	vec("gyro bias", e.getGyroBias(), 3); vec("accel bias", e.getAccelBias(), 3); vec("mag bias", e.getMagBias(), 3);
	vec("gyro bias variance", e.getGyroBiasVariance(), 3); vec("accel bias variance", e.getAccelBiasVariance(), 3); vec("mag bias variance", e.getMagBiasVariance(), 3);
	uint16_t w; e.get_gps_check_status(&w); u16("gps check status", w);
	uint8_t n; float q[4];
	e.get_posD_reset(&x, &n); f("reset", x); u16("reset", n); e.get_velD_reset(&x, &n); f("reset", x); u16("reset", n);
	e.get_posNE_reset(q, &n); arr("reset", q, 2); u16("reset", n); e.get_velNE_reset(q, &n); arr("reset", q, 2); u16("reset", n); e.get_quat_reset(q, &n); arr("reset", q, 4); u16("reset", n);
	float m[7]; e.get_innovation_test_status(w, m[0], m[1], m[2], m[3], m[4], m[5], m[6]); u16("innovation test status", w); arr("innovation test ratios", m, 7);
	e.get_ekf_soln_status(&w); u16("solution status", w);
	vec("vision alignment", e.getVisionAlignmentQuaternion(), 4); vec("predicted attitude", e.calculate_quaternion(), 4);
	{
		float yc = 0, yv = 0, y[N_MODELS_EKFGSF] {}, in[N_MODELS_EKFGSF] {}, ie[N_MODELS_EKFGSF] {}, wt[N_MODELS_EKFGSF] {};
		const bool ok = const_cast<Ekf &>(e).getDataEKFGSF(&yc, &yv, y, in, ie, wt);
		u32("emergency yaw", ok);

		if (ok) { f("emergency yaw", yc); f("emergency yaw", yv); arr("emergency yaw", y, N_MODELS_EKFGSF); arr("emergency yaw", in, N_MODELS_EKFGSF); arr("emergency yaw", ie, N_MODELS_EKFGSF); arr("emergency yaw", wt, N_MODELS_EKFGSF); }
	}
	vec("vibration", e.getImuVibrationMetrics(), 3);
	vec("attitude", e.getQuaternion(), 4); vec("velocity", e.getVelocity(), 3); vec("velocity derivative", e.getVelocityDerivative(), 3); f("vertical derivative", e.getVerticalPositionDerivative()); vec("position", e.getPosition(), 3);

	if (e.get_mag_decl_deg(&x)) { f("declination", x); }

	u32("control status", e.control_status().value); u32("control status before", e.control_status_prev().value); u16("fault status", e.fault_status().value);
	u32("fault flags", e.fault_status_flags().bad_acc_vertical | e.fault_status_flags().bad_acc_clipping << 1);
	u16("innovation checks", e.innov_check_fail_status().value); u32("warnings", e.warning_event_status().value); u32("information", e.information_event_status().value);
	f("imu interval", e.get_dt_imu_avg());
	const imuSample &im = e.get_imu_sample_delayed();
	v("delayed imu", &im.time_us, 8); vec("delayed imu", im.delta_ang, 3); vec("delayed imu", im.delta_vel, 3); f("delayed imu", im.delta_ang_dt); f("delayed imu", im.delta_vel_dt);

	for (bool c : im.delta_vel_clipping) { v("delayed imu", &c, 1); }

	const baroSample &ba = e.get_baro_sample_delayed();
	v("delayed baro", &ba.time_us, 8); f("delayed baro", ba.hgt);
	u32("aiding sources", e.getNumberOfActiveHorizontalAidingSources());
}
} // namespace sim
