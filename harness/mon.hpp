// What the public interface shows of one update of the filter: used by the monitors of modes and reports
#pragma once
#include "ekf_config.hpp"
namespace sim
{
enum Obs { O_GHV, O_GVV, O_GHP, O_GVP, O_EHV, O_EVV, O_EHP, O_EVP, O_BARO, O_RNG, O_AUX, O_FLOW, O_YAW, O_MAG, O_DRAG, O_TAS, O_BETA, O_HAGL, N_OBS };
static const char *const obs_names[N_OBS] = {"gps velocity", "gps vertical velocity", "gps position", "gps height", "vision velocity", "vision vertical velocity", "vision position", "vision height", "baro", "range height", "auxiliary velocity", "flow", "yaw", "magnetometer", "drag", "airspeed", "sideslip", "terrain range"};

enum StatusBit { C_TILT, C_YAW, C_GPS, C_FLOW, C_MAGHDG, C_MAG3D, C_MAGDEC, C_AIR, C_WIND, C_BARO, C_RNG, C_GPSHGT, C_EVPOS, C_EVYAW, C_EVHGT, C_BETA, C_MAGDIST, C_FIXED, C_MAGFAULT, C_ASPD, C_GND, C_STUCK, C_GPSYAW, C_MAGAIR, C_EVVEL, C_SYNTH, C_REST };

struct Snap {
	bool valid{false};
	uint64_t imu_us{0}, now_us{0};
	double x[24], var[24];
	uint32_t cs{0};
	uint16_t fault{0}, fail{0}, soln{0}, gps{0};
	float in[N_OBS][3] {}, iv[N_OBS][3] {}, ratio[N_OBS] {};
	uint8_t nr[5] {};   // reset counters: posD velD posNE velNE quat
	float rs[5][4] {};  // last changes
	uint32_t info{0}, warn{0};

	bool c(int b) const { return cs >> b & 1; }
};

inline Snap snap(const Ekf &e, uint64_t now)
{
	Snap s;
	s.valid = true;
	s.now_us = now;
	s.imu_us = e.get_imu_sample_delayed().time_us;
	auto st = e.getStateAtFusionHorizonAsVector();
	const auto &P = e.covariances();

	for (int i = 0; i < 24; i++) { s.x[i] = st(i); s.var[i] = P(i, i); }

	s.cs = e.control_status().value;
	s.fault = e.fault_status().value;
	s.fail = e.innov_check_fail_status().value;
	e.get_ekf_soln_status(&s.soln);
	e.get_gps_check_status(&s.gps);
	auto &i = s.in;
	auto &v = s.iv;
	auto &r = s.ratio;
	float d2[2];
	e.getGpsVelPosInnov(i[O_GHV], i[O_GVV][0], i[O_GHP], i[O_GVP][0]);
	e.getGpsVelPosInnovVar(v[O_GHV], v[O_GVV][0], v[O_GHP], v[O_GVP][0]);
	e.getGpsVelPosInnovRatio(r[O_GHV], r[O_GVV], r[O_GHP], r[O_GVP]);
	e.getEvVelPosInnov(i[O_EHV], i[O_EVV][0], i[O_EHP], i[O_EVP][0]);
	e.getEvVelPosInnovVar(v[O_EHV], v[O_EVV][0], v[O_EHP], v[O_EVP][0]);
	e.getEvVelPosInnovRatio(r[O_EHV], r[O_EVV], r[O_EHP], r[O_EVP]);
	e.getBaroHgtInnov(i[O_BARO][0]); e.getBaroHgtInnovVar(v[O_BARO][0]); e.getBaroHgtInnovRatio(r[O_BARO]);
	e.getRngHgtInnov(i[O_RNG][0]); e.getRngHgtInnovVar(v[O_RNG][0]); e.getRngHgtInnovRatio(r[O_RNG]);
	e.getAuxVelInnov(i[O_AUX]); e.getAuxVelInnovVar(v[O_AUX]); e.getAuxVelInnovRatio(r[O_AUX]);
	e.getFlowInnov(i[O_FLOW]); e.getFlowInnovVar(v[O_FLOW]); e.getFlowInnovRatio(r[O_FLOW]);
	e.getHeadingInnov(i[O_YAW][0]); e.getHeadingInnovVar(v[O_YAW][0]); e.getHeadingInnovRatio(r[O_YAW]);
	e.getMagInnov(i[O_MAG]); e.getMagInnovVar(v[O_MAG]); e.getMagInnovRatio(r[O_MAG]);
	e.getDragInnov(i[O_DRAG]); e.getDragInnovVar(v[O_DRAG]); e.getDragInnovRatio(d2); r[O_DRAG] = std::max(d2[0], d2[1]);
	e.getAirspeedInnov(i[O_TAS][0]); e.getAirspeedInnovVar(v[O_TAS][0]); e.getAirspeedInnovRatio(r[O_TAS]);
	e.getBetaInnov(i[O_BETA][0]); e.getBetaInnovVar(v[O_BETA][0]); e.getBetaInnovRatio(r[O_BETA]);
	e.getHaglInnov(i[O_HAGL][0]); e.getHaglInnovVar(v[O_HAGL][0]); e.getHaglInnovRatio(r[O_HAGL]);
	e.get_posD_reset(&s.rs[0][0], &s.nr[0]);
	e.get_velD_reset(&s.rs[1][0], &s.nr[1]);
	e.get_posNE_reset(s.rs[2], &s.nr[2]);
	e.get_velNE_reset(s.rs[3], &s.nr[3]);
	e.get_quat_reset(s.rs[4], &s.nr[4]);
	s.info = e.information_event_status().value;
	s.warn = e.warning_event_status().value;
	return s;
}

// an observation of this kind was formed in the update between the two
inline bool attempted(const Snap &a, const Snap &b, Obs o)
{
	return b.iv[o][0] > 0 && (memcmp(a.iv[o], b.iv[o], sizeof a.iv[o]) != 0 || memcmp(a.in[o], b.in[o], sizeof a.in[o]) != 0); // zeroed when stopped
}
inline bool anyReset(const Snap &a, const Snap &b) { return memcmp(a.nr, b.nr, sizeof a.nr) != 0; }

// plays a flight; cb(call, previous snapshot, snapshot) after each update that returned true
template<typename CB>
void observe(Ekf &e, const Flight &f, CB cb)
{
	Snap prev;
	play(e, f, [&](const Call & call, bool u) {
		if (!u) { return true; }

		Snap s = snap(e, f.imu[call.idx].time_us);
		const bool go = cb(call, prev, s, (s.now_us - f.cfg.start_us) * 1e-6);
		prev = s;
		return go;
	});
}
inline std::string bits(uint32_t cs)
{
	static const char *n[] = {"tilt", "yaw", "gps", "flow", "hdg", "3d", "dec", "air", "wind", "baro", "rng", "gpshgt", "evpos", "evyaw", "evhgt", "beta", "dist", "fw", "magfault", "aspd", "gnd", "stuck", "gpsyaw", "magair", "evvel", "synth", "rest"};
	std::string o;

	for (int i = 0; i < 27; i++) { if (cs >> i & 1) { o += n[i]; o += ' '; } }

	return o;
}
} // namespace sim
