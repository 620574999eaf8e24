// Flight simulator: truth trajectory and every sensor the filter accepts, with noise, delay and faults.
// A flight is a recorded list of public API calls plus the truth at every inertial sample.
#pragma once
#include "vh.hpp"
#include "refmath.hpp"
#include <memory>
#include <algorithm>
#include <EKF/ekf.h>

namespace sim
{
using namespace ref;
using matrix::Vector2f;
using matrix::Vector3f;
using matrix::Quatf;
using matrix::Matrix3f;
static const double G = 9.80665;
static const double EARTH_RATE = 7.29211e-5;

inline Vector3f f3(const V3 &v) { return Vector3f((float)v.x, (float)v.y, (float)v.z); }
inline V3 d3(const Vector3f &v) { return V3(v(0), v(1), v(2)); }
inline Quatf fq(const Q &q) { return Quatf((float)q.w, (float)q.x, (float)q.y, (float)q.z); }
inline Q dq(const Quatf &q) { return Q(q(0), q(1), q(2), q(3)); }

struct Truth {
	uint64_t us{0};
	V3 p, v;   // inertial sensor, NED relative to the simulation origin
	Q q;
	V3 w, f, a; // body rate, body specific force, NED acceleration
	bool airborne{false};
};

enum CallType : uint8_t { IMU, MAG, GPS, BARO, ASPD, RNG, FLOW, EV, AUX, INAIR, FIXEDWING, BETA, GNDEFF };

struct Call { CallType type; uint32_t idx; uint64_t at; };

enum FaultType { DROPOUT, SPIKE, FREEZE, BIAS_STEP, DUPLICATE, LATE, NOISY, N_FAULTS };

struct Fault {
	CallType sensor;
	FaultType type;
	double t0, t1;
	double mag;
};

struct SensorCfg {
	bool on{false};
	double period{0.1}, delay{0}, jitter{0}, phase{0};
};

enum Vehicle { STATIC, MULTI, FIXED };

struct Config {
	parameters params{};
	uint64_t start_us{1000000};
	double dur{60};
	double imu_dt{0.005}, imu_jitter{0};
	Vehicle vehicle{MULTI};
	double t_takeoff{20}, t_land{1e9};
	double speed{8}, accel{3}, climb{2}, yaw_rate{0.4}, height{15};
	bool hover{false};
	double yaw0{0}, roll0{0}, pitch0{0};
	double lat0{47.3}, lon0{8.5}, alt0{400};
	V3 wind;
	double incl{1.1}, decl{0.03}, strength{0.48};
	bool wmm{true};
	V3 mag_bias;
	V3 gyro_bias, accel_bias;
	double s_gyro{0.001}, s_accel{0.05}, s_mag{0.005}, s_gpsv{0.1}, s_gpsp{0.2}, s_gpsh{0.4}, s_baro{0.2}, s_tas{0.3}, s_rng{0.02}, s_flow{0.03}, s_evp{0.02}, s_evv{0.05}, s_evq{0.01}, s_aux{0.1};
	float ev_pos_var{0.02f};
	V3 ev_pos_var_axes{1, 1, 1};
	double ev_vel_cov[6]{0.01, 0.01, 0.01, 0, 0, 0}; // xx yy zz xy xz yz
	float ev_ang_var{0.002f};
	V3 aux_var{0.02, 0.02, 0.02};
	float gps_eph{0.8f}, gps_epv{1.2f}, gps_sacc{0.2f};
	double noise_scale{1};
	double baro_offset{0};
	double drag_bx{0}, drag_by{0};
	double ev_yaw{0}; // rotation of the vision frame about the vertical
	V3 ev_origin;
	velocity_frame_t ev_vel_frame{velocity_frame_t::LOCAL_FRAME_FRD};
	double gps_yaw_offset{0};
	bool gps_yaw{false};
	double eas2tas{1.0};
	bool gps_vel_valid{true};
	uint8_t nsats{12};
	double terrain{0}, terrain_slope{0};
	SensorCfg mag, gps, baro, aspd, rng, flow, ev, aux;
	double vibration{0};
	bool beta{false}, beta_keep{false}; // beta_keep: sideslip not switched off by the user after landing
	double rng_min{0.3}, rng_max{60}, flow_max_rate{2.5}, flow_min_hgt{0.3}, flow_max_hgt{50};
	double flow_gyro_bias{0};
	bool flow_gyro{true};
	uint8_t flow_quality{200};
	std::vector<Fault> faults;
};

struct Flight {
	Config cfg;
	std::vector<Call> calls;
	std::vector<imuSample> imu;
	std::vector<Truth> truth; // one per inertial sample
	std::vector<magSample> mag;
	std::vector<gps_message> gps;
	std::vector<baroSample> baro;
	std::vector<airspeedSample> aspd;
	std::vector<rangeSample> rng;
	std::vector<flowSample> flow;
	std::vector<extVisionSample> ev;
	std::vector<auxVelSample> aux;
	std::vector<uint8_t> flags;
	V3 earth_field;

	const Truth &at(uint64_t us) const
	{
		size_t lo = 0, hi = truth.size();

		while (lo < hi) { size_t m = (lo + hi) / 2; if (truth[m].us < us) { lo = m + 1; } else { hi = m; } }

		if (lo == truth.size()) { lo--; }

		if (lo > 0 && us < truth[lo].us && us - truth[lo - 1].us < truth[lo].us - us) { lo--; }

		return truth[lo];
	}
};

inline void apply(Ekf &e, const Flight &f, const Call &c)
{
	switch (c.type) {
	case IMU: e.setIMUData(f.imu[c.idx]); break;

	case MAG: e.setMagData(f.mag[c.idx]); break;

	case GPS: e.setGpsData(f.gps[c.idx]); break;

	case BARO: e.setBaroData(f.baro[c.idx]); break;

	case ASPD: e.setAirspeedData(f.aspd[c.idx]); break;

	case RNG: e.setRangeData(f.rng[c.idx]); break;

	case FLOW: e.setOpticalFlowData(f.flow[c.idx]); break;

	case EV: e.setExtVisionData(f.ev[c.idx]); break;

	case AUX: e.setAuxVelData(f.aux[c.idx]); break;

	case INAIR: e.set_in_air_status(f.flags[c.idx]); break;

	case FIXEDWING: e.set_is_fixed_wing(f.flags[c.idx]); break;

	case BETA: e.set_fuse_beta_flag(f.flags[c.idx]); break;

	case GNDEFF: e.set_gnd_effect_flag(f.flags[c.idx]); break;
	}
}

double wmm_declination_rad(double lat, double lon);
double wmm_inclination_rad(double lat, double lon);
double wmm_strength_gauss(double lat, double lon);

// ---- generation ----
class Generator
{
public:
	Generator(const Config &c, uint64_t seed) : _c(c), _r(seed) {}

	Flight run()
	{
		Flight f;
		f.cfg = _c;

		double decl = _c.decl, incl = _c.incl, str = _c.strength;

		if (_c.wmm) {
			decl = wmm_declination_rad(_c.lat0, _c.lon0);
			incl = wmm_inclination_rad(_c.lat0, _c.lon0);
			str = wmm_strength_gauss(_c.lat0, _c.lon0);
		}

		f.earth_field = V3(cos(incl) * cos(decl), cos(incl) * sin(decl), sin(incl)) * str;
		f.cfg.decl = decl;
		f.cfg.incl = incl;
		f.cfg.strength = str;
		trajectory(f);
		sensors(f);
		std::stable_sort(f.calls.begin(), f.calls.end(), [](const Call & a, const Call & b) { return a.at < b.at; });
		return f;
	}

private:
	Config _c;
	vh::Rng _r;

	void trajectory(Flight &f)
	{
		const Config &c = _c;
		const uint64_t step_us = (uint64_t)std::llround(c.imu_dt * 1e6);
		uint64_t us = c.start_us;
		const uint64_t end = c.start_us + (uint64_t)(c.dur * 1e6);
		Truth s;
		s.us = us;
		s.q = Q::euler(c.roll0, c.pitch0, c.yaw0);
		s.f = s.q.rotInv(V3(0, 0, -G));
		V3 vd, a1, a2;
		double yaw = c.yaw0, yr_cmd = 0, yr = 0, yr1 = 0, ground = 1, next_cmd = 0;
		double spd = 0, spd1 = 0, spd_cmd = 0, gam = 0, gam1 = 0, gam_cmd = 0, bank = 0, bank1 = 0, bank_cmd = 0, course = c.yaw0, windb = 0;
		V3 gyro_vib, acc_vib;
		V3 earth(EARTH_RATE * cos(c.lat0 * D2R), 0, -EARTH_RATE * sin(c.lat0 * D2R));
		f.truth.push_back(s);
		imuSample first{};
		first.time_us = us;
		first.delta_ang_dt = first.delta_vel_dt = (float)c.imu_dt;
		first.delta_vel = f3(s.f * c.imu_dt + noise3(c.s_accel * std::sqrt(0.01 * c.imu_dt)));
		f.imu.push_back(first);
		f.calls.push_back({IMU, 0, us});
		bool air = false;
		f.flags.push_back(c.vehicle == FIXED);
		f.calls.push_back({FIXEDWING, 0, us});

		while (us < end) {
			uint64_t d = step_us;

			if (c.imu_jitter > 0) { d = (uint64_t)std::max(500.0, step_us * (1 + c.imu_jitter * _r.uni(-1, 1))); }

			us += d;
			const double dt = d * 1e-6;
			const double t = (us - c.start_us) * 1e-6;
			const bool fly = c.vehicle != STATIC && t > c.t_takeoff && t < c.t_land;
			Truth n = s;
			n.us = us;

			if (c.vehicle == FIXED) {
				if (fly && t > next_cmd) {
					next_cmd = t + _r.uni(3, 9);
					spd_cmd = c.speed * _r.uni(0.85, 1.15);
					const bool early = t < c.t_takeoff + 10;
					gam_cmd = early ? 0.12 : (-s.p.z > c.height * 1.5 ? -0.1 : -s.p.z < c.height * 0.5 ? 0.12 : _r.uni(-0.12, 0.12));
					bank_cmd = early ? 0 : (_r.chance(0.35) ? 0 : _r.uni(-0.7, 0.7));
				}

				if (!fly) { spd_cmd = 0; gam_cmd = 0; bank_cmd = 0; }

				if (t > c.t_takeoff && spd < 0.6 * c.speed) { gam_cmd = 0; }

				auto lim = [](double v, double m) { return v < -m ? -m : v > m ? m : v; };
				spd1 += lim(spd_cmd - spd1, 4.0 * 0.5) * dt / 0.5;
				spd += (spd1 - spd) * dt / 0.3;
				gam1 += (gam_cmd - gam1) * dt / 0.6;
				gam += (gam1 - gam) * dt / 0.4;
				bank1 += (bank_cmd - bank1) * dt / 0.4;
				bank += (bank1 - bank) * dt / 0.3;
				windb += ((fly ? 1.0 : 0.0) - windb) * dt / 4.0;

				if (spd > 2) { course += G * tan(bank) / std::max(spd, 8.0) * dt; }

				V3 vair(spd * cos(gam)*cos(course), spd * cos(gam)*sin(course), -spd * sin(gam));
				V3 v = vair + c.wind * windb;
				n.a = (v - s.v) / dt;
				n.v = v;
				n.p = s.p + (s.v + v) * (0.5 * dt);
				double g0 = 1 - windb;
				n.q = Q::euler(bank + c.roll0 * g0, gam + c.pitch0 * g0, course);

			} else {
				if (fly) {
					if (t > next_cmd) {
						next_cmd = t + _r.uni(2, 7);
						double sp = c.hover ? 0 : c.speed * _r.unit(), an = _r.uni(-PI, PI);
						vd = V3(sp * cos(an), sp * sin(an), 0);
						yr_cmd = _r.chance(0.4) ? 0 : _r.uni(-1, 1) * c.yaw_rate;
						_htarget = t < c.t_takeoff + 8 ? c.height : c.height * _r.uni(0.6, 1.4);
					}

				} else {
					vd = V3();
					yr_cmd = 0;
					_htarget = 0;
				}

				V3 cmd;

				if (c.vehicle == MULTI && t > c.t_takeoff) {
					V3 want = vd;
					double vz = (-_htarget - s.p.z) * 0.7;
					want.z = vz < -c.climb ? -c.climb : vz > c.climb ? c.climb : vz;
					cmd = (want - s.v) * 1.2;
					double m = cmd.norm();

					if (m > c.accel) { cmd = cmd * (c.accel / m); }

					yr1 += (yr_cmd - yr1) * dt / 0.3;
					yr += (yr1 - yr) * dt / 0.2;
					yaw += yr * dt;
					ground += -ground * dt / 0.8;
				}

				a1 += (cmd - a1) * (dt / 0.15);
				a2 += (a1 - a2) * (dt / 0.12);
				n.a = a2;
				n.v = s.v + n.a * dt;
				n.p = s.p + (s.v + n.v) * (0.5 * dt);
				// thrust direction (plus a drag that is not compensated by the tilt when drag is simulated)
				V3 thrust = n.a - V3(0, 0, G);

				if (c.drag_bx > 0 && fly) {
					const V3 rw = s.q.rotInv(n.v - c.wind * (1 - ground));
					const double rho = 1.225;
					thrust = thrust - s.q.rot(V3(-0.5 * rho / c.drag_bx * rw.x * std::fabs(rw.x), -0.5 * rho / c.drag_by * rw.y * std::fabs(rw.y), 0));
				}

				V3 zb = thrust.unit() * -1.0;
				V3 xc(cos(yaw), sin(yaw), 0);
				V3 yb = zb.cross(xc).unit();
				V3 xb = yb.cross(zb);
				double pitch = asin(std::max(-1.0, std::min(1.0, -xb.z)));
				double roll = atan2(yb.z, zb.z);
				double yw = atan2(xb.y, xb.x);
				n.q = Q::euler(roll + c.roll0 * ground, pitch + c.pitch0 * ground, yw);
			}

			if (n.q.w * s.q.w + n.q.x * s.q.x + n.q.y * s.q.y + n.q.z * s.q.z < 0) { n.q = Q(-n.q.w, -n.q.x, -n.q.y, -n.q.z); }

			V3 rv = (s.q.conj() * n.q).rotVec();
			Q mid = (s.q * Q::fromRotVec(rv * 0.5)).unit();
			n.w = rv / dt;
			n.f = mid.rotInv(n.a - V3(0, 0, G));

			const bool in_air = c.vehicle != STATIC && t > c.t_takeoff + 1.5 && !(t > c.t_land && -n.p.z < 0.15 && n.v.norm() < 0.2);
			n.airborne = in_air;

			if (in_air != air) {
				air = in_air;
				f.flags.push_back(air);
				f.calls.push_back({INAIR, (uint32_t)f.flags.size() - 1, us});

				if (c.beta && (air || !c.beta_keep)) {
					f.flags.push_back(air);
					f.calls.push_back({BETA, (uint32_t)f.flags.size() - 1, us + 1});
				}
			}

			imuSample m{};
			m.time_us = us;
			m.delta_ang_dt = m.delta_vel_dt = (float)dt;
			const double ns = std::sqrt(0.01 / dt) * c.noise_scale;
			V3 wm = n.w + mid.rotInv(earth) + c.gyro_bias + noise3(c.s_gyro * ns);
			V3 fm = n.f + c.accel_bias + noise3(c.s_accel * ns);

			if (c.vibration > 0 && t > c.t_takeoff) { fm += noise3(c.vibration); }

			for (const Fault &ft : c.faults) {
				if (ft.sensor == IMU && t >= ft.t0 && t < ft.t1) {
					if (ft.type == BIAS_STEP) { fm.z += ft.mag; }

					else if (ft.type == NOISY) { fm += noise3(ft.mag); }

					else if (ft.type == SPIKE) { for (int k = 0; k < 3; k++) { m.delta_vel_clipping[k] = _r.chance(0.7); } fm.z += ft.mag; }
				}
			}

			m.delta_ang = f3(wm * dt);
			m.delta_vel = f3(fm * dt);
			f.imu.push_back(m);
			f.calls.push_back({IMU, (uint32_t)f.imu.size() - 1, us});
			f.truth.push_back(n);
			s = n;
		}
	}

	double _htarget{0};
	V3 noise3(double s) { return V3(_r.gauss() * s, _r.gauss() * s, _r.gauss() * s); }

	template<typename T, typename MAKE>
	void series(Flight &f, CallType type, const SensorCfg &sc, std::vector<T> &out, MAKE make)
	{
		if (!sc.on) { return; }

		const double end = _c.dur;
		T last{};
		bool have_last = false;

		for (double t = sc.phase; t < end; t += sc.period) {
			double arrive = t + sc.delay + (sc.jitter > 0 ? _r.unit() * sc.jitter : 0);
			const uint64_t meas_us = _c.start_us + (uint64_t)(t * 1e6);
			// stamped as: time of measurement + the delay the filter is configured with
			uint64_t stamp = meas_us + (uint64_t)(sc.delay * 1e6);
			bool drop = false, freeze = false, dup = false;
			double spike = 0, bias = 0, noisy = 1;

			for (const Fault &ft : _c.faults) {
				if (ft.sensor != type || t < ft.t0 || t >= ft.t1) { continue; }

				switch (ft.type) {
				case DROPOUT: drop = true; break;

				case FREEZE: freeze = true; break;

				case SPIKE: if (_r.chance(0.3)) { spike = ft.mag * (_r.chance(0.5) ? 1 : -1); } break;

				case BIAS_STEP: bias = ft.mag; break;

				case DUPLICATE: dup = true; break;

				case LATE: arrive += ft.mag; break;

				case NOISY: noisy = ft.mag; break;

				default: break;
				}
			}

			T s = make(f.at(meas_us), stamp, spike + bias, noisy);

			if (drop) { continue; }

			if (freeze && have_last) { T k = last; settime(k, stamp); s = k; }

			last = s;
			have_last = true;
			out.push_back(s);
			f.calls.push_back({type, (uint32_t)out.size() - 1, _c.start_us + (uint64_t)(arrive * 1e6)});

			if (dup) { f.calls.push_back({type, (uint32_t)out.size() - 1, _c.start_us + (uint64_t)(arrive * 1e6) + 1500}); }
		}
	}
	template<typename T> static void settime(T &s, uint64_t t) { s.time_us = t; }
	static void settime(gps_message &s, uint64_t t) { s.time_usec = t; }

	void sensors(Flight &f)
	{
		const Config &c = _c;
		const double ns = c.noise_scale;
		series(f, MAG, c.mag, f.mag, [&](const Truth & s, uint64_t t, double err, double k) {
			magSample m{};
			m.time_us = t;
			V3 b = s.q.rotInv(f.earth_field) + c.mag_bias + noise3(c.s_mag * ns * k);
			b.x += err;
			b.y += 0.7 * err;
			m.mag = f3(b);
			return m;
		});
		series(f, BARO, c.baro, f.baro, [&](const Truth & s, uint64_t t, double err, double k) {
			baroSample b{};
			b.time_us = t;
			b.hgt = (float)(c.alt0 + c.baro_offset - s.p.z + _r.gauss() * c.s_baro * ns * k + err);
			return b;
		});
		series(f, GPS, c.gps, f.gps, [&](const Truth & s, uint64_t t, double err, double k) {
			gps_message g{};
			g.time_usec = t;
			V3 arm = d3(c.params.gps_pos_body) - d3(c.params.imu_pos_body);
			V3 p = s.p + s.q.rot(arm);
			V3 v = s.v + s.q.rot(s.w.cross(arm));
			p.x += _r.gauss() * c.s_gpsp * ns * k + err;
			p.y += _r.gauss() * c.s_gpsp * ns * k - 0.5 * err;
			p.z += _r.gauss() * c.s_gpsh * ns * k;
			v += noise3(c.s_gpsv * ns * k);
			v.x += 0.3 * err;
			double d = std::hypot(p.x, p.y), lat = c.lat0, lon = c.lon0;

			if (d > 1e-9) { destination(c.lat0, c.lon0, atan2(p.y, p.x), d / RE, lat, lon); }

			g.lat = (int32_t)std::llround(lat * 1e7);
			g.lon = (int32_t)std::llround(lon * 1e7);
			g.alt = (int32_t)std::llround((c.alt0 - p.z) * 1e3);
			g.yaw = NAN;

			if (c.gps_yaw) {
				// antenna array direction
				V3 u = s.q.rot(V3(cos(c.gps_yaw_offset), sin(c.gps_yaw_offset), 0));
				g.yaw = (float)wrap(atan2(u.y, u.x) - c.gps_yaw_offset); // heading of the vehicle: the receiver compensates the antenna offset
			}

			g.yaw_offset = c.gps_yaw ? (float)c.gps_yaw_offset : NAN;
			g.fix_type = 3;
			g.eph = c.gps_eph;
			g.epv = c.gps_epv;
			g.sacc = c.gps_sacc;
			g.vel_m_s = (float)std::hypot(v.x, v.y);
			g.vel_ned = f3(v);
			g.vel_ned_valid = c.gps_vel_valid;
			g.nsats = c.nsats;
			g.pdop = 1.1f;
			return g;
		});
		series(f, ASPD, c.aspd, f.aspd, [&](const Truth & s, uint64_t t, double err, double k) {
			airspeedSample a{};
			a.time_us = t;
			a.true_airspeed = (float)std::max(0.0, (s.v - c.wind).norm() + _r.gauss() * c.s_tas * ns * k + err);
			a.eas2tas = (float)c.eas2tas;
			return a;
		});
		series(f, RNG, c.rng, f.rng, [&](const Truth & s, uint64_t t, double err, double k) {
			rangeSample r{};
			r.time_us = t;
			V3 arm = d3(c.params.rng_pos_body) - d3(c.params.imu_pos_body);
			V3 p = s.p + s.q.rot(arm);
			V3 dir = s.q.rot(V3(sin(c.params.rng_sens_pitch), 0, cos(c.params.rng_sens_pitch)));
			double hag = terrain_z(p) - p.z;
			double ct = std::max(0.05, dir.z);
			r.rng = (float)(hag / ct + _r.gauss() * c.s_rng * ns * k + err);
			r.quality = 100;
			return r;
		});
		series(f, FLOW, c.flow, f.flow, [&](const Truth & s, uint64_t t, double err, double k) {
			flowSample w{};
			w.time_us = t;
			V3 arm = d3(c.params.flow_pos_body) - d3(c.params.imu_pos_body);
			V3 v = s.q.rotInv(s.v) + s.w.cross(arm);
			V3 p = s.p + s.q.rot(arm);
			double hag = std::max(0.05, terrain_z(p) - p.z);
			double ct = std::max(0.1, s.q.R()(2, 2));
			double range = hag / ct;
			double dt = c.flow.period;
			double lx = v.y / range, ly = -v.x / range;
			V3 gyro = s.w;
			// the sensor's sign convention: flow = (gyro - line of sight rate) about each axis
			w.flow_xy_rad = Vector2f((float)((gyro.x - lx + _r.gauss() * c.s_flow * ns * k + err) * dt), (float)((gyro.y - ly + _r.gauss() * c.s_flow * ns * k - err) * dt));
			w.flow_xy_rad *= -1.f;
			w.gyro_xyz = c.flow_gyro ? f3((gyro * -1.0 + V3(1, -0.6, 0.3) * c.flow_gyro_bias) * dt) : Vector3f(NAN, NAN, NAN);
			w.dt = (float)dt;
			w.quality = c.flow_quality;
			return w;
		});
		series(f, EV, c.ev, f.ev, [&](const Truth & s, uint64_t t, double err, double k) {
			extVisionSample e{};
			e.time_us = t;
			Q rot = Q::euler(0, 0, c.ev_yaw); // from navigation frame to vision frame
			V3 arm = d3(c.params.ev_pos_body) - d3(c.params.imu_pos_body);
			V3 p = s.p + s.q.rot(arm), v = s.v + s.q.rot(s.w.cross(arm));
			V3 pe = rot.rot(p) + c.ev_origin + noise3(c.s_evp * ns * k);
			pe.x += err;
			e.pos = f3(pe);
			Q qe = (rot * s.q * Q::fromRotVec(noise3(c.s_evq * ns * k))).unit();
			e.quat = fq(qe);
			V3 ve;

			if (c.ev_vel_frame == velocity_frame_t::BODY_FRAME_FRD) { ve = s.q.rotInv(v); }

			else { ve = rot.rot(v); }

			ve += noise3(c.s_evv * ns * k);
			ve.y += 0.3 * err;
			e.vel = f3(ve);
			e.posVar = f3(c.ev_pos_var_axes) * c.ev_pos_var;

			for (int i = 0; i < 3; i++) { e.velCov(i, i) = (float)c.ev_vel_cov[i]; }

			e.velCov(0, 1) = e.velCov(1, 0) = (float)c.ev_vel_cov[3];
			e.velCov(0, 2) = e.velCov(2, 0) = (float)c.ev_vel_cov[4];
			e.velCov(1, 2) = e.velCov(2, 1) = (float)c.ev_vel_cov[5];
			e.angVar = c.ev_ang_var;
			e.vel_frame = c.ev_vel_frame;
			return e;
		});
		series(f, AUX, c.aux, f.aux, [&](const Truth & s, uint64_t t, double err, double k) {
			auxVelSample a{};
			a.time_us = t;
			V3 v = s.v + noise3(c.s_aux * ns * k);
			v.x += err;
			a.vel = f3(v);
			a.velVar = f3(c.aux_var);
			return a;
		});
	}
public:
	double terrain_z(const V3 &p) const { return _c.terrain + _c.terrain_slope * sin(p.x / 40.0) * 5.0; }
};

// sensor limits that are not parameters
inline void configure(Ekf &e, const Config &c)
{
	*e.getParamHandle() = c.params;
	e.set_rangefinder_limits((float)c.rng_min, (float)c.rng_max);
	e.set_optical_flow_limits((float)c.flow_max_rate, (float)c.flow_min_hgt, (float)c.flow_max_hgt);
}

// runs a flight call by call; the callback sees the filter after every update()
template<typename CB>
void play(Ekf &e, const Flight &f, CB cb)
{
	configure(e, f.cfg);

	for (const Call &c : f.calls) {
		apply(e, f, c);

		if (c.type == IMU) {
			bool u = e.update();

			if (!cb(c, u)) { return; }
		}
	}
}
} // namespace sim
