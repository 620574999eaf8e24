// Double-precision reference of one filter step, re-synchronised with the observed state before each step.
//
// The monitor sees only the public interface: the calls made, the inertial sample at the fusion horizon,
// state vector, covariance matrix, status flags and innovations.  From the state before a step and the
// measurements that become due in it, it computes what the step must produce and compares.
#pragma once
#include "ekf_sim.hpp"
#include <deque>
#include <set>
#include <array>

namespace shadow
{
using namespace ref;
using namespace sim;

static const int N = 24;
typedef double Vec[N];
typedef double Mat[N][N];

template<typename T> struct Queue {
	std::deque<std::pair<uint64_t, T>> q;
	void push(uint64_t t, const T &s) { q.push_back({t, s}); if (q.size() > 400) { q.pop_front(); } }
	// newest sample not newer than the horizon and less than 100 ms older; drops it and everything older
	bool pop(uint64_t horizon, T &out, uint64_t &t)
	{
		for (int i = (int)q.size() - 1; i >= 0; i--) {
			if (horizon >= q[i].first && horizon < q[i].first + 100000) {
				out = q[i].second;
				t = q[i].first;
				q.erase(q.begin(), q.begin() + i + 1);
				return true;
			}
		}

		return false;
	}
};

struct GpsObs { V3 vel; double n{0}, e{0}, hgt{0}, yaw{NAN}, hacc{0}, vacc{0}, sacc{0}; };

enum Group : unsigned { G_NONE = 0, G_VELPOS = 1, G_MAG = 2, G_AIR = 4 };
static const bool ALL[24] = {1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1};

struct Mismatch { const char *what; double err, tol; unsigned group; char detail[200]; };

inline double getf(const Vector3f &v, int i) { return (double)v(i); }

class Shadow
{
public:
	Shadow(Ekf &e, const parameters &p) : _e(&e), _p(p) {}


	// ---- inputs
	double flow_max_rate{2.5}, air_density{1.225};
	Queue<GpsObs> gps;
	Queue<magSample> mag;
	Queue<baroSample> baro;
	Queue<rangeSample> rng;
	Queue<airspeedSample> tas;
	Queue<flowSample> flow;
	Queue<extVisionSample> ev;
	Queue<auxVelSample> aux;
	uint64_t newest_us{0};

	static uint64_t stamp(uint64_t us, double delay_ms) { return us - (uint64_t)(int64_t)std::llround(delay_ms * 1000) - 5000; }

	// height error caused by the dynamic pressure of the airspeed predicted when the sample arrives (0.5 rho v^2 K / (rho g))
	double pressureErrorHeight() const
	{
		const matrix::Quatf &qf = _e->getQuaternion();
		const auto v = _e->getVelocity();
		const auto x = _e->getStateAtFusionHorizonAsVector();
		const V3 a = Q(qf(0), qf(1), qf(2), qf(3)).rotInv(V3(v(0) - x(22), v(1) - x(23), v(2)));
		const double k[3] = {a.x >= 0 ? _p.static_pressure_coef_xp : _p.static_pressure_coef_xn, a.y >= 0 ? _p.static_pressure_coef_yp : _p.static_pressure_coef_yn, _p.static_pressure_coef_z};
		const double lim = sq((double)_p.max_correction_airspeed);
		return 0.5 * (std::min(a.x * a.x, lim) * k[0] + std::min(a.y * a.y, lim) * k[1] + std::min(a.z * a.z, lim) * k[2]) / 9.80665;
	}

	void onCall(const Flight &f, const Call &c)
	{
		switch (c.type) {
		case IMU: newest_us = f.imu[c.idx].time_us; _raw = f.imu[c.idx]; break;

		case INAIR: if (f.flags[c.idx]) { _t_in_air = newest_us; } break;

		case MAG: { magSample m = f.mag[c.idx]; mag.push(stamp(m.time_us / 1000 * 1000, _p.mag_delay_ms), m); break; }

		case BARO: {
				baroSample m = f.baro[c.idx];
				m.hgt += pressureErrorHeight();
				baro.push(stamp(m.time_us / 1000 * 1000, _p.baro_delay_ms), m);
				break;
			}

		case ASPD: tas.push(stamp(f.aspd[c.idx].time_us, _p.airspeed_delay_ms), f.aspd[c.idx]); break;

		case RNG: rng.push(stamp(f.rng[c.idx].time_us, _p.range_delay_ms), f.rng[c.idx]); break;

		case FLOW: flow.push(stamp(f.flow[c.idx].time_us, _p.flow_delay_ms), f.flow[c.idx]); break;

		case EV: ev.push(stamp(f.ev[c.idx].time_us, _p.ev_delay_ms), f.ev[c.idx]); _last_ev = newest_us; break;

		case AUX: aux.push(stamp(f.aux[c.idx].time_us, _p.auxvel_delay_ms), f.aux[c.idx]); break;

		case GPS: {
				const gps_message &g = f.gps[c.idx];

				// ignored altogether unless something is to be done with it
				if (!((_p.fusion_mode & MASK_USE_GPS) || _p.vdist_sensor_type == VDIST_SENSOR_GPS) || g.fix_type < 3) { break; }

				GpsObs o;
				o.vel = d3(g.vel_ned);
				o.hgt = g.alt * 1e-3;
				o.yaw = g.yaw;
				o.hacc = g.eph;
				o.vacc = g.epv;
				o.sacc = g.sacc;
				if (_e->global_origin_valid()) {
					// position relative to the origin
					const double la0 = _e->global_origin().lat_rad / D2R, lo0 = _e->global_origin().lon_rad / D2R;
					const double d = angdist(la0, lo0, g.lat * 1e-7, g.lon * 1e-7) * RE, br = bearing(la0, lo0, g.lat * 1e-7, g.lon * 1e-7);
					o.n = d * cos(br);
					o.e = d * sin(br);
					_earth_lat = la0;
				} else if (g.fix_type >= 2 && g.eph < 1000) { _earth_lat = g.lat * 1e-7; }

				if (!std::isfinite(_decl_gps) || !_had_origin) {
					_decl_gps = sim::wmm_declination_rad(g.lat * 1e-7, g.lon * 1e-7);
					_incl_gps = sim::wmm_inclination_rad(g.lat * 1e-7, g.lon * 1e-7);
					_str_gps = sim::wmm_strength_gauss(g.lat * 1e-7, g.lon * 1e-7);
					_had_origin = _e->global_origin_valid();
				}

				_gps_yaw_offset = std::isfinite(g.yaw_offset) ? g.yaw_offset : 0;
				gps.push(stamp(g.time_usec, _p.gps_delay_ms), o);
				break;
			}

		default: break;
		}
	}

	// ---- step protocol: before() right before update(), after() right after it
	void before()
	{
		read(_x0, _P0);
		fl0 = _e->control_status();
		_rst0 = resets();
		_fault0 = _e->fault_status();
		_rej0 = _e->innov_check_fail_status();
		_terrain0 = _e->getTerrainVertPos();
		// the flow is used while the range finder has supported the terrain estimate in the last ten seconds
		float h, hr;
		_e->getHaglInnov(h); _e->getHaglInnovRatio(hr);
		if (h != _hagl_last && hr < 1) { _t_hagl = newest_us; }
		_hagl_last = h;
		_e->getRngHgtInnov(_rng_innov0);
		_hagl_ok0 = _e->isTerrainEstimateValid() && newest_us < _t_hagl + 9500000;
	}

	// results of the last step
	bool compared{false};
	unsigned groups{0}; // groups of measurements that were due
	std::vector<std::string> due;
	std::string why;    // reason for not comparing
	std::vector<Mismatch> bad;
	std::map<std::string, double> peaks;
	std::map<std::string, uint64_t> counts;
	Vec x;
	Mat P; // what the step must produce
	imuSample imu;
	filter_control_status_u fl, fl0;
	double dt_avg() const { return _dt_avg; }
	const Mat &P0() const { return _P0; }
	const Vec &x0() const { return _x0; }
	const Mat &P1() const { return _P1; }
	const Vec &x1() const { return _x1; }
	bool inhibited(int i) const { return _inh[i]; }

	void after()
	{
		compared = false;
		groups = 0;
		due.clear();
		why.clear();
		bad.clear();
		fl = _e->control_status();
		_rej = _e->innov_check_fail_status();
		imu = _e->get_imu_sample_delayed();
		read(_x1, _P1);

		for (int i = 0; i < N; i++) { x[i] = _x0[i]; for (int j = 0; j < N; j++) { P[i][j] = _P0[i][j]; } }

		const bool first = !_started;
		_started = true;
		dragTick();
		predict();

		if (first) { why = "first"; for (int i = 0; i < 3; i++) { _held[i] = sq(_p.switch_on_accel_bias * 0.01); } }

		// what may not change in a step that is compared
		filter_control_status_u a = fl, b = fl0;

		for (auto *s : {&a, &b}) {
			s->flags.in_air = s->flags.vehicle_at_rest = s->flags.gnd_effect = s->flags.mag_field_disturbed = 0;
			s->flags.synthetic_mag_z = s->flags.fuse_beta = s->flags.fixed_wing = s->flags.mag_dec = 0;
		}

		if (a.value != b.value) { why = "mode change"; }

		if (resets() != _rst0) { why = "reset"; }

		if (resets()[2] != _rst0[2]) { _ev_prev_unsure = true; }

		if (resets()[4] != _rst0[4]) { _t_align = imu.time_us; _static_yaw = NAN; }

		if (fl.flags.mag_aligned_in_flight != fl0.flags.mag_aligned_in_flight && fl.flags.mag_aligned_in_flight) { _t_align = imu.time_us; }

		if (fl.flags.mag_3D) {
			// all correlations of the field states gone: they were re-initialised
			bool gone = true, had = false;
			for (int i = 16; i < 22; i++) { for (int j = 0; j < 10; j++) { gone = gone && _P1[i][j] == 0; had = had || _P0[i][j] != 0; } }
			if (gone && had) { why = "field reset"; _t_align = imu.time_us; }
		}

		if (fl.flags.wind && fl0.flags.wind) {
			// wind estimation stopped and started again
			bool gone = true, had = false;
			for (int i = 22; i < 24; i++) { for (int j = 0; j < 16; j++) { gone = gone && _P1[i][j] == 0; had = had || _P0[i][j] != 0; } }
			if (gone && had) { why = "wind reset"; }
		}

		if (!why.empty()) { _decl_unknown = true; _align_unsure = true; _t_skip = imu.time_us; }

		if (imu.time_us - _t_skip > 5e6) { _align_unsure = false; }

		// ---- measurements that are due
		uint64_t t;
		const bool d_gps = gps.pop(imu.time_us, _gps, t);
		magSample m;
		const bool d_mag = mag.pop(imu.time_us, m, t);
		if (d_mag) {
			_mag = m;
			_mag_used = d3(m.mag);
			if (fl.flags.synthetic_mag_z) {
				V3 f = (Rz(_decl_gps) * Ry(-_incl_gps)) * V3(_str_gps, 0, 0);
				double z = std::sqrt(std::max(sq(f.norm()) - sq(_mag_used.x) - sq(_mag_used.y), 0.0));
				V3 c(_R(0, 2), _R(1, 2), _R(2, 2));
				if (std::fabs(f.dot(c)) < 1e-3 || z < 0.02) { _abort = true; }
				_mag_used.z = f.dot(c) < 0 ? -z : z;
			}
		}

		const bool d_baro = baro.pop(imu.time_us, _baro, t);
		const bool d_rng = rng.pop(imu.time_us, _rng, t);
		const bool d_flow = flow.pop(imu.time_us, _flow, t);
		if (d_flow) { _flow_t = t; _flow_ready = true; }

		const bool d_ev = ev.pop(imu.time_us, _ev, t);
		if (d_ev) {
			V3 off = xform(_R, d3(_p.ev_pos_body) - d3(_p.imu_pos_body));
			_ev.pos = f3(d3(_ev.pos) - off);
			_ev_unsure = first; // the attitude in the first step is not the one before it
		}

		const bool d_tas = tas.pop(imu.time_us, _tas, t);
		auxVelSample av;
		const bool d_aux = aux.pop(imu.time_us, av, t);

		if (d_gps) { due.push_back("gps"); groups |= G_VELPOS; }
		if (d_mag) { due.push_back("mag"); groups |= G_MAG; }
		if (d_baro) { due.push_back("baro"); groups |= G_VELPOS; }
		if (d_rng) { due.push_back("rng"); groups |= G_VELPOS; }
		if (d_flow) { due.push_back("flow"); }
		if (d_ev) { due.push_back("ev"); groups |= G_VELPOS | (fl.flags.ev_yaw ? (unsigned)G_MAG : 0u); }
		if (d_tas) { due.push_back("tas"); groups |= G_AIR; }
		if (d_aux) { due.push_back("aux"); groups |= G_VELPOS; }

		// after a step that was not compared it is unknown when sideslip was last fused: then its innovation tells that it is due
		float bi[2];
		_e->getBetaInnov(bi[0]); _e->getBetaInnovVar(bi[1]);
		_beta_ran = memcmp(bi, _beta_last, sizeof bi) != 0;
		memcpy(_beta_last, bi, sizeof bi);

		gated_n = 0;
		_ev_prev_sure = false;
		_ev_att = 0;
		memcpy(_xpred, x, sizeof _xpred);
		_hyp_used = false;
		_hyp_decl = _decl_unknown;
		_all_used = -1;
		Shadow *keep = _decl_unknown || _align_unsure ? new Shadow(*this) : nullptr;
		steps(d_gps, d_mag, d_baro, d_rng, d_flow, d_ev, d_tas, d_aux, av);

		// after a step that was not compared it is unknown whether the field was aligned anew: both are possible
		if (_hyp_used) {
			double best = misfit();
			Shadow *win = new Shadow(*this);

			const int all0 = _all_used;
			double mis[2] = {1e9, 1e9}; // best match with the field states only, with all states
			if (all0 >= 0) { mis[all0] = best; }

			for (int h = 1; h < 4; h++) {
				*this = *keep;
				_hyp_decl = !(h & 1);

				if ((h & 1) && !_decl_unknown) { continue; }

				if (h & 2) {
					if (!_align_unsure) { continue; }

					_hyp_all = (double)imu.time_us - _t_align > 5e6 ? 0 : 1;
				}

				steps(d_gps, d_mag, d_baro, d_rng, d_flow, d_ev, d_tas, d_aux, av);
				_hyp_all = -1;
				const double mf = misfit();

				if (_all_used >= 0) { mis[_all_used] = std::min(mis[_all_used], mf); }

				if (mf < best) { best = mf; delete win; win = new Shadow(*this); }
			}

			*this = *win;
			delete win;

			// once all states are updated they stay updated until the next alignment
			if (mis[1] < 1 && mis[0] > 2 && !_abort && why.empty()) { _align_unsure = false; _t_align = 0; }
		}

		delete keep;

		if (_unhealthy) { why = "unhealthy"; _unhealthy = false; }

		if (_abort) { _abort = false; if (why.empty()) { why = "ambiguous"; } }

		// the correlations of the accelerometer bias are dropped once its value has been found wrong for 7 s
		if (!_fault0.flags.bad_acc_bias) { _t_acc_bias_ok = imu.time_us; }

		else if (!_e->fault_status().flags.bad_acc_bias && imu.time_us - _t_acc_bias_ok > 6.95e6) { if (why.empty()) { why = "accelerometer bias covariance reset"; } }

		if (_e->fault_status().value != 0 || _fault0.value != 0) {
			fault_status_u k = _e->fault_status(), k0 = _fault0;
			k.flags.bad_acc_vertical = k.flags.bad_acc_bias = k.flags.bad_acc_clipping = 0;
			k0.flags.bad_acc_vertical = k0.flags.bad_acc_bias = k0.flags.bad_acc_clipping = 0;

			if (k.value || k0.value) { why = "fault"; }
		}

		if (!why.empty()) {
			_beta_unsure = _decl_unknown = _static_unsure = true;
			if (why != "first") { _t_unknown = newest_us; }

			// (when only the change from an unsure position is unknown, this position is a sure start for the next)
			if (d_ev && !(_ev_prev_sure && why == "ambiguous")) { _ev_prev_unsure = true; }
		}

		if (why.empty() && groups == 0) {
			// growth of the bias variances: far below the rounding of one step, so summed over the steps without measurement
			for (int i = 10; i < 16; i++) {
				if (i > 12 && (_inh[i - 13] || P[i][i] > 0.99 * sq(0.1 * (double)CONSTANTS_ONE_G * _dt_avg) || P[i][i] < 1e-7)) { continue; }

				grown[i] += _P1[i][i] - _P0[i][i];
				expected[i] += _q[i];
				largest[i] = std::max(largest[i], _P1[i][i]);
			}
		}

		if (why.empty()) { compared = true; compare(); }

		else { _baro_off = _hgt_off = NAN; bad.clear(); }

		counts[why.empty() ? "compared" : "skipped: " + why]++;
	}

	double grown[24] {}, expected[24] {}, largest[24] {};
	int gated_n{0}; // measurements outside their gate in this step

private:
	void gated(const std::string &w) { counts[w]++; gated_n++; }
	Ekf *_e;
	parameters _p;
	Vec _x0, _x1;
	Mat _P0, _P1;
	fault_status_u _fault0;
	innovation_fault_status_u _rej0, _rej;
	std::array<int, 5> _rst0;
	bool _started{false};
	// tracked internal quantities
	double _dt_avg{0.01};
	double _gyr_filt{0}, _acc_filt{0};
	bool _inh[3] {};
	double _held[3] {};
	double _hrate{0};
	V3 _w; // angular rate used for lever arms
	M3 _R;
	uint64_t _last_ev{0}, _t_fake{0};
	bool _had_origin{false};
	double _earth_lat{NAN}, _gps_yaw_offset{0};
	bool _have_fake{false};
	double _fake_n{0}, _fake_e{0};
	double _baro_off{NAN}, _hgt_off{NAN};
	magSample _mag{};
	GpsObs _gps;
	baroSample _baro{};
	rangeSample _rng{};
	extVisionSample _ev{};
	airspeedSample _tas{};
	flowSample _flow{};
	uint64_t _flow_t{0};
	bool _flow_ready{false};
	bool _ev_prev{false}, _ev_prev_unsure{false}, _ev_prev_sure{false}, _ev_unsure{false};
	V3 _ev_prev_pos;
	double _ev_pred_n{0}, _ev_pred_e{0};
	M3 _R_ev{M3::I()};
	bool _abort{false}, _unhealthy{false};

	std::array<int, 5> resets() const
	{
		const auto &r = _e->state_reset_status();
		return {{r.velNE_counter, r.velD_counter, r.posNE_counter, r.posD_counter, r.quat_counter}};
	}
	void read(Vec &v, Mat &M) const
	{
		auto s = _e->getStateAtFusionHorizonAsVector();
		const auto &C = _e->covariances();

		for (int i = 0; i < N; i++) { v[i] = s(i); for (int j = 0; j < N; j++) { M[i][j] = C(i, j); } }
	}
	Q q() const { return Q(x[0], x[1], x[2], x[3]); }
	V3 xv(int i) const { return V3(x[i], x[i + 1], x[i + 2]); }
	static double clamp(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
	static V3 xform(const M3 &R, const V3 &v) { return R * v; }

	void mismatch(const char *what, double err, double tol, unsigned g, const char *fmt, ...) __attribute__((format(printf, 6, 7)))
	{
		if (bad.size() > 20) { return; }

		Mismatch m;
		m.what = what;
		m.err = err;
		m.tol = tol;
		m.group = g;
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(m.detail, sizeof m.detail, fmt, ap);
		va_end(ap);
		bad.push_back(m);
	}
	// compares a reported scalar with its reference
	void same(const char *what, unsigned g, double got, double want, double tol, int i = -1, int j = -1)
	{
		double e = std::fabs(got - want);
		tol += 3e-7 * std::fabs(want);

		if (std::isnan(got) != std::isnan(want)) { e = 1e9; }

		if (why.empty() && !_abort && !_unhealthy) {
			double r = e / tol;
			auto &pk = peaks[what];

			if (r > pk) { pk = r; }

			counts[std::string("checked ") + what]++;
		}

		if (!(e <= tol)) { mismatch(what, e, tol, g, "%s (%d %d): reported %.9g, reference %.9g (tolerance %.3g)", what, i, j, got, want, tol); }
	}

	// ================= prediction =================
	void constrainStates()
	{
		const double gb = 20 * D2R * _dt_avg, ab = _p.acc_bias_lim * _dt_avg;

		for (int i = 0; i < N; i++) {
			double l = i < 4 ? 1 : i < 7 ? 1000 : i < 10 ? 1e6 : i < 13 ? gb : i < 16 ? ab : i < 19 ? 1 : i < 22 ? 0.5 : 100;
			x[i] = clamp(x[i], -l, l);
		}
	}
	static void xi(const Q &q, double M[4][3]) // q * (0, v) = M v
	{
		double k[4][3] = {{-q.x, -q.y, -q.z}, {q.w, -q.z, q.y}, {q.z, q.w, -q.x}, {-q.y, q.x, q.w}};
		memcpy(M, k, sizeof k);
	}
	// derivative of R(q) v with the polynomial form of R
	static void dRdq(const Q &q, const V3 &v, double D[3][4])
	{
		double k[3][4] = {
			{2 * (q.w *v.x - q.z * v.y + q.y * v.z), 2 * (q.x *v.x + q.y * v.y + q.z * v.z), 2 * (-q.y *v.x + q.x * v.y + q.w * v.z), 2 * (-q.z *v.x - q.w * v.y + q.x * v.z)},
			{2 * (q.z *v.x + q.w * v.y - q.x * v.z), 2 * (q.y *v.x - q.x * v.y - q.w * v.z), 2 * (q.x *v.x + q.y * v.y + q.z * v.z), 2 * (q.w *v.x - q.z * v.y + q.y * v.z)},
			{2 * (-q.y *v.x + q.x * v.y + q.w * v.z), 2 * (q.z *v.x + q.w * v.y - q.x * v.z), 2 * (-q.w *v.x + q.z * v.y - q.y * v.z), 2 * (q.x *v.x + q.y * v.y + q.z * v.z)}
		};
		memcpy(D, k, sizeof k);
	}
	void predict()
	{
		const double dta = imu.delta_ang_dt, dtv = imu.delta_vel_dt;
		V3 da = d3(imu.delta_ang), dv = d3(imu.delta_vel);
		Q q0 = q().unit();
		V3 earth;
		if (std::isfinite(_earth_lat)) { earth = V3(EARTH_RATE * cos(_earth_lat * D2R), 0, -EARTH_RATE * sin(_earth_lat * D2R)); }
		V3 cda = da - xv(10) - q0.rotInv(earth) * dta;
		Q qn = (q0 * Q::fromRotVec(cda)).unit();
		x[0] = qn.w; x[1] = qn.x; x[2] = qn.y; x[3] = qn.z;
		V3 cdv = dv - xv(13);
		V3 dve = qn.rot(cdv);
		V3 v0 = xv(4);
		for (int i = 0; i < 3; i++) { x[4 + i] += dve[i]; }
		x[6] += (double)CONSTANTS_ONE_G * dtv;
		V3 v1 = xv(4);
		for (int i = 0; i < 3; i++) { x[7 + i] += (v0[i] + v1[i]) * 0.5 * dtv; }
		constrainStates();
		_dt_avg = 0.99 * _dt_avg + 0.01 * clamp(0.5 * (dta + dtv), 0.005, 0.02);
		if (dta > 0.0025) { _w = da * (1 / dta); }
		_R = qn.R();

		// ---- covariance, with the limited biases
		cdv = dv - xv(13);
		const double dt = 0.01;
		const double alpha = clamp(dt / _p.acc_bias_learn_tc, 0, 1), beta = 1 - alpha;
		_gyr_filt = std::max(da.norm() / dt, beta * _gyr_filt);
		_acc_filt = std::max(dv.norm() / dt, beta * _acc_filt);
		const bool high = _gyr_filt > _p.acc_bias_learn_gyr_lim || _acc_filt > _p.acc_bias_learn_acc_lim;
		if (std::fabs(_gyr_filt - _p.acc_bias_learn_gyr_lim) < 1e-4 || std::fabs(_acc_filt - _p.acc_bias_learn_acc_lim) < 1e-3) { _abort = true; }
		const bool all = (_p.fusion_mode & MASK_INHIBIT_ACC_BIAS) || high || _fault0.flags.bad_acc_vertical;
		for (int i = 0; i < 3; i++) {
			double r = std::fabs(_R(2, i));
			if (std::fabs(r - 0.8) < 1e-5 && !fl.flags.in_air) { _abort = true; }
			const bool inh = all || !(r > 0.8 || fl.flags.in_air) || imu.delta_vel_clipping[i];
			if (inh && !_inh[i]) { _held[i] = P[13 + i][13 + i]; _inh[i] = true; }
			else if (!inh && _inh[i]) { P[13 + i][13 + i] = _held[i]; _inh[i] = false; }
		}
		const bool mag3 = fl0.flags.mag_3D, wind = fl0.flags.wind;
		double Qd[N] = {};
		for (int i = 0; i < 3; i++) { if (_inh[i]) { counts["accel bias held"]++; } }
		const double gb = dt * dt * clamp(_p.gyro_bias_p_noise, 0, 1), ab = dt * dt * clamp(_p.accel_bias_p_noise, 0, 1);
		for (int i = 0; i < 3; i++) { Qd[10 + i] = gb * gb; if (!_inh[i]) { Qd[13 + i] = ab * ab; } }
		if (mag3 && P[16][16] + P[17][17] + P[18][18] < 0.1) { for (int i = 16; i < 19; i++) { Qd[i] = sq(dt * clamp(_p.mage_p_noise, 0, 1)); } }
		if (mag3 && P[19][19] + P[20][20] + P[21][21] < 0.1) { for (int i = 19; i < 22; i++) { Qd[i] = sq(dt * clamp(_p.magb_p_noise, 0, 1)); } }
		_hrate = _hrate * (1 - 0.1 * dt) + x[6] * 0.1 * dt;
		if (wind && P[22][22] + P[23][23] < sq((double)_p.initial_wind_uncertainty)) {
			for (int i = 22; i < 24; i++) { Qd[i] = sq(dt * clamp(_p.wind_vel_p_noise, 0, 1) * (1 + _p.wind_vel_p_noise_scaler * std::fabs(_hrate))); }
		}
		if (std::fabs(P[16][16] + P[17][17] + P[18][18] - 0.1) < 1e-6 || std::fabs(P[19][19] + P[20][20] + P[21][21] - 0.1) < 1e-6 || std::fabs(P[22][22] + P[23][23] - sq((double)_p.initial_wind_uncertainty)) < 1e-5) { _abort = true; }

		// Jacobian
		double F[N][N] = {};
		for (int i = 0; i < N; i++) { F[i][i] = 1; }
		V3 h = (da - xv(10)) * 0.5;
		double Fq[4][4] = {{1, -h.x, -h.y, -h.z}, {h.x, 1, h.z, -h.y}, {h.y, -h.z, 1, h.x}, {h.z, h.y, -h.x, 1}};
		double X[4][3], D[3][4];
		xi(qn, X);
		dRdq(qn, cdv, D);
		for (int i = 0; i < 4; i++) {
			for (int j = 0; j < 4; j++) { F[i][j] = Fq[i][j]; }
			for (int j = 0; j < 3; j++) { F[i][10 + j] = -0.5 * X[i][j]; }
		}
		for (int i = 0; i < 3; i++) {
			for (int j = 0; j < 4; j++) { F[4 + i][j] = D[i][j]; }
			for (int j = 0; j < 3; j++) { F[4 + i][13 + j] = -_R(i, j); }
			F[7 + i][4 + i] = dt;
		}
		Mat A, Pn;
		for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) { double s = 0; if (i < 10) { for (int k = 0; k < 16; k++) { s += F[i][k] * P[k][j]; } } else { s = P[i][j]; } A[i][j] = s; } }
		for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) { double s = 0; if (j < 10) { for (int k = 0; k < 16; k++) { s += A[i][k] * F[j][k]; } } else { s = A[i][j]; } Pn[i][j] = s; } }
		const double dav = sq(dt * clamp(_p.gyro_noise, 0, 1));
		double an = sq(dt * clamp(_p.accel_noise, 0, 1)), bad_n = sq(dt * 4.9);
		double dvv[3];
		for (int i = 0; i < 3; i++) { dvv[i] = _fault0.flags.bad_acc_vertical || imu.delta_vel_clipping[i] ? bad_n : an; }
		for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { double s = 0; for (int k = 0; k < 3; k++) { s += X[i][k] * X[j][k]; } Pn[i][j] += 0.25 * dav * s; } }
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) { s += _R(i, k) * _R(j, k) * dvv[k]; } Pn[4 + i][4 + j] += s; } }
		for (int i = 10; i < N; i++) { Pn[i][i] += Qd[i]; }
		for (int a = 0; a < 3; a++) {
			if (_inh[a]) { zero(Pn, 13 + a); Pn[13 + a][13 + a] = _held[a]; }
		}
		if (!mag3) { for (int i = 16; i < 22; i++) { zero(Pn, i); } }
		if (!wind) { zero(Pn, 22); zero(Pn, 23); }
		if (P[7][7] + P[8][8] > 1e4) {
			for (int i = 7; i < 9; i++) { for (int j = 0; j < N; j++) { Pn[i][j] = P[i][j]; Pn[j][i] = P[j][i]; } }
			_abort = true;
		}
		for (int i = 10; i < 16; i++) { _q[i] = Qd[i]; }
		memcpy(P, Pn, sizeof P);
		for (int i = 0; i < N; i++) { for (int j = 0; j < i; j++) { P[i][j] = P[j][i]; } }
		fixCov(false);
		memcpy(_xp, x, sizeof x);
		memcpy(_Pp, P, sizeof P);
	}
	Vec _q{};
	Vec _xp;
	Mat _Pp;
	static void zero(Mat &M, int i) { for (int j = 0; j < N; j++) { M[i][j] = M[j][i] = 0; } }
	void symm(int first, int width)
	{
		for (int i = first; i < first + width; i++) { for (int j = 0; j < N; j++) { double s = 0.5 * (P[i][j] + P[j][i]); P[i][j] = P[j][i] = s; } }
	}
	void fixCov(bool force)
	{
		for (int i = 0; i < 4; i++) { P[i][i] = clamp(P[i][i], 0, 1); }
		for (int i = 4; i < 10; i++) { P[i][i] = clamp(P[i][i], 1e-6, 1e6); }
		for (int i = 10; i < 13; i++) { P[i][i] = clamp(P[i][i], 0, 1); }
		if (force) { symm(0, 13); }
		if (!_inh[0] || !_inh[1] || !_inh[2]) {
			double mx = 1e-9;
			bool rst = false;
			for (int i = 0; i < 3; i++) {
				if (_inh[i]) { continue; }
				double v = P[13 + i][13 + i];
				if (std::fabs(v - 1e-9) < 1e-11) { _abort = true; }
				if (v > mx) { mx = v; }
				else if (v < 1e-9) { rst = true; }
			}
			const double mn = std::max(0.01 * mx, 5e-8);
			for (int i = 0; i < 3; i++) { if (!_inh[i]) { P[13 + i][13 + i] = clamp(P[13 + i][13 + i], mn, sq(0.1 * (double)CONSTANTS_ONE_G * _dt_avg)); } }
			if (rst) { for (int i = 13; i < 16; i++) { double v = P[i][i]; zero(P, i); P[i][i] = v; } }
			else if (force) { symm(13, 3); }
		}
		if (!fl0.flags.mag_3D) { for (int i = 16; i < 22; i++) { zero(P, i); } }
		else {
			for (int i = 16; i < 22; i++) { P[i][i] = clamp(P[i][i], 0, 1); }
			if (force) { symm(16, 6); }
		}
		if (!fl0.flags.wind) { zero(P, 22); zero(P, 23); }
		else {
			for (int i = 22; i < 24; i++) { P[i][i] = clamp(P[i][i], 0, 1e6); }
			if (force) { symm(22, 2); }
		}
	}

	// ================= scalar measurement update =================
	double innovVar(const Vec &H, double R) const
	{
		double s = R;
		for (int i = 0; i < N; i++) { if (H[i] != 0) { for (int j = 0; j < N; j++) { if (H[j] != 0) { s += H[i] * P[i][j] * H[j]; } } } }
		return s;
	}
	// gain rows outside the mask are zero
	bool correct(const Vec &H, double S, double innov, const bool *mask)
	{
		Vec K, HP;
		for (int i = 0; i < N; i++) {
			double a = 0, b = 0;
			for (int k = 0; k < N; k++) { if (H[k] != 0) { a += P[i][k] * H[k]; b += H[k] * P[k][i]; } }
			K[i] = mask[i] ? a / S : 0;
			HP[i] = b;
		}
		return applyGain(K, HP, innov);
	}
	bool applyGain(const Vec &K, const Vec &HP, double innov)
	{
		for (int i = 0; i < N; i++) {
			double d = K[i] * HP[i];
			if (P[i][i] < d || (d > 0 && P[i][i] - d < 1e-5 * P[i][i])) { _unhealthy = true; }
		}
		if (_unhealthy) { return false; }
		for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) { P[i][j] -= K[i] * HP[j]; } }
		fixCov(true);
		for (int i = 0; i < N; i++) { x[i] -= K[i] * innov; }
		Q u = q().unit();
		x[0] = u.w; x[1] = u.x; x[2] = u.y; x[3] = u.z;
		return true;
	}
	void direct(int s, double S, double innov)
	{
		Vec H = {};
		H[s] = 1;
		correct(H, S, innov, ALL);
	}

	// ================= velocity, position and height =================
	// returns 1 fused, 0 rejected
	int horizontal(const char *name, int s, double i0, double i1, double gate, double r0, double r1, double v[2], double &ratio, bool inhibit = false)
	{
		v[0] = P[s][s] + r0;
		v[1] = P[s + 1][s + 1] + r1;
		ratio = std::max(sq(i0) / (sq(gate) * v[0]), sq(i1) / (sq(gate) * v[1]));
		if (std::fabs(ratio - 1) < 1e-3) { _abort = true; return 0; }
		if (inhibit ? ratio > sq(100.0 / gate) : ratio > 1) { gated(std::string("rejected ") + name); return 0; }
		counts[std::string("fused ") + name]++;
		direct(s, v[0], i0);
		direct(s + 1, v[1], i1);
		return 1;
	}
	int vertical(const char *name, int s, double in, double gate, double r, double &v, double &ratio)
	{
		v = P[s][s] + r;
		ratio = sq(in) / (sq(gate) * v);
		if (std::fabs(ratio - 1) < 1e-3) { _abort = true; return 0; }
		if (ratio > 1) {
			if (_bad_vert()) {
				gated(std::string("limited ") + name);
				const double l = gate * std::sqrt(v);
				direct(s, v, clamp(in, -l, l));
				return 1;
			}
			gated(std::string("rejected ") + name);
			return 0;
		}
		counts[std::string("fused ") + name]++;
		direct(s, v, in);
		return 1;
	}
	bool _bad_vert() { return _e->fault_status().flags.bad_acc_vertical; }
	static const char *nm(std::string s) { static std::set<std::string> pool; return pool.insert(s).first->c_str(); }
	// rounding of a position or velocity state
	static double eps(double a, double b) { return 4e-7 * (std::fabs(a) + std::fabs(b)) + 1e-6; }
	void cmpPair(const std::string &n, unsigned g, const float *in, const float *vr, const double *ri, const double *rv, double sx, double ox, double extra = 0)
	{
		for (int k = 0; k < 2; k++) {
			same(nm(n + " innovation"), g, in[k], ri[k], 2e-4 * std::sqrt(rv[k]) + eps(sx, ox) + extra);
			same(nm(n + " innovation variance"), g, vr[k], rv[k], 2e-3 * rv[k]);
		}
	}
	void cmpOne(const std::string &n, unsigned g, double in, double vr, double ri, double rv, double sx, double ox)
	{
		same(nm(n + " innovation"), g, in, ri, 2e-4 * std::sqrt(rv) + eps(sx, ox));
		same(nm(n + " innovation variance"), g, vr, rv, 2e-3 * rv);
	}
	void cmpRatio(const std::string &n, unsigned g, double got, double want) { same(nm(n + " test ratio"), g, got, want, 4e-3 * want + 1e-3 * std::sqrt(want) + 1e-6); }
	void cmpFlag(const std::string &n, unsigned g, bool got, bool want) { same(nm(n + " rejection flag"), g, got, want, 0.5); }

	bool otherAid(bool me) const { return nAid() > (me ? 1 : 0); }
	int nAid() const { return fl.flags.gps + fl.flags.ev_pos + fl.flags.ev_vel + fl.flags.opt_flow + (fl.flags.fuse_aspd && fl.flags.fuse_beta); }

	void gpsFusion()
	{
		V3 off = d3(_p.gps_pos_body) - d3(_p.imu_pos_body);
		V3 ve = _gps.vel - _R * _w.cross(off);
		V3 oe = _R * off;
		_gps.n -= oe.x; _gps.e -= oe.y; _gps.hgt += oe.z;
		const double lower = std::max((double)_p.gps_pos_noise, 0.01), upper = std::max((double)_p.pos_noaid_noise, lower);
		const double pv = sq(otherAid(true) ? std::max(_gps.hacc, lower) : clamp(_gps.hacc, lower, upper));
		const double vv = sq(std::max(_gps.sacc, (double)_p.gps_vel_noise));
		V3 iv = xv(4) - ve;
		double ip[2] = {x[7] - _gps.n, x[8] - _gps.e};
		double hv[2], hp[2], vz, rv, rz, rp;
		const double pg = std::max(_p.gps_pos_innov_gate, 1.f), vg = std::max(_p.gps_vel_innov_gate, 1.f);
		const int fv = horizontal("gps velocity", 4, iv.x, iv.y, vg, vv, vv, hv, rv);
		const int fz = vertical("gps vertical velocity", 6, iv.z, vg, vv * 2.25, vz, rz);
		const int fp = horizontal("gps position", 7, ip[0], ip[1], pg, pv, pv, hp, rp);
		float ohv[2], ovv, ohp[2], ovp, uhv[2], uvv, uhp[2], uvp, thv, tvv, thp, tvp;
		_e->getGpsVelPosInnov(ohv, ovv, ohp, ovp);
		_e->getGpsVelPosInnovVar(uhv, uvv, uhp, uvp);
		_e->getGpsVelPosInnovRatio(thv, tvv, thp, tvp);
		double riv[2] = {iv.x, iv.y};
		const double sv = _x0[4] * _x0[4] > 0 ? xv(4).norm() + _gps.vel.norm() : 1;
		cmpPair("gps velocity", G_VELPOS, ohv, uhv, riv, hv, sv, 1);
		cmpOne("gps vertical velocity", G_VELPOS, ovv, uvv, iv.z, vz, sv, 1);
		cmpRatio("gps velocity", G_VELPOS, thv, rv);
		cmpRatio("gps vertical velocity", G_VELPOS, tvv, rz);
		_expect_hvel = !fv;
		_expect_vvel = !fz;
		cmpPair("gps position", G_VELPOS, ohp, uhp, ip, hp, std::hypot(_gps.n, _gps.e) * 3, 5);
		cmpRatio("gps position", G_VELPOS, thp, rp);
		_expect_hpos = !fp;
	}
	// -1: nothing attempted in this step
	int _expect_hvel{-1}, _expect_vvel{-1}, _expect_hpos{-1}, _expect_vpos{-1};

	double gpsHgtVar() const
	{
		const double lower = std::max(1.5 * (double)_p.gps_pos_noise, 0.01), upper = std::max(1.5 * (double)_p.pos_noaid_noise, lower);
		return sq(clamp(_gps.vacc, lower, upper));
	}
	void heightFusion(bool d_gps, bool d_baro, bool d_rng, bool d_ev)
	{
		double v, r;
		if (fl.flags.baro_hgt && d_baro) {
			const double gate = std::max(_p.baro_innov_gate, 1.f), var = sq(std::max(_p.baro_noise, 0.01f));
			float in, iv, ir;
			_e->getBaroHgtInnov(in); _e->getBaroHgtInnovVar(iv); _e->getBaroHgtInnovRatio(ir);
			double raw = x[9] + _baro.hgt, want = in;
			// the offset of the barometer is found from the first reported innovation and must stay the same
			if (!fl.flags.gnd_effect) {
				if (std::isnan(_baro_off) && std::fabs(_baro.hgt) > 3000 + std::fabs(_p.baro_noise)) { /* too coarse to learn the offset from */ }
				else if (std::isnan(_baro_off)) { _baro_off = raw - in; counts["baro offset found"]++; }
				else { want = raw - _baro_off; }
			} else if (!std::isnan(_baro_off)) {
				want = raw - _baro_off;
				const double dz = _p.gnd_effect_deadzone;
				if (want < 0) { want = want <= -dz ? want + dz : 0; }
				counts["baro in ground effect"]++;
			} else { _abort = true; }
			const int f = vertical("baro height", 9, want, gate, var, v, r);
			cmpOne("baro height", G_VELPOS, in, iv, want, v, std::fabs(_baro.hgt) + (std::isnan(_baro_off) ? 0 : std::fabs(_baro_off)), x[9]);
			cmpRatio("baro height", G_VELPOS, ir, r);
			_expect_vpos = !f;
		} else if (fl.flags.gps_hgt && d_gps) {
			const double gate = std::max(_p.baro_innov_gate, 1.f);
			float a[2], in, b[2], iv, ir, c0, c1, c2;
			_e->getGpsVelPosInnov(a, c0, b, in); _e->getGpsVelPosInnovVar(a, c0, b, iv); _e->getGpsVelPosInnovRatio(c0, c1, c2, ir);
			if (!fl.flags.gps) { // the lever arm is only removed while GPS aiding is active
			}
			double raw = x[9] + _gps.hgt - _e->getEkfGlobalOriginAltitude(), want = in;
			if (std::isnan(_hgt_off)) { _hgt_off = raw - in; } else { want = raw - _hgt_off; }
			const int f = vertical("gps height", 9, want, gate, gpsHgtVar(), v, r);
			cmpOne("gps height", G_VELPOS, in, iv, want, v, std::fabs(_gps.hgt) * 2, x[9]);
			cmpRatio("gps height", G_VELPOS, ir, r);
			_expect_vpos = !f;
		} else if (fl.flags.rng_hgt && !d_rng && !fl.flags.in_air) {
			// on the ground the clearance is used in place of measurements that are missed or rejected
			float in;
			_e->getRngHgtInnov(in);
			if (in != _rng_innov0) { _abort = true; counts["range assumed on ground"]++; }
		} else if (fl.flags.rng_hgt && d_rng) {
			// whether the sample was healthy is decided by the sensor model (property S01): the reported state shows it
			const double pitch = _p.rng_sens_pitch;
			const double ct = _R(2, 0) * sin(pitch) + _R(2, 2) * cos(pitch);
			V3 off = _R * (d3(_p.rng_pos_body) - d3(_p.imu_pos_body));
			const double dist = (_rng.rng + off.z / ct) * ct;
			const double gate = std::max(_p.range_innov_gate, 1.f);
			const double var = std::max(sq((double)_p.range_noise) + sq(_p.range_noise_scaler * dist), 0.01);
			float in, iv, ir;
			_e->getRngHgtInnov(in); _e->getRngHgtInnovVar(iv); _e->getRngHgtInnovRatio(ir);
			double raw = x[9] + std::max(dist, (double)_p.rng_gnd_clearance), want = in;
			if (_rng.quality == 0 || _rng.rng < 0.3 || _rng.rng > 80 || ct < 0.75) { _abort = true; return; }
			if (std::isnan(_hgt_off)) { _hgt_off = raw - in; } else { want = raw - _hgt_off; }
			const int f = vertical("range height", 9, want, gate, var, v, r);
			cmpOne("range height", G_VELPOS, in, iv, want, v, dist, x[9]);
			cmpRatio("range height", G_VELPOS, ir, r);
			_expect_vpos = !f;
		} else if (fl.flags.ev_hgt) {
			// known finding: fused in every step, also without a new measurement
			if (_ev_unsure) { _abort = true; }
			const double gate = std::max(_p.ev_pos_innov_gate, 1.f), var = std::max((double)_ev.posVar(2), 1e-4);
			float a[2], in, b[2], iv, ir, c0, c1, c2;
			_e->getEvVelPosInnov(a, c0, b, in); _e->getEvVelPosInnovVar(a, c0, b, iv); _e->getEvVelPosInnovRatio(c0, c1, c2, ir);
			const double want = x[9] - _ev.pos(2);
			if (!d_ev) { counts["ev height fused again"]++; groups |= G_VELPOS; }
			const int f = vertical("ev height", 9, want, gate, var, v, r);
			cmpOne("ev height", G_VELPOS, in, iv, want, v, _ev.pos(2), x[9]);
			cmpRatio("ev height", G_VELPOS, ir, r);
			_expect_vpos = !f;
		}
	}
	static M3 fromF(const Matrix3f &m) { M3 r = M3::I(); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { r(i, j) = m(i, j); } } return r; }
	double _ev_att{0};
	Vec _xpred{};
	void evFusion()
	{
		// the attitude may be off by its tolerance when it was corrected in this same step
		const double att = groups & G_MAG ? 4e-3 * std::sqrt(P[0][0] + P[1][1] + P[2][2] + P[3][3]) : 0;
		const bool rot = _p.fusion_mode & MASK_ROTATE_EV;
		if (rot && (_p.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVVEL)) && !fl0.flags.ev_yaw) { _R_ev = (q() * dq(_ev.quat).unit().conj()).unit().R(); }
		_ev_att = rot ? att * d3(_ev.pos).norm() : 0;
		double v[2], r;
		float ohv[2], ovv, ohp[2], ovp, uhv[2], uvv, uhp[2], uvp, thv, tvv, thp, tvp;
		_e->getEvVelPosInnov(ohv, ovv, ohp, ovp);
		_e->getEvVelPosInnovVar(uhv, uvv, uhp, uvp);
		_e->getEvVelPosInnovRatio(thv, tvv, thp, tvp);
		if (fl.flags.ev_pos) {
			const double gate = std::max(_p.ev_pos_innov_gate, 1.f);
			V3 pm = d3(_ev.pos);
			M3 pv = M3::I();
			for (int i = 0; i < 3; i++) { pv(i, i) = _ev.posVar(i); }
			M3 pvr = _R_ev * pv * _R_ev.T();
			if (_p.fusion_mode & MASK_USE_GPS) {
				const bool had = _ev_prev;
				double in[2];
				V3 d = _R_ev * (pm - _ev_prev_pos);
				in[0] = x[7] - _ev_pred_n - d.x;
				in[1] = x[8] - _ev_pred_e - d.y;
				_ev_prev = true;
				_ev_prev_pos = pm;
				_ev_pred_n = x[7];
				_ev_pred_e = x[8];
				const bool unsure = _ev_prev_unsure;
				_ev_prev_unsure = !why.empty();

				if (had && unsure) { _ev_prev_sure = !_ev_prev_unsure && !_abort && !_hyp_used; _abort = true; }
				else if (had) {
					const int f = horizontal("ev position change", 7, in[0], in[1], gate, std::max(pvr(0, 0), 0.25), std::max(pvr(1, 1), 0.25), v, r);
					cmpPair("ev position change", G_VELPOS, ohp, uhp, in, v, std::hypot(x[7], x[8]) * 4, 4 * pm.norm(), 4e-3 * std::sqrt(std::max(P[7][7], P[8][8])) + 2e-6 * std::hypot(in[0], in[1]));
					cmpRatio("ev position change", G_VELPOS, thp, r);
					_expect_hpos = !f;
				}
			} else {
				if (rot) { pm = _R_ev * pm; pv = pvr; }
				double in[2] = {x[7] - pm.x, x[8] - pm.y};
				const int f = horizontal("ev position", 7, in[0], in[1], gate, std::max(pv(0, 0), 1e-4), std::max(pv(1, 1), 1e-4), v, r);
				cmpPair("ev position", G_VELPOS, ohp, uhp, in, v, std::hypot(x[7], x[8]), pm.norm(), att * pm.norm());
				cmpRatio("ev position", G_VELPOS, thp, r);
				_expect_hpos = !f;
			}
		} else { _ev_prev = false; }
		if (fl.flags.ev_vel) {
			V3 off = _w.cross(d3(_p.ev_pos_body) - d3(_p.imu_pos_body)), vm;
			M3 cov = fromF(_ev.velCov);
			if (_ev.vel_frame == velocity_frame_t::BODY_FRAME_FRD) { vm = _R * (d3(_ev.vel) - off); cov = _R * cov * _R.T(); }
			else { vm = (rot ? _R_ev * d3(_ev.vel) : d3(_ev.vel)) - _R * off; if (rot) { cov = _R_ev * cov * _R_ev.T(); } }
			V3 in = xv(4) - vm;
			double rr[2] = {in.x, in.y}, vz, rz;
			const double gate = std::max(_p.ev_vel_innov_gate, 1.f);
			const int f = horizontal("ev velocity", 4, in.x, in.y, gate, std::max(cov(0, 0), 0.0025), std::max(cov(1, 1), 0.0025), v, r);
			const int fz = vertical("ev vertical velocity", 6, in.z, gate, std::max(cov(2, 2), 0.0025), vz, rz);
			cmpPair("ev velocity", G_VELPOS, ohv, uhv, rr, v, vm.norm(), xv(4).norm(), att * vm.norm());
			cmpOne("ev vertical velocity", G_VELPOS, ovv, uvv, in.z, vz, vm.norm() + 1e6 * att * vm.norm(), x[6]);
			cmpRatio("ev velocity", G_VELPOS, thv, r);
			cmpRatio("ev vertical velocity", G_VELPOS, tvv, rz);
			_expect_hvel = !f;
			_expect_vvel = !fz;
		}
		if (fl.flags.ev_yaw) { headingFusion(false, true); }
	}
	void auxFusion(const auxVelSample &a)
	{
		double in[2] = {x[4] - a.vel(0), x[5] - a.vel(1)}, v[2], r;
		const int f = horizontal("aux velocity", 4, in[0], in[1], _p.auxvel_gate, a.velVar(0), a.velVar(1), v, r);
		float oi[2], oz, ov[2];
		_e->getAuxVelInnov(oi); _e->getAuxVelInnovVar(ov); _e->getAuxVelInnovRatio(oz);
		cmpPair("aux velocity", G_VELPOS, oi, ov, in, v, in[0], a.vel(0));
		cmpRatio("aux velocity", G_VELPOS, oz, r);
		_expect_hvel = !f;
	}
	void fakePos()
	{
		if (nAidNoAir() || (fl.flags.fuse_aspd && fl.flags.fuse_beta)) { _t_fake = newest_us > 0 ? _t_fake : 0; _have_fake = false; return; }
		if (!_have_fake) {
			// becomes known at the reset with which it starts
			if (_t_fake == 0 || newest_us > _t_fake + 200000) { _t_fake = newest_us; _fake_n = _x1[7]; _fake_e = _x1[8]; _have_fake = true; why = "synthetic position starts"; }
			return;
		}
		if (newest_us > _t_fake + 200000) {
			_t_fake = newest_us;
			due.push_back("synthetic");
			groups |= G_VELPOS;
			double var = fl.flags.in_air && fl.flags.tilt_align ? sq(std::max(_p.pos_noaid_noise, _p.gps_pos_noise)) : fl.flags.vehicle_at_rest ? 0.01 : 0.25;
			double in[2] = {x[7] - _fake_n, x[8] - _fake_e}, v[2], r;
			const int f = horizontal("synthetic position", 7, in[0], in[1], 3, var, var, v, r, true);
			float ohv[2], ovv, ohp[2], ovp, uhv[2], uvv, uhp[2], uvp, thv, tvv, thp, tvp;
			_e->getGpsVelPosInnov(ohv, ovv, ohp, ovp);
			_e->getGpsVelPosInnovVar(uhv, uvv, uhp, uvp);
			_e->getGpsVelPosInnovRatio(thv, tvv, thp, tvp);
			cmpPair("synthetic position", G_VELPOS, ohp, uhp, in, v, std::hypot(x[7], x[8]), 0);
			cmpRatio("synthetic position", G_VELPOS, thp, r);
			if (f) { _expect_hpos = 0; }
		}
	}
	int nAidNoAir() const { return fl.flags.gps + fl.flags.ev_pos + fl.flags.ev_vel + fl.flags.opt_flow; }


	// drag is not used while the magnetometer is inhibited: workloads with drag do not inhibit it
	bool magTracked() const { return true; }

	// ================= yaw and magnetic field =================
	double _t_acc_bias_ok{0}, _t_in_air{0}, _t_align{0}, _t_skip{0};
	bool _align_unsure{true};
	int _hyp_all{-1}, _all_used{-1};
	bool _decl_first{true}, _decl_unknown{true}, _hyp_decl{false}, _hyp_used{false};
	double _static_yaw{NAN};
	V3 _mag_used;

	bool geoDecl() const { return (_p.mag_declination_source & MASK_USE_GEO_DECL) && (_e->global_origin_valid() || std::isfinite(_decl_gps)); }
	double _decl_gps{NAN}, _incl_gps{NAN}, _str_gps{NAN};
	double declination() const
	{
		if (fl.flags.mag_aligned_in_flight) { return atan2(x[17], x[16]); }
		return geoDecl() ? _decl_gps : _p.mag_declination_deg * D2R;
	}
	void limitDecl()
	{
		double ref_ = geoDecl() ? _decl_gps : _p.mag_declination_deg * D2R, hmin = 0.001;
		if (geoDecl()) { hmin = std::max(hmin, 0.5 * _str_gps * cos(_incl_gps)); }
		double h = std::hypot(x[16], x[17]);
		if (h < hmin) {
			if (h > 0.001 * hmin) { x[16] *= hmin / h; x[17] *= hmin / h; }
			else { const double d = declination(); x[16] = 2 * hmin * cos(d); x[17] = 2 * hmin * sin(d); }
			h = hmin;
			counts["horizontal field limited"]++;
		}
		const double e = wrap(atan2(x[17], x[16]) - ref_);
		if (std::fabs(std::fabs(e) - 0.5) < 1e-5) { _abort = true; }
		if (std::fabs(e) > 0.5) { const double d = ref_ + (e > 0 ? 0.5 : -0.5); x[16] = h * cos(d); x[17] = h * sin(d); counts["declination limited"]++; }
	}
	void fuseDecl(double sigma)
	{
		Vec H = {};
		const double n = x[16], e = x[17], h2 = n * n + e * e;
		if (std::fabs(n) < 1e-6) { return; }
		H[16] = -e / h2;
		H[17] = n / h2;
		const double S = innovVar(H, sigma * sigma);
		const double in = clamp(wrap(atan2(e, n) - declination()), -0.5, 0.5);
		if (correct(H, S, in, gainMask())) { limitDecl(); counts[sigma < 0.1 ? "fused declination (first)" : "fused declination"]++; }
	}
	const bool *gainMask() { for (int i = 0; i < N; i++) { _mask[i] = !(i >= 13 && i < 16 && _inh[i - 13]); } return _mask; }
	bool _mask[N];
	void magRow(int axis, Vec &H) const
	{
		memset(H, 0, sizeof(Vec));
		// derivative of R(q)^T m: rows of the transposed rotation are the rotation by the conjugate
		Q c(x[0], -x[1], -x[2], -x[3]);
		double D[3][4];
		dRdq(c, xv(16), D);
		for (int j = 0; j < 4; j++) { H[j] = D[axis][j] * (j ? -1 : 1); }
		M3 R = q().R();
		for (int j = 0; j < 3; j++) { H[16 + j] = R(j, axis); }
		H[19 + axis] = 1;
	}
	void fuse3D()
	{
		const double R = sq(std::max(_p.mag_noise, 0.f));
		const V3 pred = q().R().T() * xv(16);
		Vec H;
		double in[3], S[3], ratio[3];
		bool ok = true;
		const bool synth = fl.flags.synthetic_mag_z;
		float oi[3], ov[3], orr;
		_e->getMagInnov(oi); _e->getMagInnovVar(ov); _e->getMagInnovRatio(orr);
		double mx = 0;
		const bool rej[3] = {(bool)_rej.flags.reject_mag_x, (bool)_rej.flags.reject_mag_y, (bool)_rej.flags.reject_mag_z};
		for (int a = 0; a < 3; a++) {
			magRow(a, H);
			S[a] = innovVar(H, R);
			in[a] = a == 2 && synth ? 0 : pred[a] + x[19 + a] - _mag_used[a];
			ratio[a] = sq(in[a]) / (sq(std::max(_p.mag_innov_gate, 1.f)) * S[a]);
			mx = std::max(mx, ratio[a]);
			if (std::fabs(ratio[a] - 1) < 1e-2) { _abort = true; }
			if (ratio[a] > 1) { ok = false; }
		}
		for (int a = 0; a < 3; a++) {
			same("magnetic field innovation", G_MAG, oi[a], in[a], 1e-3 * std::sqrt(S[a]) + 1e-6);
			cmpFlag("magnetic field", G_MAG, rej[a], ratio[a] > 1);
			if (!ok || a == 0) { same("magnetic field innovation variance", G_MAG, ov[a], S[a], 5e-3 * S[a]); }
		}
		cmpRatio("magnetic field", G_MAG, orr, mx);
		if (!ok) { gated("rejected magnetic field"); return; }
		const double dt_al = (double)imu.time_us - _t_align;
		const bool all = _hyp_all >= 0 ? _hyp_all : dt_al > 5e6;
		_all_used = all;
		if (_align_unsure) { _hyp_used = true; }
		const bool *m0 = gainMask();
		bool m[N];
		for (int i = 0; i < N; i++) { m[i] = m0[i] && (all || (i >= 16 && i < 22)); }
		counts[all ? "fused magnetic field (all states)" : "fused magnetic field (field states only)"]++;
		for (int a = 0; a < 3; a++) {
			if (a == 2 && synth) { counts["synthetic magnetic z skipped"]++; continue; }
			magRow(a, H);
			if (a) { S[a] = innovVar(H, R); same("magnetic field innovation variance", G_MAG, ov[a], S[a], 5e-3 * S[a]); }
			if (correct(H, S[a], in[a], m)) { limitDecl(); }
		}
	}
	// derivative of the yaw of the attitude in the given rotation order
	double yawOf(const Q &u, bool o321, double dq[4]) const
	{
		// 321: atan2(R10, R00); 312: atan2(-R01, R11)
		const double w = u.w, a = u.x, b = u.y, c = u.z;
		double num, den, dn[4], dd[4];
		if (o321) {
			num = 2 * (w * c + a * b); den = w * w + a * a - b * b - c * c;
			double n_[4] = {2 * c, 2 * b, 2 * a, 2 * w}, d_[4] = {2 * w, 2 * a, -2 * b, -2 * c};
			memcpy(dn, n_, sizeof n_); memcpy(dd, d_, sizeof d_);
		} else {
			num = 2 * (w * c - a * b); den = w * w - a * a + b * b - c * c;
			double n_[4] = {2 * c, -2 * b, -2 * a, 2 * w}, d_[4] = {2 * w, -2 * a, 2 * b, -2 * c};
			memcpy(dn, n_, sizeof n_); memcpy(dd, d_, sizeof d_);
		}
		const double h2 = num * num + den * den;
		for (int i = 0; i < 4; i++) { dq[i] = (den * dn[i] - num * dd[i]) / h2; }
		return atan2(num, den);
	}
	void headingFusion(bool inhibited, bool ev)
	{
		_R = q().R();
		if (std::fabs(std::fabs(_R(2, 0)) - std::fabs(_R(2, 1))) < 1e-5) { _abort = true; }
		const bool o321 = std::fabs(_R(2, 0)) < std::fabs(_R(2, 1));
		double dq_[4];
		const double pred = yawOf(q(), o321, dq_);
		double var = fl.flags.mag_hdg ? sq(_p.mag_heading_noise) : ev ? (double)_ev.angVar : 0.01;
		double meas = pred;
		if (fl.flags.mag_hdg) {
			// undo the yaw of the attitude, then measure where the field points
			M3 R0 = Rz(-pred) * _R;
			V3 m = R0 * (_mag_used - xv(19));
			if (std::hypot(m.x, m.y) < 0.02) { _abort = true; }
			meas = -atan2(m.y, m.x) + declination();
		} else if (ev) {
			double t[4];
			meas = yawOf(dq(_ev.quat), o321, t);
		}
		bool zero_ = false, none = false;
		if (inhibited) {
			if (!fl.flags.vehicle_at_rest) {
				const double sum = P[0][0] + P[1][1] + P[2][2] + P[3][3];
				if (std::fabs(sum - _p.quat_max_variance) < 1e-5) { _abort = true; }
				if (sum > _p.quat_max_variance) { zero_ = true; var = 0.25; counts["fused zero yaw innovation"]++; }
				_static_yaw = pred;
				_static_unsure = false;
			} else {
				float oi;
				_e->getHeadingInnov(oi);
				// the yaw held from a step that was not compared is found from the reported innovation
				if (_static_unsure) { _static_yaw = pred - oi; _static_unsure = false; }
				if (!std::isfinite(_static_yaw)) { _static_yaw = pred; }
				meas = _static_yaw;
				counts["fused static yaw"]++;
			}
		} else { _static_yaw = pred; _static_unsure = false; }
		(void)none;
		const double Rr = std::max(var, 1e-4), gate = std::max(_p.heading_innov_gate, 1.f);
		double in = zero_ ? 0 : wrap(pred - wrap(meas));
		if (std::fabs(std::fabs(in) - PI) < 1e-3) { _abort = true; }
		const char *name = fl.flags.mag_hdg ? "magnetic heading" : ev ? "vision yaw" : "held yaw";
		Vec H = {};
		for (int i = 0; i < 4; i++) { H[i] = dq_[i]; }
		yawUpdate(name, H, Rr, in, gate, !fl.flags.in_air && (double)newest_us - _t_in_air > 5e6, false);
	}
	void yawUpdate(const char *name, const Vec &H, double Rr, double in, double gate, bool clip, bool all)
	{
		const double S = innovVar(H, Rr), ratio = sq(in) / (sq(gate) * S);
		float oi, ov, orr;
		_e->getHeadingInnov(oi); _e->getHeadingInnovVar(ov); _e->getHeadingInnovRatio(orr);
		std::string n = name;
		same(nm(n + " innovation variance"), G_MAG, ov, S, 5e-3 * S);
		cmpRatio(n, G_MAG, orr, ratio);
		if (std::fabs(ratio - 1) < 1e-2) { _abort = true; }
		cmpFlag("yaw", G_MAG, _rej.flags.reject_yaw, ratio > 1);
		if (ratio > 1) {
			if (!clip) { gated("rejected " + n); return; }
			const double l = gate * std::sqrt(S);
			in = clamp(in, -l, l);
			gated("limited " + n);
		} else { counts["fused " + n]++; }
		same(nm(n + " innovation"), G_MAG, oi, in, 1e-3 * std::sqrt(S) + 2e-6);
		bool m[N];
		const bool *g = gainMask();
		for (int i = 0; i < N; i++) { m[i] = all ? g[i] : (i < 16 || (i >= 22 && fl.flags.wind)); }
		correct(H, S, in, m);
	}
	void gpsYaw()
	{
		const V3 ant(cos(_gps_yaw_offset), sin(_gps_yaw_offset), 0);
		const V3 e = _R * ant;
		const double lim = cos(30 * D2R);
		if (std::fabs(std::fabs(e.z) - lim) < 1e-4) { _abort = true; }
		if (std::fabs(e.z) > lim) { counts["gps yaw near vertical"]++; return; }
		// H: the horizontal components of R(q) ant
		double D[3][4];
		dRdq(q(), ant, D);
		V3 en = q().R() * ant;
		if (std::fabs(en.x) < 5e-3) { _abort = true; return; }
		Vec H = {};
		const double h2 = en.x * en.x + en.y * en.y;
		for (int i = 0; i < 4; i++) { H[i] = (en.x * D[1][i] - en.y * D[0][i]) / h2; }
		const double in = wrap(atan2(e.y, e.x) - (_gps.yaw + _gps_yaw_offset));
		if (std::fabs(std::fabs(in) - PI) < 1e-3) { _abort = true; }
		yawUpdate("gps yaw", H, sq(std::max(_p.mag_heading_noise, 1e-2f)), in, std::max(_p.heading_innov_gate, 1.f), !fl.flags.in_air, true);
	}
	void magControl(bool d_mag)
	{
		const bool other = fl.flags.ev_yaw || fl.flags.gps_yaw;
		if (_p.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
			if (!other) { groups |= G_MAG; headingFusion(true, false); }
			return;
		}
		if (!d_mag || other || fl.flags.mag_fault || !fl.flags.yaw_align) { return; }
		const bool inhibit = (_p.mag_fusion_type == MAG_FUSE_TYPE_INDOOR && !fl.flags.gps && !fl.flags.ev_pos && !fl.flags.ev_vel) || fl.flags.mag_field_disturbed;
		if (fl.flags.mag_3D) {
			bool first = _decl_first;
			if (_decl_unknown) { _hyp_used = true; first = _hyp_decl; }
			if (first) { fuseDecl(0.02); fuse3D(); }
			else { fuse3D(); if (fl.flags.mag_dec) { fuseDecl(0.5); } }
			_decl_first = false;
			_decl_unknown = false;
		} else if (fl.flags.mag_hdg) { headingFusion(inhibit, false); }
	}

	// ================= airspeed, sideslip, drag and optical flow =================
	double _t_hpos{-1}, _t_hvel{-1}, _t_dpos{-1}, _t_of{-1}, _t_arsp{-1}, _t_beta{-1};
	bool _synth{true}, _wind_dr{false}, _wind_dr_unknown{true};
	V3 _of_ang;
	double _of_dt{0}, _of_bias[3] {};
	double _terrain0{0};
	bool _hagl_ok0{false};
	float _hagl_last{0}, _rng_innov0{0};
	uint64_t _t_hagl{0};
	double _beta_seen{0};
	// drag: means over five filter intervals of the raw inertial sample that ends each interval;
	// which intervals are averaged together is not visible, it is found at the first use
	struct DragObs { double x, y; };
	struct Tick { double x, y, dt; uint64_t t; };
	std::deque<Tick> _ticks;
	uint64_t _tick_n{0};
	int _drag_phase{-1};
	Queue<DragObs> drag;
	float _drag_seen[2] {};
	bool dragSample(size_t end, DragObs &o, uint64_t &t) const // the five ticks up to and including end
	{
		if (end < 4 || end >= _ticks.size()) { return false; }
		double sx = 0, sy = 0, sd = 0;
		uint64_t st = 0;
		for (size_t i = end - 4; i <= end; i++) { sx += _ticks[i].x; sy += _ticks[i].y; sd += _ticks[i].dt; st += _ticks[i].t; }
		o = {sx / sd, sy / sd};
		t = st / 5;
		return true;
	}
	void dragTick()
	{
		if (!(_p.fusion_mode & MASK_USE_DRAG)) { return; }
		_ticks.push_back({_raw.delta_vel(0), _raw.delta_vel(1), _raw.delta_vel_dt, _raw.time_us});
		_tick_n++;
		if (_ticks.size() > 80) { _ticks.pop_front(); }
		DragObs o;
		uint64_t t;
		if (_drag_phase >= 0 && (int)(_tick_n % 5) == _drag_phase && dragSample(_ticks.size() - 1, o, t)) { drag.push(t, o); }
	}
	bool dragDue(DragObs &o)
	{
		float oi[2];
		_e->getDragInnov(oi);
		const bool changed = oi[0] != _drag_seen[0] || oi[1] != _drag_seen[1];
		_drag_seen[0] = oi[0]; _drag_seen[1] = oi[1];
		uint64_t t;
		if (_drag_phase >= 0) { return drag.pop(imu.time_us, o, t); }
		if (!changed) { return false; }
		double D[3][4], best = 1e9;
		const V3 w = relWind(D);
		size_t at = 0;
		for (size_t e = 4; e < _ticks.size(); e++) {
			DragObs c;
			uint64_t ct;
			dragSample(e, c, ct);
			if (ct > imu.time_us || ct + 100000 <= imu.time_us) { continue; }
			double err = 0;
			for (int a = 0; a < 2; a++) {
				const double bci = 1 / (double)(a ? _p.bcoef_y : _p.bcoef_x), acc = (a ? c.y : c.x) - x[13 + a] / _dt_avg;
				err += std::fabs(-0.5 * bci * air_density * w[a] * std::fabs(w[a]) - acc - oi[a]);
			}
			if (err < best) { best = err; at = e; o = c; }
		}
		if (best > 1e-2) { mismatch("drag measurement", best, 1e-2, G_AIR, "no mean of five consecutive intervals explains the reported innovations (%.3g off)", best); return false; }
		_drag_phase = (int)((_tick_n - (_ticks.size() - 1 - at)) % 5);
		for (size_t e = at + 5; e < _ticks.size(); e += 5) { DragObs c; uint64_t ct; if (dragSample(e, c, ct)) { drag.push(ct, c); } }
		counts["drag measurement found"]++;
		return true;
	}
	imuSample _raw;

	// relative wind in body axes and its derivative
	V3 relWind(double D[3][4]) const
	{
		const V3 w(x[4] - x[22], x[5] - x[23], x[6]);
		Q c(x[0], -x[1], -x[2], -x[3]);
		dRdq(c, w, D);
		for (int a = 0; a < 3; a++) { for (int j = 1; j < 4; j++) { D[a][j] = -D[a][j]; } }
		return q().R().T() * w;
	}
	void windMask(bool m[N]) { const bool *g = gainMask(); for (int i = 0; i < N; i++) { m[i] = g[i] && (_wind_dr || i >= 22); } }
	void airspeedFusion()
	{
		const double R = sq(clamp(_p.eas_noise, 0.5, 5) * clamp(_tas.eas2tas, 0.9, 10));
		const V3 w(x[4] - x[22], x[5] - x[23], x[6]);
		const double va = w.norm();
		if (std::fabs(va - 1) < 1e-4) { _abort = true; }
		if (va < 1) { counts["airspeed too low"]++; return; }
		Vec H = {};
		H[4] = w.x / va; H[5] = w.y / va; H[6] = w.z / va; H[22] = -H[4]; H[23] = -H[5];
		const double S = innovVar(H, R), in = va - _tas.true_airspeed, ratio = sq(in) / (sq(std::max(_p.tas_innov_gate, 1.f)) * S);
		float oi, ov, orr;
		_e->getAirspeedInnov(oi); _e->getAirspeedInnovVar(ov); _e->getAirspeedInnovRatio(orr);
		same("airspeed innovation", G_AIR, oi, in, 1e-3 * std::sqrt(S) + 4e-7 * va);
		same("airspeed innovation variance", G_AIR, ov, S, 5e-3 * S);
		cmpRatio("airspeed", G_AIR, orr, ratio);
		if (std::fabs(ratio - 1) < 1e-2) { _abort = true; }
		cmpFlag("airspeed", G_AIR, _rej.flags.reject_airspeed, ratio > 1);
		if (ratio > 1) { gated("rejected airspeed"); return; }
		if (_wind_dr_unknown) { _abort = true; }
		counts[_wind_dr ? "fused airspeed (all states)" : "fused airspeed (wind only)"]++;
		bool m[N];
		windMask(m);
		if (correct(H, S, in, m)) { _t_arsp = newest_us; }
	}
	float _beta_last[2] {};
	bool _static_unsure{true}, _beta_unsure{true}, _beta_ran{false};
	bool betaDue() const
	{
		if (_beta_unsure) { return _beta_ran; }

		return _t_beta < 0 ? (double)newest_us > _p.beta_avg_ft_us : _t_beta + _p.beta_avg_ft_us < (double)newest_us;
	}
	void betaFusion()
	{
		double D[3][4];
		const V3 w = relWind(D);
		if (std::fabs(w.norm() - 7) < 1e-3) { _abort = true; }
		if (w.norm() <= 7) { counts["sideslip without airspeed"]++; return; }
		groups |= G_AIR;
		due.push_back("sideslip");
		if (std::fabs(w.x) < 0.3) { _abort = true; return; }
		Vec H = {};
		const M3 R_ = q().R();
		const double b = w.y / w.x;
		for (int j = 0; j < 4; j++) { H[j] = (D[1][j] - b * D[0][j]) / w.x; }
		for (int j = 0; j < 3; j++) { H[4 + j] = (R_(j, 1) - b * R_(j, 0)) / w.x; }
		H[22] = -H[4]; H[23] = -H[5];
		const double S = innovVar(H, sq((double)_p.beta_noise)), ratio = sq(b) / (sq(std::max(_p.beta_innov_gate, 1.f)) * S);
		float oi, ov, orr;
		_e->getBetaInnov(oi); _e->getBetaInnovVar(ov); _e->getBetaInnovRatio(orr);
		same("sideslip innovation", G_AIR, oi, b, 1e-3 * std::sqrt(S) + 1e-6 * (1 + std::fabs(b)));
		same("sideslip innovation variance", G_AIR, ov, S, 5e-3 * S);
		cmpRatio("sideslip", G_AIR, orr, ratio);
		if (std::fabs(ratio - 1) < 1e-2) { _abort = true; }
		cmpFlag("sideslip", G_AIR, _rej.flags.reject_sideslip, ratio > 1);
		if (ratio > 1) { gated("rejected sideslip"); return; }
		if (_wind_dr_unknown) { _abort = true; }
		counts[_wind_dr ? "fused sideslip (all states)" : "fused sideslip (wind only)"]++;
		bool m[N];
		windMask(m);
		if (correct(H, S, b, m)) { _t_beta = newest_us; _beta_unsure = false; }
	}
	void dragFusion(const DragObs &o)
	{
		if (_p.bcoef_x < 1 || _p.bcoef_y < 1) { return; }
		const double R = std::max((double)_p.drag_noise, 0.5), rho = std::max(air_density, 0.1);
		double D[3][4];
		const V3 w0 = relWind(D);
		float oi[2], ov[2], orr[2];
		_e->getDragInnov(oi); _e->getDragInnovVar(ov); _e->getDragInnovRatio(orr);
		for (int a = 0; a < 2; a++) {
			relWind(D);
			const double bci = 1 / (double)(a ? _p.bcoef_y : _p.bcoef_x);
			const double acc = (a ? o.y : o.x) - x[13 + a] / _dt_avg;
			const double spd = std::sqrt(2 * std::fabs(acc) / (bci * rho));
			const double k = std::max(0.1, rho * bci * spd);
			const M3 R_ = q().R();
			Vec H = {};
			for (int j = 0; j < 4; j++) { H[j] = -k * D[a][j]; }
			for (int j = 0; j < 3; j++) { H[4 + j] = -k * R_(j, a); }
			H[22] = -H[4]; H[23] = -H[5];
			const double S = innovVar(H, R), pred = -0.5 * bci * rho * sq(w0[a]) * (w0[a] >= 0 ? 1 : -1), in = pred - acc, ratio = sq(in) / (25 * S);
			// the average of the raw samples is known to the rounding of the accumulators only
			same("drag innovation", G_AIR, oi[a], in, 1e-3 * std::sqrt(S));
			same("drag innovation variance", G_AIR, ov[a], S, 5e-3 * S);
			cmpRatio("drag", G_AIR, orr[a], ratio);
			if (std::fabs(ratio - 1) < 1e-2) { _abort = true; }
			if (ratio > 1) { gated("rejected drag"); continue; }
			counts["fused drag"]++;
			bool m[N];
			for (int i = 0; i < N; i++) { m[i] = i >= 22; }
			correct(H, S, in, m);
		}
	}
	double flowVar() const
	{
		const double best = std::max((double)_p.flow_noise, 0.05), worst = std::max((double)_p.flow_noise_qual_min, 0.05);
		double wgt = 255.0 - _p.flow_qual_min;
		wgt = wgt >= 1 ? clamp(((double)_flow.quality - _p.flow_qual_min) / wgt, 0, 1) : 0;
		return sq(best * wgt + worst * (1 - wgt));
	}
	void flowFusion(bool d_flow)
	{
		_of_ang += d3(imu.delta_ang) - xv(10);
		_of_dt += imu.delta_ang_dt;
		if (!d_flow) { return; }
		const bool good = _flow.quality >= _p.flow_qual_min && _R(2, 2) > _p.range_cos_max_tilt
				  && std::hypot(_flow.flow_xy_rad(0), _flow.flow_xy_rad(1)) <= _flow.dt * flow_max_rate
				  && _flow.dt >= std::max(0.8 * _of_dt, 0.001) && _flow.dt <= std::min(1.2 * _of_dt, 0.2);
		if (std::fabs(_R(2, 2) - _p.range_cos_max_tilt) < 1e-5) { _abort = true; }
		const double dmin = std::max(0.8 * _of_dt, 0.001);
		bool dt_good = _flow.dt >= dmin && _flow.dt <= std::min(1.2 * _of_dt, 0.2);
		V3 gyro = d3(_flow.gyro_xyz);
		bool comp = true;
		if (_of_dt > 1) { comp = false; }
		else if (std::isfinite(gyro.x) && std::isfinite(gyro.y) && std::isfinite(gyro.z)) {
			if (_of_dt > 1e-6 && _flow.dt > 1e-6 && std::fabs(_of_dt - _flow.dt) < 0.1) {
				V3 ref_ = _of_ang * (-1 / _of_dt), mea = gyro * (1.0 / _flow.dt);
				for (int i = 0; i < 3; i++) { _of_bias[i] = 0.99 * _of_bias[i] + 0.01 * clamp(mea[i] - ref_[i], -0.1, 0.1); }
				counts["flow gyro bias updated"]++;
			}
		} else {
			gyro = _of_ang * -1.0;
			_of_bias[0] = _of_bias[1] = _of_bias[2] = 0;
			counts["flow without gyro"]++;
		}
		_of_ang = V3();
		_of_dt = 0;
		if (!fl.flags.opt_flow) { return; }
		double dt = _flow.dt, cx, cy;
		if (good && comp) { cx = _flow.flow_xy_rad(0) - gyro.x; cy = _flow.flow_xy_rad(1) - gyro.y; }
		else if (!fl.flags.in_air && comp) { if (!dt_good) { dt = dmin; } cx = cy = 0; counts["flow assumed zero on ground"]++; }
		else { counts["flow sample not used"]++; return; }
		if (!_hagl_ok0) { _abort = true; return; }
		groups |= G_AIR;
		const double R = flowVar();
		const M3 Rq = q().R();
		const V3 off = d3(_p.flow_pos_body) - d3(_p.imu_pos_body), vel = xv(4);
		// the velocity of the sensor relative to the IMU is turned with the attitude from the start of the step
		const V3 vb = Rq.T() * (vel + _R * (gyro * (-1 / dt)).cross(off));
		double h = _terrain0 - x[9] - (_R * off).z;
		h = std::max(h, std::max((double)_p.rng_gnd_clearance, 0.1));
		const double range = h / Rq(2, 2);
		const double rate[2] = {cx / dt + _of_bias[0], cy / dt + _of_bias[1]};
		const double in[2] = {vb.y / range - rate[0], -vb.x / range - rate[1]};
		double D[3][4], S[2], ratio[2];
		Q c(x[0], -x[1], -x[2], -x[3]);
		dRdq(c, vel, D);
		Vec H[2] = {};
		for (int a = 0; a < 2; a++) {
			const int b = a ? 0 : 1;
			const double s = (a ? -1 : 1) / range;
			for (int j = 0; j < 4; j++) { H[a][j] = s * D[b][j] * (j ? -1 : 1); }
			for (int j = 0; j < 3; j++) { H[a][4 + j] = s * Rq(j, b); }
			S[a] = innovVar(H[a], R);
			ratio[a] = sq(in[a]) / (sq(std::max(_p.flow_innov_gate, 1.f)) * S[a]);
			if (std::fabs(ratio[a] - 1) < 1e-2) { _abort = true; }
		}
		float oi[2], ov[2], orr;
		_e->getFlowInnov(oi); _e->getFlowInnovVar(ov); _e->getFlowInnovRatio(orr);
		for (int a = 0; a < 2; a++) {
			same("flow innovation", G_AIR, oi[a], in[a], 1e-3 * std::sqrt(S[a]) + 2e-6 * (std::fabs(vb.x) + std::fabs(vb.y)) / range);
			same("flow innovation variance", G_AIR, ov[a], S[a], 5e-3 * S[a]);
			cmpFlag(a ? "flow y" : "flow x", G_AIR, a ? _rej.flags.reject_optflow_Y : _rej.flags.reject_optflow_X, ratio[a] > 1);
		}
		cmpRatio("flow", G_AIR, orr, std::max(ratio[0], ratio[1]));
		same("flow body velocity", G_AIR, _e->getFlowVelBody()(0), -rate[1] * range, 1e-4 + 1e-4 * std::fabs(rate[1] * range));
		same("flow body velocity", G_AIR, _e->getFlowVelBody()(1), rate[0] * range, 1e-4 + 1e-4 * std::fabs(rate[0] * range));
		if (ratio[0] > 1 || ratio[1] > 1) { gated("rejected flow"); return; }
		counts["fused flow"]++;
		for (int a = 0; a < 2; a++) {
			if (a) { S[1] = innovVar(H[1], R); }
			if (correct(H[a], S[a], in[a], gainMask())) { _t_of = newest_us; }
		}
	}
	static bool recent(double t, double now, double dur) { return t >= 0 && t + dur > now; }
	void deadReckoning()
	{
		const double now = newest_us, T = _p.no_aid_timeout_max;
		const bool vp = (fl.flags.gps || fl.flags.ev_pos || fl.flags.ev_vel) && (recent(_t_hpos, now, T) || recent(_t_hvel, now, T) || recent(_t_dpos, now, T));
		const bool of = fl.flags.opt_flow && recent(_t_of, now, T);
		const bool ad = fl.flags.wind && recent(_t_arsp, now, T) && recent(_t_beta, now, T);
		// times of fusions in steps that could not be followed are not known
		if (!why.empty() && why != "first") { _t_unknown = now; }
		auto close = [&](double t) { return t >= 0 && std::fabs(t + T - now) < 3e4; };
		_wind_dr_unknown = (recent(_t_unknown, now, T + 3e4) && (fl.flags.gps || fl.flags.ev_pos || fl.flags.ev_vel || fl.flags.opt_flow || fl.flags.wind))
				   || close(_t_hpos) || close(_t_hvel) || close(_t_dpos) || close(_t_of) || close(_t_arsp) || close(_t_beta);
		_wind_dr = !vp && !of && ad;
	}
	double _t_unknown{-1};

	void steps(bool d_gps, bool d_mag, bool d_baro, bool d_rng, bool d_flow, bool d_ev, bool d_tas, bool d_aux, const auxVelSample &av)
	{
		_expect_hvel = _expect_vvel = _expect_hpos = _expect_vpos = -1;
		magControl(d_mag);
		flowFusion(d_flow);
		if (d_gps && fl.flags.gps_yaw) { groups |= G_MAG; gpsYaw(); }
		if (d_gps && fl.flags.gps) { gpsFusion(); }
		if (d_tas && !_synth && fl.flags.in_air && fl.flags.wind) { airspeedFusion(); }
		if (!_synth && fl.flags.in_air && fl.flags.fuse_beta && fl.flags.wind && betaDue()) { betaFusion(); }
		if ((_p.fusion_mode & MASK_USE_DRAG) && !_synth && fl.flags.in_air && fl.flags.wind && fl0.flags.wind && magTracked()) {
			DragObs o;
			if (dragDue(o)) { groups |= G_AIR; due.push_back("drag"); dragFusion(o); }
		}
		heightFusion(d_gps, d_baro, d_rng, d_ev);
		if (d_ev) { evFusion(); }
		else if (!fl.flags.ev_pos) { _ev_prev = false; }
		if (d_aux && nAid()) { auxFusion(av); }
		fakePos();
		_synth = !nAidNoAir() && !(fl.flags.fuse_aspd && fl.flags.fuse_beta);
		if (_expect_hpos == 0) { (fl.flags.ev_pos && (_p.fusion_mode & MASK_USE_GPS) ? _t_dpos : _t_hpos) = newest_us; }
		if (_expect_hvel == 0) { _t_hvel = newest_us; }
		deadReckoning();
		if (_expect_hvel >= 0) { cmpFlag("horizontal velocity", G_VELPOS, _rej.flags.reject_hor_vel, _expect_hvel); }
		if (_expect_vvel >= 0) { cmpFlag("vertical velocity", G_VELPOS, _rej.flags.reject_ver_vel, _expect_vvel); }
		if (_expect_hpos >= 0) { cmpFlag("horizontal position", G_VELPOS, _rej.flags.reject_hor_pos, _expect_hpos); }
		if (_expect_vpos >= 0) { cmpFlag("vertical position", G_VELPOS, _rej.flags.reject_ver_pos, _expect_vpos); }
	}

	// ================= comparison =================
	// by how much the measurements of this step moved the vector that state i belongs to
	double moved(int i) const
	{
		const int lo = i < 4 ? 0 : i < 22 ? 4 + (i - 4) / 3 * 3 : 22, hi = i < 4 ? 4 : i < 22 ? lo + 3 : 24;
		double v = 0;
		for (int k = lo; k < hi; k++) { v = std::max(v, std::fabs(x[k] - _xpred[k])); }
		return v;
	}
	double stateTol(int i) const
	{
		const double sd = std::sqrt(std::max(P[i][i], 0.0));
		const double rnd = (i < 4 ? 1e-6 : i < 10 ? 3e-7 * std::fabs(x[i]) + 2e-7 : i < 16 ? 1e-9 + 2e-7 * std::fabs(x[i]) : 3e-7 * std::fabs(x[i]) + 1e-8);
		return rnd + 4e-4 * sd * (groups ? 1 : 0) + 3e-4 * moved(i) + (i >= 4 && i < 10 ? _ev_att : 0);
	}
	// largest standard deviation of the vector that state i belongs to
	double blockSd(int i) const
	{
		const int lo = i < 4 ? 0 : i < 22 ? 4 + (i - 4) / 3 * 3 : 22, hi = i < 4 ? 4 : i < 22 ? lo + 3 : 24;
		double v = 0;
		for (int k = lo; k < hi; k++) { v = std::max(v, P[k][k]); }
		return std::sqrt(v);
	}
	double covTol(int i, int j) const
	{
		const double s = std::sqrt(std::max(P[i][i], 0.0) * std::max(P[j][j], 0.0));
		return 2e-4 * s + 1e-6 * blockSd(i) * blockSd(j) + 1e-14;
	}
	// worst difference in units of the tolerance
	double misfit() const
	{
		double m = bad.empty() ? 0 : 2;
		for (int i = 0; i < N; i++) {
			m = std::max(m, std::fabs(_x1[i] - x[i]) / stateTol(i));
			for (int j = 0; j <= i; j++) { m = std::max(m, std::fabs(_P1[i][j] - P[i][j]) / covTol(i, j)); }
		}
		return m;
	}
	static const char *xname(int i) { static const char *n[] = {"attitude", "velocity", "position", "gyro bias", "accel bias", "earth field", "body field", "wind"}; return n[i < 4 ? 0 : i < 7 ? 1 : i < 10 ? 2 : i < 13 ? 3 : i < 16 ? 4 : i < 19 ? 5 : i < 22 ? 6 : 7]; }
	void compare()
	{
		for (int i = 0; i < N; i++) { same(nm(std::string("state: ") + xname(i)), 0, _x1[i], x[i], stateTol(i), i); }
		for (int i = 0; i < N; i++) {
			for (int j = 0; j <= i; j++) {
				same(nm(std::string("covariance: ") + xname(i) + "/" + xname(j)), 0, _P1[i][j], P[i][j], covTol(i, j), i, j);
			}
		}
	}
};
} // namespace shadow
