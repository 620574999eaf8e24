// E04-E09: every filter step against a double-precision one-step reference
#include "shadow.hpp"
#include "ekf_config.hpp"
using namespace sim;
using shadow::Shadow;

struct StepStats { uint64_t steps{0}, compared{0}; };

// plays a flight under the shadow; report(mismatch, shadow) decides what this property objects to
template<typename REPORT>
static void watch(vh::Ctx &c, const Flight &f, REPORT report, bool growth = false)
{
	auto ekf = std::make_unique<Ekf>();
	configure(*ekf, f.cfg);
	Shadow s(*ekf, f.cfg.params);
	s.flow_max_rate = f.cfg.flow_max_rate;

	for (const Call &call : f.calls) {
		apply(*ekf, f, call);
		s.onCall(f, call);

		if (call.type != IMU) { continue; }

		s.before();

		if (!ekf->update()) { continue; }

		s.after();
		c.eval();

		if (c.verbose && !s.why.empty()) {
			fprintf(vh::out(), "%.3f skip %s flags %08x\n", (f.imu[call.idx].time_us - f.cfg.start_us) * 1e-6, s.why.c_str(), s.fl.value);
		}

		for (auto &m : s.bad) { report(m, s, (f.imu[call.idx].time_us - f.cfg.start_us) * 1e-6); }

		if (c.case_violations > 12) { break; }
	}

	for (int i = 10; growth && i < 16; i++) {
		// the sum of the steps is rounded to units of the variance's last place
		const double unit = s.largest[i] * 1.2e-7;

		if (s.expected[i] < 100 * unit) { continue; }

		c.count(i < 13 ? "gyro bias noise compared" : "accel bias noise compared");
		const double tol = 0.1 * s.expected[i] + 4 * std::sqrt(s.expected[i] * unit);
		c.peak("bias noise", std::fabs(s.grown[i] - s.expected[i]) / tol);

		if (std::fabs(s.grown[i] - s.expected[i]) > tol) {
			c.fail("bias noise", "variance of bias state %d grew by %g in the steps without measurement, configured noise %g (tolerance %g)", i, s.grown[i], s.expected[i], tol);
		}
	}

	for (auto &p : s.peaks) { c.peak(p.first.c_str(), p.second); }

	for (auto &p : s.counts) { c.count(p.first.c_str(), p.second); }
}

// sometimes the barometer has to be corrected for dynamic pressure
static void staticPressure(Config &k, vh::Rng &r)
{
	if (!r.chance(0.3)) { return; }

	auto &p = k.params;

	for (float *d : {&p.static_pressure_coef_xp, &p.static_pressure_coef_xn, &p.static_pressure_coef_yp, &p.static_pressure_coef_yn, &p.static_pressure_coef_z}) { *d = r.uni(-0.2, 0.2); }

	p.max_correction_airspeed = r.logu(2, 30);
}

static Config outlierConfig(vh::Rng &r)
{
	Config k = anyConfig(r);
	outliers(k, r);
	const CallType all[] = {GPS, BARO, MAG, RNG, FLOW, EV, AUX, ASPD};

	for (CallType t : all) {
		// rare outliers of any size
		if (r.chance(0.3)) { const double t0 = k.t_takeoff + r.uni(-2, 20); k.faults.push_back({t, SPIKE, t0, t0 + 1, r.logu(1, t == MAG ? 10 : 1e5)}); }
	}

	return k;
}

static void pickOutliers(Config &k, vh::Rng &r) { if (r.chance(0.5)) { outliers(k, r); } }

#define STEP_CHECK(ID, CONFIG, CONDITION, GROWTH) \
	VH_CHECK(ID) \
	{ \
		Config k = CONFIG(c.rng); \
		pickOutliers(k, c.rng); \
		if (c.rng.chance(0.6)) { spread(k, c.rng); } \
		staticPressure(k, c.rng); \
		Generator g(k, c.rng.u64()); \
		Flight f = g.run(); \
		if (c.rng.chance(0.4)) { spoilFlow(f, c.rng, 3); } \
		watch(c, f, [&](const shadow::Mismatch &m, Shadow &s, double t) { \
			if ((CONDITION) || getenv("ALLBAD")) { \
				std::string d; \
				for (auto &x : s.due) { d += x + " "; } \
				c.fail(m.what, "t %.3f s, due: %s, status %08x, mode %d %d %d: %s", t, d.empty() ? "nothing" : d.c_str(), (unsigned)s.fl.value, (int)k.params.fusion_mode, (int)k.params.vdist_sensor_type, (int)k.params.mag_fusion_type, m.detail); \
			} \
		}, GROWTH); \
		c.seen(c.case_no); \
	}

STEP_CHECK(E04, anyConfig, s.groups == 0 && !strncmp(m.what, "state", 5), false)
STEP_CHECK(E05, anyConfig, s.groups == 0 && !strncmp(m.what, "cov", 3), true)
// also a measurement that should not have been used
#define UNUSED (s.groups == 0 && !s.due.empty())
STEP_CHECK(E06, velposConfig, s.groups == shadow::G_VELPOS || UNUSED, false)
STEP_CHECK(E07, magConfig, ((s.groups & shadow::G_MAG) && !(s.groups & shadow::G_AIR)) || UNUSED, false)
STEP_CHECK(E08, airConfig, (s.groups & shadow::G_AIR) || UNUSED, false)
STEP_CHECK(E09, outlierConfig, s.gated_n > 0 || strstr(m.what, "ratio") || strstr(m.what, "rejection"), false)
