// E11: published outputs against the delayed estimate; E12: announced resets
#include "ekf_config.hpp"
using namespace sim;

static Q qd(const Quatf &q) { return Q(q(0), q(1), q(2), q(3)); }
static double angle(const Q &a, const Q &b) { return (a.conj() * b).unit().rotVec().norm(); }

struct Counters {
	uint8_t velNE{0}, velD{0}, posNE{0}, posD{0}, quat{0};
	float d2[2];
	static Counters of(const Ekf &e)
	{
		Counters c;
		float a[2], b, q[4];
		e.get_velNE_reset(a, &c.velNE);
		e.get_velD_reset(&b, &c.velD);
		e.get_posNE_reset(a, &c.posNE);
		e.get_posD_reset(&b, &c.posD);
		e.get_quat_reset(q, &c.quat);
		return c;
	}
	bool operator==(const Counters &o) const { return velNE == o.velNE && velD == o.velD && posNE == o.posNE && posD == o.posD && quat == o.quat; }
};

VH_CHECK(E12)
{
	auto &r = c.rng;
	Config k = wildConfig(r, 60, 6);
	k.params.imu_pos_body = Vector3f(0, 0, 0); // outputs at the inertial sensor
	k.params.vel_Tau = r.uni(0.1, 1);
	k.params.pos_Tau = r.uni(0.1, 1);
	k.params.reset_timeout_max = r.chance(0.5) ? 7000000 : 2000000;
	Flight f = Generator(k, r.u64()).run();
	auto ekf = std::make_unique<Ekf>();
	configure(*ekf, f.cfg);
	bool have = false;
	V3 p0, v0, sp0, sv0;
	Q q0, sq0;
	Counters n0;
	matrix::Vector<float, 24> dia0;
	const double commands = r.chance(0.3) ? 0.0005 : 0;
	double err0[3] = {}, roll[5] = {}, vd0 = 0, z_err = 0;

	for (const Call &call : f.calls) {
		apply(*ekf, f, call);

		if (call.type != IMU) { continue; }

		const double t = (f.imu[call.idx].time_us - f.cfg.start_us) * 1e-6;

		if (have && commands > 0 && r.chance(commands)) {
			// outside update(): outputs change by exactly what is announced
			const V3 pa = d3(ekf->getPosition()), va = d3(ekf->getVelocity());
			const Counters na = Counters::of(*ekf);
			ekf->setEkfGlobalOrigin(f.cfg.lat0 + r.uni(-0.01, 0.01), f.cfg.lon0 + r.uni(-0.01, 0.01), (float)(f.cfg.alt0 + r.uni(-10, 10)));
			const Counters nb = Counters::of(*ekf);
			const V3 pb = d3(ekf->getPosition()), vb = d3(ekf->getVelocity());
			float ch[2] = {}, cz = 0;
			uint8_t n;

			if (nb.posNE != na.posNE) { ekf->get_posNE_reset(ch, &n); c.count("reset by command"); }

			if (nb.posD != na.posD) { ekf->get_posD_reset(&cz, &n); }

			const double e = (pb - pa - V3(ch[0], ch[1], cz)).norm();
			c.expect(e < 1e-3 + 1e-5 * pb.norm(), "jump by command", "t %.2f origin command moved the position by %g %g %g, announced %g %g %g", t, pb.x - pa.x, pb.y - pa.y, pb.z - pa.z, ch[0], ch[1], cz);
			c.expect((vb - va).norm() < 1e-6, "velocity jump by command", "t %.2f", t);
			p0 = pb;
			n0 = nb;
			auto s = ekf->getStateAtFusionHorizonAsVector();
			sp0 = V3(s(7), s(8), s(9));
		}

		const bool u = ekf->update();

		if (!have && !u) { continue; }

		const V3 p1 = d3(ekf->getPosition()), v1 = d3(ekf->getVelocity());
		const Q q1 = qd(ekf->getQuaternion());
		const Counters n1 = Counters::of(*ekf);
		auto s = ekf->getStateAtFusionHorizonAsVector();
		const V3 sp1(s(7), s(8), s(9)), sv1(s(4), s(5), s(6));
		const Q sq1(s(0), s(1), s(2), s(3));
		const auto err = ekf->getOutputTrackingError();
		const double vd1 = ekf->getVerticalPositionDerivative();

		if (!std::isfinite(p1.norm() + v1.norm() + q1.w)) { break; }

		if (have) {
			c.eval();
			const imuSample &m = f.imu[call.idx];
			const double dt = m.delta_vel_dt;
			const double de = 0.02;
			// announced changes
			float chv[2] = {}, chp[2] = {}, cvz = 0, cpz = 0, cq[4] = {1, 0, 0, 0};
			uint8_t n;
			const int kv = (uint8_t)(n1.velNE - n0.velNE), kvz = (uint8_t)(n1.velD - n0.velD), kp = (uint8_t)(n1.posNE - n0.posNE), kpz = (uint8_t)(n1.posD - n0.posD), kq = (uint8_t)(n1.quat - n0.quat);

			if (kv) { ekf->get_velNE_reset(chv, &n); c.count("reset velNE"); }

			if (kvz) { ekf->get_velD_reset(&cvz, &n); c.count("reset velD"); }

			if (kp) { ekf->get_posNE_reset(chp, &n); c.count("reset posNE"); }

			if (kpz) { ekf->get_posD_reset(&cpz, &n); c.count("reset posD"); }

			if (kq) { ekf->get_quat_reset(cq, &n); c.count("reset quat"); }

			if (kv > 1 || kvz > 1 || kp > 1 || kpz > 1 || kq > 1) { c.count("several resets in one update"); }

			// ---- published outputs
			const Q dq = Q(cq[0], cq[1], cq[2], cq[3]);
			const Q qm = (kq ? dq * q0 : q0).unit();
			// reset and integration order inside the update: the attitude used for the increment may be the one before or after
			const Q qp = (qm * Q::fromRotVec((d3(m.delta_ang) - d3(ekf->getGyroBias()) * dt))).unit();
			const V3 dv = qp.rot(d3(m.delta_vel) - d3(ekf->getAccelBias()) * dt) + V3(0, 0, G * dt);
			const double moved = d3(m.delta_vel).norm();
			const double ea = angle(qp, q1), tola = 2e-3 + 0.02 * d3(m.delta_ang).norm() + 0.8 * std::max((double)err(0), err0[0]);
			if (kq <= 1) { c.peak("output attitude", ea / tola); }

			if (kq <= 1 && ea > tola) { c.fail("attitude jump", "t %.3f output turned by %g rad beyond inertial propagation and announced change (resets %d, tracking error %g)", t, ea, kq, err(0)); }

			const V3 ev = v1 - v0 - dv - V3(chv[0], chv[1], cvz);
			const V3 ep = p1 - p0 - (v0 + v1 - V3(chv[0], chv[1], cvz)) * (0.5 * dt) - V3(chp[0], chp[1], cpz);
			const double gv = 2 * de / k.params.vel_Tau, gp = 2 * de / k.params.pos_Tau;
			const double basev = 0.04 + 0.05 * moved + moved * tola + gv * err(1) * 1.5, basep = 0.04 + 1e-6 * p1.norm() + gp * err(2) * 1.5 + basev * dt + (std::fabs(chv[0]) + std::fabs(chv[1]) + std::fabs(cvz)) * dt;

			if (kv <= 1) {
				const double x = std::hypot(ev.x, ev.y);
				const double tolv = basev + 1.5 * roll[0];
				c.peak("output velocity", x / tolv);
				roll[0] = std::max(0.99 * roll[0], x);

				if (x > tolv) { c.fail("horizontal velocity jump", "t %.3f output moved by %g m/s beyond inertial propagation and announced change (resets %d, tracking error %g)", t, x, kv, err(1)); }
			}

			if (kvz <= 1) {
				const double tolv = basev + 1.5 * roll[1];
				roll[1] = std::max(0.99 * roll[1], std::fabs(ev.z));
				c.peak("output velocity", std::fabs(ev.z) / tolv);

				if (std::fabs(ev.z) > tolv) { c.fail("vertical velocity jump", "t %.3f output moved by %g m/s beyond inertial propagation and announced change (resets %d, tracking error %g)", t, ev.z, kvz, err(1)); }
			}

			if (kvz <= 1) {
				// the derivative of the height is driven by height errors as well
				z_err = std::max(0.995 * z_err, std::fabs(ep.z) / std::max(gp, 1e-3));
				const double ed = vd1 - vd0 - dv.z - cvz, told = basev + 1.5 * roll[4] + 1.5 * gv * std::fabs(v1.z - vd1) + 2 * gp * (err(2) + z_err + (kpz ? 0.01 : 0));
				roll[4] = std::max(0.99 * roll[4], std::fabs(ed));
				c.peak("vertical derivative", std::fabs(ed) / told);

				if (kvz) { c.peak("vertical derivative at reset", std::fabs(ed) / told); }

				if (std::fabs(ed) > told) { c.fail("vertical derivative jump", "t %.3f vertical derivative moved by %g m/s beyond inertial propagation and announced change (resets %d %d, tracking error %g)", t, ed, kvz, kpz, err(1)); }
			}

			if (kp <= 1) {
				const double x = std::hypot(ep.x, ep.y);
				const double tolp = basep + 1.5 * roll[2];
				roll[2] = std::max(0.99 * roll[2], x);
				c.peak("output position", x / tolp);

				if (x > tolp) { c.fail("horizontal position jump", "t %.3f output moved by %g m beyond propagation and announced change (resets %d, tracking error %g)", t, x, kp, err(2)); }
			}

			if (kpz <= 1) {
				const double tolp = basep + 1.5 * roll[3];
				roll[3] = std::max(0.99 * roll[3], std::fabs(ep.z));
				c.peak("output position", std::fabs(ep.z) / tolp);

				if (std::fabs(ep.z) > tolp) { c.fail("vertical position jump", "t %.3f output moved by %g m beyond propagation and announced change (resets %d, tracking error %g)", t, ep.z, kpz, err(2)); }
			}

			// ---- delayed estimate: a correction does not move a state by more than its uncertainty allows
			if (u) {
				const imuSample &d = ekf->get_imu_sample_delayed();
				auto sig = [&](int i) { return std::sqrt(std::max((double)dia0(i), 0.0)); };
				const V3 sdv = sq0.rot(d3(d.delta_vel)) + V3(0, 0, G * d.delta_vel_dt);
				const V3 jv = sv1 - sv0 - sdv, jp = sp1 - sp0 - (sv0 + sv1) * (0.5 * d.delta_vel_dt);
				const double big = 0.1 + 0.2 * d3(d.delta_vel).norm();
				auto chk = [&](const char *key, double j, double s, bool announced) {
					if (announced) { return; }

					c.peak(key, std::fabs(j) / (15 * s + big));

					if (std::fabs(j) > 15 * s + big) { c.fail(key, "t %.3f delayed state moved by %g in one update without announcement, uncertainty %g", t, j, s); }
				};
				chk("unannounced velocity north", jv.x, sig(4), kv);
				chk("unannounced velocity east", jv.y, sig(5), kv);
				chk("unannounced velocity down", jv.z, sig(6), kvz);
				chk("unannounced position north", jp.x, sig(7), kp || kv);
				chk("unannounced position east", jp.y, sig(8), kp || kv);
				chk("unannounced position down", jp.z, sig(9), kpz || kvz);
				const double sa = 2 * std::sqrt(std::max(0.0, (double)dia0(0) + dia0(1) + dia0(2) + dia0(3)));
				const double ja = angle((sq0 * Q::fromRotVec(d3(d.delta_ang))).unit(), sq1);

				if (sa < 0.2) { chk("unannounced attitude", ja, sa, kq); }
			}

			if (kv || kvz || kp || kpz || kq) { c.seen(vh::mix(vh::hash_bytes(ekf->control_status().value), kv + 4 * kvz + 16 * kp + 64 * kpz + 256 * kq)); }
		}

		have = true;
		p0 = p1;
		v0 = v1;
		q0 = q1;
		n0 = n1;
		sp0 = sp1;
		sv0 = sv1;
		sq0 = sq1;
		vd0 = vd1;
		dia0 = ekf->covariances_diagonal();

		for (int i = 0; i < 3; i++) { err0[i] = err(i); }

		if (c.case_violations > 8) { break; }
	}

	c.count("flights");
}

// What the published outputs say about the output observer.  A correction of velocity or position is applied to the whole output
// history, so the history at the fusion horizon is what was published then plus every correction and announced reset since.
VH_CHECK(E11)
{
	auto &r = c.rng;
	Config k = r.chance(0.6) ? anyConfig(r) : wildConfig(r, 50, 3);
	auto &pr = k.params;
	pr.vel_Tau = r.uni(0.1, 0.6);
	pr.pos_Tau = r.uni(0.1, 0.6);
	k.imu_dt = r.chance(0.4) ? 0.01 : r.uni(0.0025, 0.01);

	if (r.chance(0.5)) { k.imu_jitter = 0; }

	for (float *d : {&pr.gps_delay_ms, &pr.ev_delay_ms}) { if (r.chance(0.3)) { *d = r.range(0, 300); } }

	k.gps.delay = pr.gps_delay_ms * 1e-3;
	k.ev.delay = pr.ev_delay_ms * 1e-3;
	Flight f = Generator(k, r.u64()).run();
	auto ekf = std::make_unique<Ekf>();
	configure(*ekf, f.cfg);
	const V3 arm = d3(pr.imu_pos_body);

	struct Past { uint64_t us; Q q; V3 v, p, cv, cp; }; // published at the sensor, and corrections accumulated until then
	struct Vert { uint64_t us; double v, z, dt; };
	std::vector<Past> past;
	std::vector<Vert> vert;
	size_t tail = 0, vtail = 0;
	Counters n0;
	bool have = false;
	double t_quiet = 0, t_init = 0, t_vert = 0;
	Q q0;
	V3 v0, p0, cv, cp, corr_ang, corr_v0, corr_p0, err_v0, err_p0, sum_v, sum_p, win_cv, win_cp, win_ev, win_ep;
	Vert vn{0, 0, 0, 0};
	double win_t = 0, gv0 = 0, gp0 = 0;
	int win_n = 0;
	double dtekf = 0;
	bool prev_ok = false;

	for (const Call &call : f.calls) {
		apply(*ekf, f, call);

		if (call.type != IMU) { continue; }

		const imuSample &m = f.imu[call.idx];
		const double t = (m.time_us - f.cfg.start_us) * 1e-6;
		const V3 gb_prev = d3(ekf->getGyroBias());
		const bool u = ekf->update();

		if (!have && !u) { continue; }

		const Counters n1 = Counters::of(*ekf);
		const Q q1 = qd(ekf->getQuaternion());
		const V3 w = d3(m.delta_ang) * (1.0 / m.delta_ang_dt);
		const V3 rarm = q1.rot(arm), varm = q1.rot(w.cross(arm));
		const V3 p1 = d3(ekf->getPosition()) + rarm, v1 = d3(ekf->getVelocity()) + varm;
		auto s = ekf->getStateAtFusionHorizonAsVector();
		const Q sq1(s(0), s(1), s(2), s(3));
		const V3 sv(s(4), s(5), s(6)), sp(s(7), s(8), s(9));
		const V3 gb = d3(ekf->getGyroBias()), ab = d3(ekf->getAccelBias());
		const double dt = m.delta_vel_dt, dta = ekf->get_dt_imu_avg();
		(void)gb_prev;

		if (!std::isfinite(p1.norm() + v1.norm() + q1.w + sp.norm())) { break; }

		// filter interval: the bias states are increments over it
		for (int i = 0; i < 3; i++) {
			const double b = i == 0 ? gb.x : i == 1 ? gb.y : gb.z;

			if (std::fabs(b) > 1e-5) { dtekf = s(10 + i) / b; }
		}

		if (!have) {
			have = true;
			t_init = t_quiet = t;
			n0 = n1;
			q0 = q1;
			v0 = v1;
			p0 = p1;
			vn.v = ekf->getVerticalPositionDerivative() + varm.z;
			vn.z = p1.z;
			continue;
		}

		// announced resets
		const int kv = (uint8_t)(n1.velNE - n0.velNE), kvz = (uint8_t)(n1.velD - n0.velD), kp = (uint8_t)(n1.posNE - n0.posNE), kpz = (uint8_t)(n1.posD - n0.posD), kq = (uint8_t)(n1.quat - n0.quat);
		float chv[2] = {}, chp[2] = {}, cvz = 0, cpz = 0, cq[4] = {1, 0, 0, 0};
		uint8_t n;

		if (kv) { ekf->get_velNE_reset(chv, &n); }

		if (kvz) { ekf->get_velD_reset(&cvz, &n); }

		if (kp) { ekf->get_posNE_reset(chp, &n); }

		if (kpz) { ekf->get_posD_reset(&cpz, &n); }

		if (kq) { ekf->get_quat_reset(cq, &n); }

		if (kv > 1 || kvz > 1 || kp > 1 || kpz > 1 || kq > 1) { t_quiet = t + 2; t_vert = t + 60; }

		if (kq) {
			// the history turns with the estimate
			const Q d = Q(cq[0], cq[1], cq[2], cq[3]).unit();
			q0 = d * q0;

			for (size_t i = tail; i < past.size(); i++) { past[i].q = (d * past[i].q).unit(); }

			c.count("attitude reset followed");
		}

		n0 = n1;
		const V3 rv(chv[0], chv[1], cvz), rp(chp[0], chp[1], cpz);

		if (kv || kvz || kp || kpz) { c.count("reset followed"); }

		for (size_t i = vtail; i < vert.size(); i++) { vert[i].v += cvz; vert[i].z += cpz; }

		vn.v += cvz;
		vn.z += cpz;

		// ---- inertial propagation to the present
		const V3 ang = d3(m.delta_ang) - gb * dta;
		const Q qp = q0 * Q::fromRotVec(ang + corr_ang);
		const V3 turned = (qp.unit().conj() * q1).unit().rotVec();
		const V3 dv = q1.rot(d3(m.delta_vel) - ab * dta) + V3(0, 0, G * dt);
		const V3 vp = v0 + rv + dv, pp = p0 + rp + (v0 + rv + vp) * (0.5 * dt);
		V3 corr_v = v1 - vp, corr_p = p1 - pp;
		const bool quiet = t > t_quiet && t > t_init + 6;
		const double fv = 3e-6 + 6e-7 * v1.norm() + 3e-5 * dv.norm(), fp = 3e-6 + 4e-7 * p1.norm() + 2 * fv * dt;

		if (quiet) {
			c.eval();
			// the bias is applied scaled by the ratio of the mean intervals
			const double ta = 3e-6 + 2e-3 * corr_ang.norm() + 2e-5 * ang.norm() + 0.02 * gb.norm() * dt;
			c.peak("attitude propagation", turned.norm() / ta);

			if (turned.norm() > ta) { c.fail("attitude output", "t %.3f published attitude turned by %g rad beyond inertial propagation and its correction (correction %g)", t, turned.norm(), corr_ang.norm()); }

			if (!u) {
				// between filter updates the outputs are propagated only
				const double tv = 3 * fv + 0.02 * ab.norm() * dt, tp = 4 * fp + tv * dt;
				c.count("propagation between updates");
				c.peak("velocity between updates", corr_v.norm() / tv);
				c.peak("position between updates", corr_p.norm() / tp);

				if (corr_v.norm() > tv || corr_p.norm() > tp) { c.fail("output between updates", "t %.3f velocity changed by %g m/s and position by %g m beyond inertial propagation", t, corr_v.norm(), corr_p.norm()); }
			}
		}

		// ---- vertical filter: reference run alongside
		vn.v += dv.z;
		vn.z += (v0.z + rv.z + vp.z) * 0.5 * dt;
		vn.dt += dt;

		if (u) {
			const uint64_t th = ekf->get_imu_sample_delayed().time_us;
			const double g_ekf = dtekf > 0 ? dtekf : 0.01;
			const double gv = g_ekf / std::max(std::min((double)pr.vel_Tau, 10.0), g_ekf), gp = g_ekf / std::max(std::min((double)pr.pos_Tau, 10.0), g_ekf);

			// the history at the fusion horizon
			while (tail + 1 < past.size() && past[tail].us < th) { tail++; }

			const bool found = tail < past.size() && past[tail].us == th;
			V3 ev, ep, ea;

			if (found) {
				ev = sv - (past[tail].v + (cv - past[tail].cv) + rv);
				ep = sp - (past[tail].p + (cp - past[tail].cp) + rp);
				ea = (sq1.unit().conj() * past[tail].q.unit()).unit().rotVec() * -1.0;
			}

			if (!found) { t_quiet = std::max(t_quiet, t + 0.01); c.count("horizon not in history"); }

			const bool ok = found && quiet && prev_ok;
			const auto te = ekf->getOutputTrackingError();

			if (found && quiet) {
				c.count("outputs compared");
				const double tv = 10 * fv + 1e-3 * ev.norm(), tp = 20 * fp + 1e-3 * ep.norm(), an = ea.norm(), tan = 1e-5 + 0.02 * an + std::fabs(an - 2 * sin(an / 2));
				c.peak("tracking attitude", std::fabs(te(0) - an) / tan);
				c.peak("tracking velocity", std::fabs(te(1) - ev.norm()) / tv);
				c.peak("tracking position", std::fabs(te(2) - ep.norm()) / tp);
				c.peak("attitude error", ea.norm());
				c.peak("velocity error", ev.norm());
				c.peak("position error", ep.norm());

				if (std::fabs(te(1) - ev.norm()) > tv || std::fabs(te(2) - ep.norm()) > tp || std::fabs(te(0) - an) > tan) {
					c.fail("tracking error", "t %.3f reported %g rad %g m/s %g m, deviation of the outputs from the delayed estimate %g rad %g m/s %g m", t, te(0), te(1), te(2), ea.norm(), ev.norm(), ep.norm());
				}
			}

			// corrections: proportional to the deviation plus a slow integral of it
			if (ok && dtekf > 0) {
				if (win_n == 0) { win_cv = corr_v; win_cp = corr_p; win_ev = ev; win_ep = ep; sum_v = sum_p = V3(); win_t = t; gv0 = gv; gp0 = gp; }

				else { sum_v += ev; sum_p += ep; }

				win_n++;

				if (win_n > 1 && (win_n < 8 || t > win_t + 1.5)) {
					const V3 xv = corr_v - win_cv - (ev * gv - win_ev * gv0) - sum_v * (0.1 * gv * gv);
					const V3 xp = corr_p - win_cp - (ep * gp - win_ep * gp0) - sum_p * (0.1 * gp * gp);
					// the mean interval, and with it the gain, moves a little within the window
					const double drift = 0.01 + 6 * std::fabs(gv / gv0 - 1);
					const double tv = 8 * fv + drift * (gv * (ev.norm() + win_ev.norm()) + corr_v.norm()) + (0.02 + 2 * drift) * sum_v.norm() * 0.1 * gv * gv, tp = 8 * fp + drift * (gp * (ep.norm() + win_ep.norm()) + corr_p.norm()) + (0.02 + 2 * drift) * sum_p.norm() * 0.1 * gp * gp;

					if (win_n < 8) { c.count("corrections compared (short)"); }

					else { c.count("corrections compared (long)"); }

					c.peak(win_n < 8 ? "velocity correction (short)" : "velocity correction (long)", xv.norm() / tv);
					c.peak(win_n < 8 ? "position correction (short)" : "position correction (long)", xp.norm() / tp);

					if (xv.norm() > tv) { c.fail("velocity correction", "t %.3f correction of the velocity output changed by %g m/s over %d updates, expected %g (tolerance %g)", t, (corr_v - win_cv).norm(), win_n, ((ev - win_ev) * gv + sum_v * (0.1 * gv * gv)).norm(), tv); }

					if (xp.norm() > tp) { c.fail("position correction", "t %.3f correction of the position output changed by %g m over %d updates, expected %g (tolerance %g)", t, (corr_p - win_cp).norm(), win_n, ((ep - win_ep) * gp + sum_p * (0.1 * gp * gp)).norm(), tp); }

					if (t > win_t + 1.5) { win_n = 0; }
				}

			} else { win_n = 0; }

			prev_ok = found;
			corr_v0 = corr_v;
			corr_p0 = corr_p;
			cv += corr_v;
			cp += corr_p;
			const double delay = std::max((m.time_us - th) * 1e-6, (double)ekf->get_dt_imu_avg());
			// the attitude is corrected over the following samples (small angles: twice the vector part)
			corr_ang = found ? ea * (0.5 * ekf->get_dt_imu_avg() / delay * (ea.norm() > 1e-9 ? 2 * sin(ea.norm() / 2) / ea.norm() : 1)) : V3();

			if (!found) { t_quiet = std::max(t_quiet, t + 0.05); }

			// announced changes belong to the whole history
			for (size_t i = tail; i < past.size(); i++) { past[i].v += rv; past[i].p += rp; }

			past.push_back({m.time_us, q1, v1, p1, cv, cp});

			// vertical filter
			vn.us = m.time_us;
			vert.push_back(vn);

			while (vtail + 1 < vert.size() && vert[vtail].us < th) { vtail++; }

			const double vc = (s(9) - vert[vtail].z) * gp + (s(6) - vert[vtail].v) * gv * 1.1;

			for (size_t i = vtail; i < vert.size(); i++) {
				vert[i].v += vc;

				if (i > vtail) { vert[i].z = vert[i - 1].z + (vert[i - 1].v + vert[i].v) * 0.5 * vert[i].dt; }
			}

			vn = vert.back();
			vn.dt = 0;

			if (tail > 4000) { past.erase(past.begin(), past.begin() + tail); tail = 0; }

			if (vtail > 4000) { vert.erase(vert.begin(), vert.begin() + vtail); vtail = 0; }

		} else {
			corr_v = corr_p = V3();
		}

		if (quiet && t > t_vert) {
			const double z = ekf->getVerticalPositionDerivative() + varm.z;
			const double tz = 2e-3 + 2e-3 * std::fabs(z);
			c.count("vertical derivative compared");
			c.peak("vertical derivative", std::fabs(z - vn.v) / tz);

			if (std::fabs(z - vn.v) > tz) { c.fail("vertical position derivative", "t %.3f published %g, reference %g", t, z, vn.v); }
		}

		q0 = q1;
		v0 = v1;
		p0 = p1;

		if (c.case_violations > 8) { break; }
	}

	c.count("flights");
	c.seen(c.case_no);
}
