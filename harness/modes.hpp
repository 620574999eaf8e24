// Flights for the monitors of mode logic, with the arrival history of each sensor
#pragma once
#include "mon.hpp"
#include "ekf_all.hpp"
#include <deque>
namespace sim
{
// arrival history of one sensor's data that the filter can accept
struct Feed {
	std::deque<uint64_t> at;
	uint64_t newest_stamp{0}; // newest time of validity
	void add(uint64_t t) { at.push_back(t); if (at.size() > 4000) { at.pop_front(); } }
	// no gap longer than this over the window that ends now
	bool regular(uint64_t now, double window, double gap) const
	{
		const uint64_t w = (uint64_t)(window * 1e6), g = (uint64_t)(gap * 1e6);

		if (at.empty() || now < at.front() + w) { return false; }

		uint64_t next = now;

		for (size_t i = at.size(); i-- > 0;) {
			if (next > at[i] + g) { return false; }

			next = at[i];

			if (next + w < now) { return true; }
		}

		return false;
	}
	double age(uint64_t now) const { return at.empty() ? 1e9 : ((int64_t)(now - at.back())) * 1e-6; }
};
struct Feeds {
	Feed f[16];
	bool origin{false}, need_gps{false};
	Feed &operator[](CallType t) { return f[t]; }
	const Feed &operator[](CallType t) const { return f[t]; }
};
inline double delayOf(const Config &k, CallType t)
{
	const auto &p = k.params;
	return 1e-3 * (t == GPS ? p.gps_delay_ms : t == EV ? p.ev_delay_ms : t == BARO ? p.baro_delay_ms : t == MAG ? p.mag_delay_ms : t == RNG ? p.range_delay_ms : t == FLOW ? p.flow_delay_ms : t == ASPD ? p.airspeed_delay_ms : t == AUX ? p.auxvel_delay_ms : 0);
}
inline double lagOf(const Config &k) { double d = 0; for (CallType t : {GPS, EV, BARO, MAG, RNG, FLOW, ASPD, AUX}) { d = std::max(d, delayOf(k, t)); } return d + 0.06; }

// drop-outs of each sensor at random, GPS quality episodes
inline void holes(Config &k, vh::Rng &r, std::initializer_list<CallType> which, double p, double maxlen = 25)
{
	for (CallType t : which) {
		while (r.chance(p)) {
			const double t0 = r.uni(1, k.dur);
			k.faults.push_back({t, DROPOUT, t0, t0 + r.logu(0.2, maxlen), 0});
		}
	}
}
inline void gpsQuality(Flight &f, vh::Rng &r, int episodes)
{
	for (int i = 0; i < episodes; i++) {
		const uint64_t t0 = f.cfg.start_us + (uint64_t)(r.uni(0, f.cfg.dur) * 1e6), t1 = t0 + (uint64_t)(r.logu(0.1, 25) * 1e6);
		const int what = r.below(4);

		for (gps_message &g : f.gps) {
			if (g.time_usec < t0 || g.time_usec > t1) { continue; }

			if (what == 0) { g.fix_type = (uint8_t)r.below(3); }

			else if (what == 1) { g.nsats = 3; }

			else if (what == 2) { g.eph = 20; g.epv = 30; g.sacc = 8; }

			else { g.yaw = NAN; }
		}
	}
}

// cb(call, previous, now) after each update that returned true; feeds hold all data that arrived before it
template<typename CB>
void watch(Ekf &e, const Flight &f, Feeds &feeds, CB cb)
{
	configure(e, f.cfg);
	Snap prev;
	feeds.need_gps = (f.cfg.params.fusion_mode & MASK_USE_GPS) || f.cfg.params.vdist_sensor_type == VDIST_SENSOR_GPS;

	for (const Call &c : f.calls) {
		apply(e, f, c);

		if (c.type != IMU) {
			uint64_t st = 0;
			bool ok = true;

			switch (c.type) {
			case MAG: st = f.mag[c.idx].time_us; break;

			case GPS: {
					st = f.gps[c.idx].time_usec;
					uint64_t ot;
					double la, lo;
					float al;
					feeds.origin = e.getEkfGlobalOrigin(ot, la, lo, al);
					ok = feeds.need_gps && f.gps[c.idx].fix_type > 2;
					break;
				}

			case BARO: st = f.baro[c.idx].time_us; break;

			case ASPD: st = f.aspd[c.idx].time_us; break;

			case RNG: st = f.rng[c.idx].time_us; break;

			case FLOW: st = f.flow[c.idx].time_us; break;

			case EV: st = f.ev[c.idx].time_us; break;

			case AUX: st = f.aux[c.idx].time_us; break;

			default: break;
			}

			if (ok && st) {
				Feed &d = feeds[c.type];
				d.add(c.at);
				d.newest_stamp = std::max(d.newest_stamp, st - (uint64_t)(delayOf(f.cfg, c.type) * 1e6) - 5000);
			}

			continue;
		}

		if (!e.update()) { continue; }

		Snap s = snap(e, f.imu[c.idx].time_us);

		if (!cb(c, prev, s, (s.now_us - f.cfg.start_us) * 1e-6)) { return; }

		prev = s;
	}
}
inline bool faulty(const Config &k, CallType t, std::initializer_list<FaultType> types)
{
	for (const Fault &f : k.faults) { if (f.sensor == t) { for (FaultType x : types) { if (f.type == x) { return true; } } } }

	return false;
}
inline bool faulty(const Config &k, CallType t) { for (const Fault &f : k.faults) { if (f.sensor == t && f.type != DROPOUT) { return true; } } return false; }
} // namespace sim
