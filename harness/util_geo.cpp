// G01..G04: map projection, distances and bearings, cross-track error, magnetic lookup
#include "vh.hpp"
#include "refmath.hpp"
#include <geo/geo.h>
#include <geo_lookup/geo_mag_declination.h>
#include <geo_lookup/geo_magnetic_tables.hpp>
#include "wmm_snapshot.hpp"

using vh::Ctx;
using namespace ref;

static double pick_lat(vh::Rng &r, double lim = 89.0)
{
	switch (r.range(0, 5)) {
	case 0: return 0;

	case 1: return r.uni(-1e-4, 1e-4);

	case 2: return (r.chance(0.5) ? 1 : -1) * r.uni(lim - 4, lim);

	case 3: return r.range(-8, 8) * 10;

	default: return r.uni(-lim, lim);
	}
}
static double pick_lon(vh::Rng &r)
{
	switch (r.range(0, 5)) {
	case 0: return 0;

	case 1: return (r.chance(0.5) ? 1 : -1) * (180 - r.logu(1e-7, 0.5));

	case 2: return r.chance(0.5) ? 180 : -180;

	case 3: return r.uni(-1e-4, 1e-4);

	default: return r.uni(-180, 180);
	}
}
static double pick_bearing(vh::Rng &r)
{
	return r.chance(0.3) ? r.range(-4, 4) * PI / 4 + (r.chance(0.5) ? 0 : r.gauss() * 1e-3) : r.uni(-PI, PI);
}
static double norm_lon(double l) { return wrap(l * D2R) / D2R; }

VH_CHECK(G01)
{
	auto &r = c.rng;

	for (int k = 0; k < 40; k++) {
		map_projection_reference_s ref_{};
		float x = 123, y = 456;
		double la = 7, lo = 8;
		c.expect(!map_projection_initialized(&ref_), "uninitialised", "zeroed reference reports initialised");
		c.expect(map_projection_project(&ref_, 1, 1, &x, &y) == -1, "uninitialised", "project accepted an unset reference");
		c.expect(map_projection_reproject(&ref_, 1, 1, &la, &lo) == -1, "uninitialised", "reproject accepted an unset reference");
		c.expect(map_projection_reference(&ref_, &la, &lo) == -1, "uninitialised", "reference query accepted an unset reference");

		double lat0 = pick_lat(r), lon0 = pick_lon(r);
		uint64_t ts = r.u64() >> 20;
		c.expect(map_projection_init_timestamped(&ref_, lat0, lon0, ts) == 0, "init", "init failed");
		c.expect(map_projection_initialized(&ref_) && map_projection_timestamp(&ref_) == ts, "init", "state after init");
		c.expect(map_projection_reference(&ref_, &la, &lo) == 0 && std::fabs(la - lat0 * D2R) < 1e-12 && std::fabs(wrap(lo - lon0 * D2R)) < 1e-12, "init", "reference read back");
		map_projection_reference_s r2{};
		c.expect(map_projection_init(&r2, lat0, lon0) == 0 && map_projection_initialized(&r2), "init", "init without time stamp");
		float x2 = 0, y2 = 0;
		c.expect(map_projection_project(&ref_, lat0, lon0, &x, &y) == 0 && std::fabs(x) < 1e-3 && std::fabs(y) < 1e-3, "origin", "reference does not map to zero: %g %g", (double)x, (double)y);

		double dist = r.chance(0.1) ? 0 : r.chance(0.5) ? r.logu(0.01, 1000) : r.logu(1000, 800000);
		double b = pick_bearing(r);
		double lat, lon;
		destination(lat0, lon0, b, dist / RE, lat, lon);

		if (r.chance(0.2)) { lon += 360; }

		c.expect(map_projection_project(&ref_, lat, lon, &x, &y) == 0, "project", "project failed");
		map_projection_project(&r2, lat, lon, &x2, &y2);
		c.expect(x == x2 && y == y2, "project", "the two initialisers disagree");
		// azimuthal equidistant: range and bearing preserved (float output, double angle rounding)
		double ex = dist * cos(b), ey = dist * sin(b);
		double tol = 0.002 + 1.5e-7 * dist;

		// near 1-eps the inverse cosine loses relative precision: allow for it
		if (dist > 1) { tol += 2e-16 / (dist / RE) * RE; }

		c.expect(std::fabs(x - ex) < tol && std::fabs(y - ey) < tol, "project", "from %.7f %.7f to %.7f %.7f: got (%.4f %.4f) expected (%.4f %.4f)", lat0, lon0, lat, lon, (double)x, (double)y, ex, ey);
		// inverse on an exactly known local point
		float fx = ex, fy = ey;
		double rlat = 0, rlon = 0;
		c.expect(map_projection_reproject(&ref_, fx, fy, &rlat, &rlon) == 0, "reproject", "reproject failed");
		double err = angdist(lat, lon, rlat, rlon) * RE;
		c.expect(err < 0.002 + 1.5e-7 * dist, "reproject", "from %.7f %.7f local (%.3f %.3f) -> %.8f %.8f, off by %g m", lat0, lon0, (double)fx, (double)fy, rlat, rlon, err);
		c.expect(rlat >= -90.0001 && rlat <= 90.0001, "reproject", "latitude %g", rlat);
		// round trip
		map_projection_reproject(&ref_, x, y, &rlat, &rlon);
		double e2 = angdist(lat, lon, rlat, rlon) * RE;
		c.expect(e2 < 2 * tol, "round-trip", "round trip off by %g m at %g m from %.5f %.5f", e2, dist, lat0, lon0);
		c.peak("round_trip_error_m", e2);
		c.peak("distance_m", dist);

		if (std::fabs(dlon(lon0, lon)) > 0 && lon0 * norm_lon(lon) < 0 && std::fabs(lon0) > 90) { c.count("date_line_crossings"); }

		if (std::fabs(lat0) > 80) { c.count("high_latitude"); }

		if (dist > 0) { c.seen(vh::mix(vh::hash_bytes(lat0), vh::hash_bytes(lon))); }
	}

	c.sample("40 references and points, up to 800 km");
}

VH_CHECK(G02)
{
	auto &r = c.rng;

	for (int k = 0; k < 40; k++) {
		double lat1 = pick_lat(r), lon1 = pick_lon(r);
		double dist = r.chance(0.05) ? 0 : r.chance(0.5) ? r.logu(0.05, 2000) : r.logu(2000, RE * PI * 0.999);
		double b = pick_bearing(r), lat2, lon2;

		if (dist > 0) { destination(lat1, lon1, b, dist / RE, lat2, lon2); }

		else { lat2 = lat1; lon2 = lon1; }

		if (r.chance(0.03)) { lat2 = -lat1; lon2 = lon1 > 0 ? lon1 - 180 : lon1 + 180; dist = PI * RE; c.count("antipodal"); }

		double tdist = angdist(lat1, lon1, lat2, lon2) * RE;
		double d12 = get_distance_to_next_waypoint(lat1, lon1, lat2, lon2);
		double d21 = get_distance_to_next_waypoint(lat2, lon2, lat1, lon1);
		const bool far = tdist > 0.98 * PI * RE;
		double tol = 1e-3 + 2e-7 * tdist + (far ? 2.0 : 0);
		c.expect(std::fabs(d12 - tdist) <= tol, "distance", "(%.7f %.7f)-(%.7f %.7f): %.4f m expected %.4f", lat1, lon1, lat2, lon2, d12, tdist);
		c.expect(std::fabs(d12 - d21) <= tol, "distance-symmetry", "%.4f vs %.4f", d12, d21);

		if (dist == 0) { c.expect(d12 == 0, "distance-zero", "coincident points %g m apart", d12); }

		// bearing
		double n, e;
		tangent(lat1, lon1, lat2, lon2, n, e);
		double sinc = std::hypot(n, e);

		if (sinc * RE > 0.5) {
			double tb = atan2(e, n);
			double gb = get_bearing_to_next_waypoint(lat1, lon1, lat2, lon2);
			double btol = 2e-6 + 4e-16 / sinc * 4;
			c.expect(std::fabs(wrap(gb - tb)) < btol, "bearing", "(%.7f %.7f)-(%.7f %.7f): bearing %.7f expected %.7f", lat1, lon1, lat2, lon2, gb, tb);
			c.expect(gb >= -PI - 1e-6 && gb <= PI + 1e-6, "bearing-range", "bearing %g", gb);
			c.count(tb >= 0 ? (tb < PI / 2 ? "quadrant_ne" : "quadrant_se") : (tb > -PI / 2 ? "quadrant_nw" : "quadrant_sw"));
		}

		// vectors
		float vn, ve;
		get_vector_to_next_waypoint(lat1, lon1, lat2, lon2, &vn, &ve);
		c.expect(std::fabs(vn - RE * n) < 1e-3 + 2e-7 * RE * sinc && std::fabs(ve - RE * e) < 1e-3 + 2e-7 * RE * sinc, "vector", "vector (%.3f %.3f) expected (%.3f %.3f)", (double)vn, (double)ve, RE * n, RE * e);

		// quick vector: first order at short range and moderate latitude
		if (tdist < 20000 && std::fabs(lat1) < 80) {
			get_vector_to_next_waypoint_fast(lat1, lon1, lat2, lon2, &vn, &ve);
			double q = tdist / RE;
			double t2 = 1e-3 + 2e-7 * tdist + 2 * tdist * q * (1 + std::tan(std::fabs(lat1) * D2R));
			c.expect(std::fabs(vn - RE * n) < t2 && std::fabs(ve - RE * e) < t2, "fast-vector", "(%.7f %.7f)-(%.7f %.7f): quick vector (%.3f %.3f) expected (%.3f %.3f)", lat1, lon1, lat2, lon2, (double)vn, (double)ve, RE * n, RE * e);

			// adding the offset back
			double rl, ro;
			float an = tdist * cos(b), ae = tdist * sin(b);
			add_vector_to_global_position(lat1, lon1, an, ae, &rl, &ro);
			get_vector_to_next_waypoint_fast(lat1, lon1, rl, ro, &vn, &ve);
			c.expect(std::fabs(vn - an) < 1e-3 + 3e-7 * tdist && std::fabs(ve - ae) < 1e-3 + 3e-7 * tdist, "add-vector", "added (%.3f %.3f), read back (%.3f %.3f) at %.6f %.6f", (double)an, (double)ae, (double)vn, (double)ve, lat1, lon1);
			c.expect(std::fabs(angdist(lat1, lon1, rl, ro) * RE - tdist) < t2, "add-vector", "offset point at %.3f m, offset %.3f m", angdist(lat1, lon1, rl, ro) * RE, tdist);
			c.count("short_range");
		}

		// waypoint from heading and distance
		{
			double d = r.chance(0.5) ? r.logu(0.1, 2000) : r.logu(2000, 5e6);
			float fd = d;
			float fb = r.chance(0.2) ? b + 2 * PI : b;
			double wl, wo;
			waypoint_from_heading_and_distance(lat1, lon1, fb, fd, &wl, &wo);
			double el, eo;
			destination(lat1, lon1, (double)fb, fd / RE, el, eo);
			double err = angdist(wl, wo, el, eo) * RE;
			c.expect(err < 2e-3 + 2e-6 * fd, "waypoint", "%.3f m at bearing %.6f from %.6f %.6f: off by %g m", (double)fd, (double)fb, lat1, lon1, err);
			c.expect(wl >= -90.001 && wl <= 90.001, "waypoint", "latitude %g", wl);

			if (sinc * RE > 0.5 && !far) {
				double la, lo;
				float dl = r.chance(0.1) ? 0 : (r.chance(0.3) ? -1 : 1) * r.logu(0.1, 1e5);
				create_waypoint_from_line_and_dist(lat1, lon1, lat2, lon2, dl, &la, &lo);
				destination(lat1, lon1, bearing(lat1, lon1, lat2, lon2), dl / RE, el, eo);
				double er = angdist(la, lo, el, eo) * RE;
				c.expect(er < 2e-3 + (3e-6 + 2e-15 / sinc) * std::fabs(dl), "waypoint-on-line", "%.3f m along the line from %.6f %.6f: off by %g m", (double)dl, lat1, lon1, er);

				if (dl == 0) { c.expect(la == lat1 && lo == lon1, "waypoint-on-line", "zero distance moved the point"); }
			}
		}

		// 3D distances
		{
			float a1 = r.uni(-100, 5000), a2 = r.chance(0.1) ? a1 : r.uni(-100, 5000), dxy = -1, dz = -1;

			if (!far) {
				float d = get_distance_to_point_global_wgs84(lat1, lon1, a1, lat2, lon2, a2, &dxy, &dz);
				double ez = std::fabs((double)a1 - a2);
				c.expect(std::fabs(dxy - tdist) <= tol && std::fabs(dz - ez) < 1e-3, "distance-3d", "components %.4f %.4f expected %.4f %.4f", (double)dxy, (double)dz, tdist, ez);
				c.expect(std::fabs(d - std::hypot(tdist, ez)) <= 1.5 * tol + 1e-3, "distance-3d", "3-D distance %.4f expected %.4f", (double)d, std::hypot(tdist, ez));
			}

			float p[6];

			for (float &q : p) { q = r.chance(0.1) ? 0 : r.uni(-1000, 1000); }

			float d = mavlink_wpm_distance_to_point_local(p[0], p[1], p[2], p[3], p[4], p[5], &dxy, &dz);
			double ex = std::hypot((double)p[0] - p[3], (double)p[1] - p[4]), ez = std::fabs((double)p[2] - p[5]);
			c.expect(std::fabs(dxy - ex) < 1e-3 && std::fabs(dz - ez) < 1e-3 && std::fabs(d - std::hypot(ex, ez)) < 1e-3, "distance-local", "local distance %.4f (%.4f %.4f) expected %.4f (%.4f %.4f)", (double)d, (double)dxy, (double)dz, std::hypot(ex, ez), ex, ez);
		}

		if (norm_lon(lon2) * lon1 < 0 && std::fabs(lon1) > 90) { c.count("date_line_crossings"); }

		if (dist > 0) { c.seen(vh::mix(vh::hash_bytes(lat1), vh::hash_bytes(lon2))); }
	}

	c.sample("40 pairs of global points, up to the antipode");
}

VH_CHECK(G03)
{
	auto &r = c.rng;

	for (int k = 0; k < 30; k++) {
		// --- line ---
		double lat0 = r.chance(0.8) ? r.uni(-70, 70) : pick_lat(r, 75), lon0 = pick_lon(r);
		double len = r.logu(5, 20000), b = pick_bearing(r);
		double latE, lonE;
		destination(lat0, lon0, b, len / RE, latE, lonE);
		double along = r.chance(0.25) ? len + r.logu(1, 5000) : r.chance(0.2) ? -r.logu(1, 3000) : r.unit() * len;
		double off = r.chance(0.05) ? 0 : (r.chance(0.5) ? 1 : -1) * r.logu(0.05, 5000);
		double ml, mo, latN, lonN;
		destination(lat0, lon0, b, along / RE, ml, mo);
		double ahead = along < len * 0.5 ? bearing(ml, mo, latE, lonE) : wrap(bearing(ml, mo, lat0, lon0) + PI);

		if (along > len) { ahead = wrap(bearing(ml, mo, latE, lonE) + PI); }

		if (along < 0) { ahead = bearing(ml, mo, latE, lonE); }

		destination(ml, mo, ahead + PI / 2, off / RE, latN, lonN);
		crosstrack_error_s ct{true, 99, 99};
		int ret = get_distance_to_line(&ct, latN, lonN, lat0, lon0, latE, lonE);
		double to_end = angdist(latN, lonN, latE, lonE) * RE;

		if (to_end < 0.05) {
			c.expect(ret == -1, "line-at-end", "position on the end point accepted");
			c.count("line_at_end");

		} else if (to_end > 0.2) {
			// meridian convergence between the positions bounds the planar formula's angle error
			double extent = std::max(to_end, len) + std::fabs(off);
			double conv = extent / RE * std::tan(std::min(85.0, std::fabs(lat0) + 0.5) * D2R) + 1e-5 + 1e-8 / (to_end / RE) * 1e-8;
			double tol = 2e-3 + 1.2 * to_end * conv + std::fabs(off) * sq(extent / RE);
			double margin = std::fabs(len - along); // distance before/after the end, along track

			c.expect(ret == 0, "line-return", "return code %d", ret);

			if (margin > tol * 1.5 + 0.05) {
				c.expect(ct.past_end == (along > len), "line-past-end", "past_end=%d, %.2f m along a %.2f m line (cross %.2f m)", ct.past_end, along, len, off);
			}

			if (along > len + tol * 1.5 + 0.05) { c.count("line_past_end"); }

			if (along < len - tol * 1.5 - 0.05) {
				c.expect(std::fabs(ct.distance - off) < tol, "line-distance", "cross-track %.4f m expected %.4f (tolerance %.4f), %.1f m before the end, line from %.6f %.6f bearing %.4f length %.1f",
					 (double)ct.distance, off, tol, len - along, lat0, lon0, b, len);

				if (std::fabs(off) > 2 * tol) {
					double back = wrap(ahead + (off > 0 ? -PI / 2 : PI / 2));
					c.expect(std::fabs(wrap(ct.bearing - back)) < 0.01 + 2 * conv, "line-bearing", "bearing to line %.4f expected %.4f", (double)ct.bearing, back);
				}

				c.expect(ct.bearing >= -PI - 1e-5 && ct.bearing <= PI + 1e-5, "line-bearing", "bearing not wrapped: %g", (double)ct.bearing);
				c.count(off > 0 ? "line_right" : "line_left");

				if (along < 0) { c.count("line_before_start"); }
			}

			c.seen(vh::mix(vh::hash_bytes(lat0), vh::hash_bytes(off)));
		}

		// --- arc ---
		double R = r.logu(1, 3000);
		double sb = pick_bearing(r), sweep = (r.chance(0.5) ? 1 : -1) * (r.chance(0.15) ? 2 * PI - 1e-3 : r.uni(0.1, 6.2));

		if (r.chance(0.3)) { sb += 2 * PI; }

		double frac = r.uni(-0.2, 1.2);
		double vb = sb + sweep * frac;
		double rad = r.chance(0.1) ? R : R * r.uni(0.05, 3);
		destination(lat0, lon0, vb, rad / RE, latN, lonN);
		float fR = R, fs = sb, fw = sweep;
		ct = crosstrack_error_s{true, 99, 99};
		ret = get_distance_to_arc(&ct, latN, lonN, lat0, lon0, fR, fs, fw);

		crosstrack_error_s z{true, 99, 99};
		c.expect(get_distance_to_arc(&z, latN, lonN, lat0, lon0, r.uni(-5, 0.09), fs, fw) == -1 && z.distance == 0, "arc-radius", "tiny radius accepted");

		if (std::fabs(lat0) > 70) { continue; }

		c.expect(ret == 0, "arc-return", "return code %d", ret);
		c.expect(ct.bearing >= -PI - 1e-5 && ct.bearing <= PI + 1e-5, "arc-bearing", "bearing not wrapped: %g", (double)ct.bearing);
		double tolr = 0.01 + 2e-3 * R;
		// angular position within the sweep, from 0 at the start
		double ang = sweep * frac, full = std::fabs(sweep);
		double pos = sweep > 0 ? ang : -ang; // may be <0 or >full
		pos = fmod(pos + 4 * PI, 2 * PI);
		const double am = 0.02 + 0.02 / rad;
		const bool in = pos > am && pos < full - am;
		const bool out = pos > full + am && pos < 2 * PI - am;
		// right of the arc seen towards its end: outside for an anticlockwise (negative sweep) arc
		const double side = sweep > 0 ? R - rad : rad - R;

		if (in) {
			c.expect(!ct.past_end, "arc-in-sector", "inside the sector reported past the end: start %.4f sweep %.4f vehicle bearing %.4f", sb, sweep, vb);
			c.expect(std::fabs(ct.distance - side) < tolr, "arc-distance", "distance %.4f expected %.4f (radius %.2f, at %.2f, start %.4f sweep %.4f vehicle bearing %.4f)", (double)ct.distance, side, R, rad, sb, sweep, vb);

			if (std::fabs(R - rad) > 2 * tolr) {
				double toc = bearing(latN, lonN, lat0, lon0);
				double eb = rad > R ? toc : wrap(toc + PI);
				c.expect(std::fabs(wrap(ct.bearing - eb)) < 0.01, "arc-bearing", "bearing %.4f expected %.4f", (double)ct.bearing, eb);
			}

			c.count(sweep > 0 ? "arc_clockwise" : "arc_anticlockwise");
			c.count(rad > R ? "arc_outside" : "arc_inside");

		} else if (out) {
			double sl, so, el, eo;
			destination(lat0, lon0, sb, R / RE, sl, so);
			destination(lat0, lon0, sb + sweep, R / RE, el, eo);
			double ds = angdist(latN, lonN, sl, so) * RE, de = angdist(latN, lonN, el, eo) * RE;

			if (std::fabs(ds - de) > 2 * tolr) {
				c.expect(ct.past_end == (de < ds), "arc-past-end", "past_end=%d, start at %.2f m, end at %.2f m", ct.past_end, ds, de);
				c.expect(std::fabs(std::fabs(ct.distance) - std::min(ds, de)) < tolr, "arc-end-distance", "distance %.3f, nearest arc end at %.3f (centre %.5f %.5f R %.2f start %.4f sweep %.4f)", (double)ct.distance, std::min(ds, de), lat0, lon0, R, sb, sweep);

				if (std::min(ds, de) > 5 * tolr) {
					double eb = de < ds ? bearing(latN, lonN, el, eo) : bearing(latN, lonN, sl, so);
					c.expect(std::fabs(wrap(ct.bearing - eb)) < 0.25, "arc-end-bearing", "bearing %.3f expected %.3f", (double)ct.bearing, eb);
				}
			}

			c.count("arc_out_of_sector");
		}
	}

	c.sample("30 lines and 30 arcs with positions around them");
}

// ---------------------------------------------------------------------------------------------
static double table_at(const int16_t t[LAT_DIM][LON_DIM], double lat, double lon)
{
	if (lat > 90) { lat = 90; }

	if (lat < -90) { lat = -90; }

	while (lon > 180) { lon -= 360; }

	while (lon < -180) { lon += 360; }

	double fi = (lat + 90) / 10, fj = (lon + 180) / 10;
	int i = std::min(17, (int)std::floor(fi)), j = std::min(35, (int)std::floor(fj));
	double a = fi - i, b = fj - j;
	return (1 - a) * ((1 - b) * t[i][j] + b * t[i][j + 1]) + a * ((1 - b) * t[i + 1][j] + b * t[i + 1][j + 1]);
}

VH_CHECK(G04)
{
	auto &r = c.rng;

	// the published table itself (WMM-2020 at the date stated in the file)
	if (c.case_no == 0) {
		for (int i = 0; i < 19; i++) for (int j = 0; j < 37; j++) {
				const double lat = -90 + 10 * i, lon = -180 + 10 * j;
				c.expect(std::abs(declination_table[i][j] - wmm_decl[i][j]) <= 2 || std::abs(std::abs(declination_table[i][j] - wmm_decl[i][j]) - 62832) <= 3, "table-declination", "declination at grid (%g,%g): %d, published %d", lat, lon, declination_table[i][j], wmm_decl[i][j]);
				c.expect(std::abs(inclination_table[i][j] - wmm_incl[i][j]) <= 2, "table-inclination", "inclination at grid (%g,%g): %d, published %d", lat, lon, inclination_table[i][j], wmm_incl[i][j]);
				c.expect(std::abs(strength_table[i][j] - wmm_str[i][j]) <= 3, "table-strength", "strength at grid (%g,%g): %d, published %d", lat, lon, strength_table[i][j], wmm_str[i][j]);
			}

		c.count("table_entries", 3 * 19 * 37);
	}

	for (int k = 0; k < 500; k++) {
		double la, lo;

		switch (r.range(0, 6)) {
		case 0: la = r.range(-9, 9) * 10; lo = r.range(-18, 18) * 10; break;

		case 1: la = r.range(-9, 9) * 10 + r.uni(-1e-3, 1e-3); lo = r.range(-18, 18) * 10 + r.uni(-1e-3, 1e-3); break;

		case 2: la = (r.chance(0.5) ? 1 : -1) * r.uni(80, 95); lo = r.uni(-180, 180); break;

		case 3: la = r.uni(-90, 90); lo = (r.chance(0.5) ? 1 : -1) * r.uni(170, 190); break;

		case 4: la = r.uni(-90, 90); lo = r.uni(-539, 539); break;

		default: la = r.uni(-90, 90); lo = r.uni(-180, 180);
		}

		float fl = la, fo = lo;
		double d = table_at(wmm_decl, fl, fo), i = table_at(wmm_incl, fl, fo), s = table_at(wmm_str, fl, fo);
		// near a wrapped longitude the reduced coordinate is rounded in single precision
		double slack = 3 + (std::fabs(lo) > 180 ? 5 : 0);
		double gd = get_mag_declination_radians(fl, fo), gi = get_mag_inclination_radians(fl, fo), gs = get_mag_strength_gauss(fl, fo);
		double steep = 0; // table slope across the +-pi wrap of declination amplifies coordinate rounding

		if (std::fabs(la) > 60) { steep = 8; }

		c.near(gd * 1e4, d, slack + steep, "declination", "declination (1e-4 rad)");
		c.near(gi * 1e4, i, slack, "inclination", "inclination (1e-4 rad)");
		c.near(gs * 1e4, s, slack, "strength", "strength (1e-4 G)");

		if (c.case_violations) { c.note("at lat %.6f lon %.6f", (double)fl, (double)fo); }

		c.near(get_mag_declination_degrees(fl, fo), gd * 180 / PI, 1e-4, "units", "declination in degrees");
		c.near(get_mag_inclination_degrees(fl, fo), gi * 180 / PI, 1e-4, "units", "inclination in degrees");
		c.near(get_mag_strength_tesla(fl, fo), gs * 1e-4, 1e-10, "units", "strength in tesla");

		// physical range of the earth field, whatever the table
		c.expect(gs > 0.15 && gs < 0.72, "plausible", "field strength %g G at %g,%g", gs, la, lo);
		c.expect(std::fabs(gi) <= 1.58, "plausible", "inclination %g rad", gi);

		// continuity
		float st = r.uni(-0.05, 0.05), sl = r.uni(-0.05, 0.05);

		if (std::fabs(lo) + 0.06 < 180 || (std::fabs(lo) > 180.1 && std::fabs(lo) < 530)) {
			double cd = get_mag_declination_radians(fl + st, fo + sl), ci = get_mag_inclination_radians(fl + st, fo + sl), cs = get_mag_strength_gauss(fl + st, fo + sl);
			double lim = (std::fabs(la) > 55 ? 1.5 : 0.12) * 0.1;
			c.expect(std::fabs(cd - gd) < lim, "continuity", "declination jumps from %g to %g near %g,%g", gd, cd, la, lo);
			c.expect(std::fabs(ci - gi) < 0.01 && std::fabs(cs - gs) < 0.002, "continuity", "inclination or strength jumps near %g,%g", la, lo);
		}

		// periodicity
		if (std::fabs(fo) < 179) {
			c.near(get_mag_declination_radians(fl, fo + 360), gd, 2e-3, "period", "declination one turn on");
			c.near(get_mag_inclination_radians(fl, fo - 360), gi, 2e-3, "period", "inclination one turn back");
			c.near(get_mag_strength_gauss(fl, fo + 360), gs, 2e-3, "period", "strength one turn on");
		}

		// both sides of the date line
		if (k % 50 == 0) {
			c.near(get_mag_inclination_radians(fl, 180), get_mag_inclination_radians(fl, -180), 1e-3, "date-line", "inclination at the date line");
			c.near(wrap(get_mag_declination_radians(fl, 180) - get_mag_declination_radians(fl, -180)), 0, 1e-3, "date-line", "declination at the date line");
			c.near(get_mag_strength_gauss(fl, 180), get_mag_strength_gauss(fl, -180), 1e-3, "date-line", "strength at the date line");
		}

		// beyond the poles: clamped
		float over = r.uni(90, 400);
		c.near(get_mag_declination_radians(over, fo), get_mag_declination_radians(90, fo), 1e-5, "clamp", "declination beyond the north pole");
		c.near(get_mag_inclination_radians(-over, fo), get_mag_inclination_radians(-90, fo), 1e-5, "clamp", "inclination beyond the south pole");

		if (std::fabs(lo) > 180) { c.count("wrapped_longitude"); }

		if (std::fabs(la) > 90) { c.count("beyond_pole"); }

		c.seen(vh::mix(vh::hash_bytes(fl), vh::hash_bytes(fo)));
	}

	c.sample("500 positions: grid points, cell interiors, poles, wrapped longitudes");
}
