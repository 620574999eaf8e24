#include "ekf_sim.hpp"
#include "wmm_snapshot.hpp"
namespace sim
{
static double table_at(const int16_t t[19][37], double lat, double lon)
{
	lat = std::max(-89.99, std::min(89.99, lat));

	while (lon > 180) { lon -= 360; }

	while (lon < -180) { lon += 360; }

	double fi = (lat + 90) / 10, fj = (lon + 180) / 10;
	int i = std::min(17, (int)std::floor(fi)), j = std::min(35, (int)std::floor(fj));
	double a = fi - i, b = fj - j;
	return (1 - a) * ((1 - b) * t[i][j] + b * t[i][j + 1]) + a * ((1 - b) * t[i + 1][j] + b * t[i + 1][j + 1]);
}
double wmm_declination_rad(double lat, double lon) { return table_at(wmm_decl, lat, lon) * 1e-4; }
double wmm_inclination_rad(double lat, double lon) { return table_at(wmm_incl, lat, lon) * 1e-4; }
double wmm_strength_gauss(double lat, double lon) { return table_at(wmm_str, lat, lon) * 1e-4; }
}
