#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	int n = r.in(1, 6); double cd = r.coin() ? 1 : r.unif(0.3, 3), wp = r.coin() ? 2 : r.unif(0.2, 4); Eigen::ArrayXd d(n); bool far = r.coin();
	for(int i=0;i<n;++i) { d(i) = far ? cd + r.unif(0.01, 4) : r.unif(0.1, 4); if(r.coin(0.15)) d(i) = far ? cd + 1 : cd; if(i && r.coin(0.2)) d(i) = d(i - 1); }
	r.log << " critical=" << cd << " power=" << wp << " distances=" << d.transpose();
	auto w = Modulation::weight_obstacles(d, cd, wp); if(!c.check(w.size() == n, "one weight per obstacle")) return;
	c.same(double(w.sum()), 1., "weights sum to 1"); int k = 0; double s = 0; for(int i=0;i<n;++i) { k += d(i) <= cd; s += std::pow(d(i) - cd, -wp); }
	for(int i=0;i<n;++i) { c.check(w(i) >= 0, "weights are not negative", w(i)); c.same(double(w(i)), k ? (d(i) <= cd ? 1. / k : 0.) : std::pow(d(i) - cd, -wp) / s, k ? "critical obstacles share the weight equally" : "weights proportional to the excess to minus the power"); if(!k) for(int j=0;j<n;++j) if(d(i) < d(j)) c.check(w(i) >= w(j) - 1e-12, "a nearer obstacle never weighs less", w(i), w(j)); }
}
