#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	int n = r.in(0, 4); Agent a = r.agent(); List l; Eigen::ArrayXd d(n), w(n); std::deque<Matrix3d> B; Vector3d sum(0, 0, 0); bool rest = r.coin(0.2); r.log << " n=" << n;
	for(int i=0;i<n;++i) {
		Ell e = r.ellipsoid("e", false, rest); l.push_back(P(e)); d(i) = r.coin(0.3) ? 1 : r.unif(0, 4); w(i) = r.unif(0, 1); B.push_back(r.quat().toRotationMatrix()); r.log << " d=" << d(i) << " w=" << w(i);
		Vector3d off = a.get_position() - e.get_position(), om = e.get_angular_velocity();
		sum += w(i) * std::exp(-(std::max(1., d(i)) - 1)) * (e.get_linear_velocity() + Vector3d(om(1)*off(2) - om(2)*off(1), om(2)*off(0) - om(0)*off(2), om(0)*off(1) - om(1)*off(0)));
	}
	auto v = Modulation::compute_relative_velocities(a, l, d, w, B);
	c.same(v.second, sum, "obstacle velocity is the weighted sum"); c.same(v.first, Vector3d(a.get_linear_velocity() - sum), "relative velocity is the difference");
	if(rest || !n) c.check(v.first == a.get_linear_velocity(), "obstacles at rest leave the velocity alone");
}
