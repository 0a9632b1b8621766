#include "nv.hpp"
static void lookup(Ctx& c, const std::vector<double>& v, double x) {
	Eigen::MatrixXd A = Eigen::MatrixXd::Zero(3, v.size()); for(size_t i=0;i<v.size();++i) A(2, i) = v[i];
	auto p = MathTools::find_closest_points(A, Vector3d(1, 0, x), 2);
	size_t e = 0; while(e < v.size() && v[e] < x) ++e; e %= v.size();
	c.check(p.first == e, "first hull point whose bearing is not smaller", p.first, e, x); c.check(p.second == (e + 1) % v.size(), "the next one, cyclically", p.second, e);
}
void once(Ctx& c) { std::vector<double> v = {-3, -1, 0.5, 3}; for(double x : {-3.1, -3., -2., -1., 0., 0.5, 2.9, 3., 3.1}) lookup(c, v, x); lookup(c, {1}, 0); lookup(c, {1}, 2); }
void trial(R& r, Ctx& c) {
	int n = r.in(1, 9); std::vector<double> v(n); for(auto& x : v) x = r.unif(-M_PI, M_PI); std::sort(v.begin(), v.end());
	lookup(c, v, r.coin(0.3) ? v[r.in(0, n - 1)] : r.unif(-M_PI, M_PI));
	const int N = 40; List l; Vector3d ref(r.unif(-1, 1), r.unif(-1, 1), 0);
	for(int i=0;i<2;++i) { Ellipsoid e(std::string(1, char('a' + i)), State(Vector3d(r.unif(-1, 1), r.unif(-1, 1), 0), r.zquat())); e.set_axis_lengths(Array3d(r.pos(0.5, 3), r.pos(0.5, 3), 1)); l.push_back(P(e)); }
	bool inner = r.coin(); StarShapeHull h(inner, N); h.compute_from_primitives(l, ref);
	std::vector<double> phi(N); for(int i=0;i<N;++i) phi[i] = -M_PI + i * (2 * M_PI - 1e-4) / (N - 1);
	auto at = [&](double t, double q) { return Vector3d(ref + q * Vector3d(std::cos(t), std::sin(t), 0)); };
	auto rad = [&](int i) { double t = i == 0 ? M_PI - 5e-5 : (phi[i - 1] + phi[i]) / 2, d = D(h, at(t, 1)); return inner ? d : 1 / d; };
	double t = r.coin(0.2) ? M_PI - 5e-5 : r.unif(phi[1] + 1e-3, M_PI), q = r.pos(); r.log << " bearing=" << t << " radius=" << q << " inner=" << inner;
	int i = 0; while(i < N && phi[i] < t) ++i; i %= N; 
	if(i && std::abs(phi[i] - t) < 2e-4) return;
	if(i && std::abs(phi[i - 1] - t) < 2e-4) return;
	double rho = rad(i), d = D(h, at(t, q));
	c.same(d, inner ? rho / q : q / rho, "distance is the ratio of the radii", 1e-6);
	if(std::abs(q - rho) > 1e-9) c.check(h.point_is_inside(at(t, q)) == (q < rho), "inside exactly when the radius is smaller", q, rho);
	Agent a; a.set_position(at(t, q) + Vector3d(0, 0, r.coin() ? 0 : 1)); Vector3d nn = h.compute_normal_to_agent(a);
	c.same(nn.norm(), 1., "unit normal"); c.check(std::abs(nn(2)) < 1e-9, "horizontal normal", nn.transpose());
	int j = (i + 1) % N; Vector3d seg = at(phi[j], rad(j)) - at(phi[i], rho); if(i && j && seg.norm() > 2e-2) c.check(std::abs(seg.normalized().dot(nn)) < 2e-2, "normal is orthogonal to its hull segment", nn.transpose(), seg.transpose());
	Agent b; b.set_position(ref + Vector3d(-q, 0, 0)); c.same(h.compute_normal_to_agent(b).norm(), 1., "unit normal exactly behind");
}
