#include "nv.hpp"
static const int N = 60;
static double radius(const StarShapeHull& h, bool inner, const Vector3d& ref, int i, const std::vector<double>& phi) {
	double t = i == 0 ? M_PI - 5e-5 : (phi[i - 1] + phi[i]) / 2;
	double d = D(h, ref + Vector3d(std::cos(t), std::sin(t), 0));
	return inner ? d : 1 / d;
}
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	bool inner = r.coin(); double mr = r.coin(0.3) ? 0.5 : r.unif(0.1, 1.5); r.log << " inner=" << inner << " min radius=" << mr;
	int n = r.in(0, 3); List l; Vector3d ref(r.unif(-2, 2), r.unif(-2, 2), 0); r.log << " ref=" << ref.transpose();
	for(int i=0;i<n;++i) { Ellipsoid e(std::string(1, char('a' + i)), State(Vector3d(r.unif(-3, 3), r.unif(-3, 3), 0), r.zquat()), r.margins()); e.set_axis_lengths(Array3d(r.pos(0.2, 3), r.pos(0.2, 3), 1)); r.log << " at " << e.get_position().transpose() << " lengths " << e.get_axis_lengths().transpose(); l.push_back(P(e)); }
	int m = r.in(0, 2); List other; for(int i=0;i<m;++i) { Ell e = r.ellipsoid("x", true); other.push_back(P(e)); }
	StarShapeHull h(inner, N, mr), k(inner, N, mr);
	h.compute_from_primitives(l, ref);
	k.compute_from_primitives(other, r.vec("other ref")); k.compute_from_primitives(l, ref);
	std::vector<double> phi(N); for(int i=0;i<N;++i) phi[i] = -M_PI + i * (2 * M_PI - 1e-4) / (N - 1);
	c.same(Vector3d(h.get_position()), ref, "hull stands at its reference point"); c.same(Vector3d(h.get_reference_position()), ref, "hull has its reference point");
	double far = 0, least = 1e9;
	for(auto& o : l) for(int i=0;i<N;++i) { auto s = o->compute_interesection_points(ref, ref + Vector3d(std::cos(phi[i]), std::sin(phi[i]), 0)); if(s.first) far = std::max({far, (s.second.first - ref).norm(), (s.second.second - ref).norm()}); }
	for(int i=0;i<N;++i) {
		double a = radius(h, inner, ref, i, phi), b = radius(k, inner, ref, i, phi);
		c.same(b, a, "recomputing gives the same hull", 1e-9);
		c.check(a >= mr - 1e-9, "radius at least the minimum", a, mr); c.check(a <= std::max(mr, far) + 1e-6, "radius at most the farthest crossing", a, far);
		if(l.empty()) c.same(a, mr, "without primitives every radius is the minimum", 1e-9);
		least = std::min(least, a);
	}
	if(std::abs(least - 1.2 * mr) > 1e-6) c.check(h.is_closed() == (least > 1.2 * mr), "closed exactly when all radii exceed 1.2 times the minimum", least, mr);
	c.check(h.is_closed() == k.is_closed(), "closedness does not depend on earlier computations");
	if(n) { StarShapeHull q(l, inner, N, mr); Vector3d b(0, 0, 0); for(auto& o : l) b += o->get_position(); b /= n; c.same(Vector3d(q.get_reference_position()), b, "default reference point is the mean"); StarShapeHull q2(inner, N, mr); q2.compute_from_primitives(l, b); for(int i=0;i<N;i+=7) c.same(radius(q, inner, b, i, phi), radius(q2, inner, b, i, phi), "hull from primitives around their mean", 1e-9); }
}
