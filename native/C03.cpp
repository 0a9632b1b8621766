#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Ell e = r.ellipsoid(); if(r.coin(0.5)) e.set_axis_lengths(r.lengths("thin", true, e.get_safety_margin().minCoeff() > 1e-3)); Array3d m = r.margins("extra"); Vector3d x = r.vec("x");
	double d = D(e, x, m);
	c.same(d, level(e, x, m), "default curvature: sum of squared ratios");
	double s = r.note("scalar margin", r.margin());
	c.same(D(e, x, s), level(e, x, A3(s)), "scalar margin on every axis");
	c.same(D(e, x), level(e, x, A3(0)), "no margin by default");
	Agent a = r.agent(); c.same(e.compute_distance_to_agent(a), level(e, a.get_position(), A3(a.get_safety_margin())), "distance to an agent");
	Array3d k; for(int i=0;i<3;++i) k(i) = r.in(1, 3); r.log << " curvature=" << k.transpose(); e.set_curvature_factor(k);
	Vector3d dir = r.dir(); double t1 = r.pos(), t2 = t1 * r.unif(1.01, 2);
	Array3d l = e.get_axis_lengths() + e.get_safety_margin() + m;
	auto at = [&](double t) { return D(e, to_world(e.get_pose(), t * dir), m); };
	auto lev = [&](double t) { double s = 0; for(int i=0;i<3;++i) s += std::pow(std::abs(t * dir(i) / l(i)), 2 * k(i)); return s; };
	c.check(at(t1) >= 0, "never negative", at(t1)); c.check(at(t1) < at(t2), "grows along rays", at(t1), at(t2));
	c.same(at(t1), lev(t1), "level function of the inflated ellipsoid"); c.same(at(t2), lev(t2), "level function of the inflated ellipsoid");
	c.check(std::abs(D(e, e.get_position(), m)) < 1e-9, "zero at the centre");
}
