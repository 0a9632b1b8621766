#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Ell e = r.ellipsoid(); if(r.coin(0.5)) e.set_axis_lengths(r.lengths("thin", true, e.get_safety_margin().minCoeff() > 1e-3)); Agent a = r.agent();
	Vector3d y = in_frame(e.get_pose(), a.get_position());
	if(y.norm() < 1e-2) return;
	Array3d l = e.get_axis_lengths() + e.get_safety_margin() + a.get_safety_margin();
	Vector3d g(y(0) / (l(0) * l(0)), y(1) / (l(1) * l(1)), y(2) / (l(2) * l(2)));
	Vector3d n = e.compute_normal_to_agent(a);
	c.same(n.norm(), 1., "unit length"); c.check(n.dot(y) > 0, "points outward", n.transpose());
	c.same(n, Vector3d(g.normalized()), "parallel to the gradient of the distance");
	Array3d k; for(int i=0;i<3;++i) k(i) = r.in(1, 3); r.log << " curvature=" << k.transpose(); e.set_curvature_factor(k);
	if((y.array() / l).abs().maxCoeff() < 0.05) return;
	n = e.compute_normal_to_agent(a);
	c.same(n.norm(), 1., "unit length for whole curvature"); c.check(n.dot(y) > 0, "points outward for whole curvature", n.transpose());
}
