#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Ell e = r.ellipsoid(); if(r.coin(0.2)) { Array3d k; for(int i=0;i<3;++i) k(i) = r.in(1, 2); e.set_curvature_factor(k); }
	Agent a = r.agent(); double d = e.compute_distance_to_agent(a);
	if(d < 1 || r.coin(0.3)) { Vector3d u = r.dir("u"); Array3d l = e.get_axis_lengths() + e.get_safety_margin() + a.get_safety_margin(); double s = r.coin(0.3) ? 1 : r.unif(1, 2); a.set_position(to_world(e.get_pose(), Vector3d(s * (l * u.array()).matrix()))); d = e.compute_distance_to_agent(a); }
	if(d < 1 - 1e-9) return;
	Vector3d n = e.compute_normal_to_agent(a), y = in_frame(e.get_pose(), a.get_position()) - in_frame(e.get_pose(), e.get_reference_position());
	if(y.norm() < 1e-2 || std::abs(n.dot(y)) / y.norm() < 1e-2) return;
	auto t = Modulation::compute_modulation_matrix(a, e); Matrix3d M = std::get<0>(t);
	c.same(std::get<2>(t), d, "returned distance is the distance to the agent"); c.same(Vector3d(std::get<1>(t).col(0)), n, "returned basis belongs to the normal");
	for(int k=0;k<3;++k) { Vector3d v = r.vec("v"), nw = rot(e.get_orientation(), n); double x = nw.dot(v), z = nw.dot(Vector3d(M * v)), f = 1 - 1 / std::max(1., d); c.check(std::abs(z - f * x) < 1e-5 * (1 + v.norm()), "normal component is scaled by 1-1/distance", z, f * x, d); }
}
