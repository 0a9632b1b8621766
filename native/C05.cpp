#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Ell e = r.ellipsoid(); if(r.coin(0.3)) e.set_axis_lengths(r.lengths("thin", true, e.get_safety_margin().minCoeff() > 1e-3)); Vector3d y = r.vec("y"); y(2) = 0;
	Array3d l = e.get_axis_lengths() + e.get_safety_margin();
	if(r.coin()) { double t = r.unif(-M_PI, M_PI), k = r.coin() ? r.unif(0.9, 0.9999) : r.unif(1.0001, 1.1); y = Vector3d(k * l(0) * std::cos(t), k * l(1) * std::sin(t), 0); r.log << " y=" << y.transpose(); }
	double lv = (y(0) / l(0)) * (y(0) / l(0)) + (y(1) / l(1)) * (y(1) / l(1));
	if(std::abs(lv - 1) < 1e-9) return;
	Vector3d x = to_world(e.get_pose(), y);
	bool in = e.point_is_inside(x);
	c.check(in == (lv <= 1), "inside exactly when the level is at most 1", in, lv);
	c.check(in == (D(e, x, Array3d(0, 0, 0)) <= 1), "inside test agrees with the distance", in, D(e, x, Array3d(0, 0, 0)));
	Pose q = r.pose("moved by"); Ellipsoid f(e); f.set_pose(Pose(to_world(q, e.get_position()), q.get_orientation() * e.get_orientation()));
	c.check(f.point_is_inside(to_world(q, x)) == in, "invariant under motion");
	f = e; f.set_linear_velocity(r.vec()); f.set_angular_velocity(r.vec()); f.set_reference_position(r.vec()); f.set_name("x");
	c.check(f.point_is_inside(x) == in, "depends on pose, half-lengths and margin only");
}
