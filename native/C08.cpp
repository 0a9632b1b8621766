#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Ell e = r.ellipsoid("e", true); Vector3d y = r.vec("y"), w = r.vec("w");
	if(std::hypot(w(0), w(1)) < 1e-2) return;
	Agent a = r.agent(); a.set_position(to_world(e.get_pose(), y)); a.set_linear_velocity(rot(e.get_orientation(), w));
	Array3d l = e.get_axis_lengths() + e.get_safety_margin();
	double A = w(0)*w(0)/(l(0)*l(0)) + w(1)*w(1)/(l(1)*l(1)), B = 2*(y(0)*w(0)/(l(0)*l(0)) + y(1)*w(1)/(l(1)*l(1))), C = y(0)*y(0)/(l(0)*l(0)) + y(1)*y(1)/(l(1)*l(1)) - 1, D = B*B - 4*A*C;
	if(std::abs(D) < 1e-6 * (1 + B * B)) return;
	std::string before = snap(e); Vector3d ref = e.get_reference_position();
	e.shift_reference_point(a);
	c.check(snap(e) == before, "nothing but the reference point changes", before, "->", snap(e));
	Vector3d z = in_frame(e.get_pose(), e.get_reference_position());
	if(D < 0) { c.check(e.get_reference_position() == ref, "no crossing leaves the reference point alone"); return; }
	double t = -B / (2 * A);
	c.same(z, Vector3d(y(0) + t * w(0), y(1) + t * w(1), 0), "middle of the chord", 1e-6);
	c.check(e.point_is_inside(e.get_reference_position()) || -C + B * B / (4 * A) < 1e-6, "inside the obstacle", z.transpose());
}
