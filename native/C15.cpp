#include "nv.hpp"
static void judge(Ctx& c, const Agent& a, const char* how) {
	Vector3d v = a.get_linear_velocity(), p = a.get_position(); double s = v.norm() > 0 ? 0.5 : 0, m = std::max(0.1, a.get_safety_margin());
	Vector3d ctr = v.norm() > 0 ? Vector3d(p + 0.5 * v / v.norm()) : p;
	const Ellipsoid& e = static_cast<const Ellipsoid&>(a.get_envelope());
	c.same(Vector3d(e.get_position()), ctr, how, 1e-9); c.same(Vector3d(e.get_reference_position()), ctr, how, 1e-9);
	c.same(e.get_axis_lengths(), Array3d(s + m, m, m), how, 1e-9);
	double h = v.norm() > 0 ? std::atan2(v(1) / v.norm(), v(0) / v.norm()) : 0;
	c.rotq(e.get_orientation(), Quaterniond(std::cos(h / 2), 0, 0, std::sin(h / 2)), how, 1e-7);
	if(v(2) == 0) c.check(e.point_is_inside(p), "the agent lies in its envelope", how);
}
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Agent a = r.agent();
	for(int k=r.in(1, 5);k>0;--k) switch(r.in(0, 5)) {
		case 0: a.set_pose(r.pose()); judge(c, a, "after set_pose"); break;
		case 1: a.set_position(r.vec()); judge(c, a, "after set_position"); break;
		case 2: a.set_orientation(r.quat()); judge(c, a, "after set_orientation"); break;
		case 3: { Vector3d v = r.vec("vel"); if(r.coin()) v(2) = 0; a.set_linear_velocity(v); judge(c, a, "after set_linear_velocity"); break; }
		case 4: a.set_angular_velocity(r.vec()); judge(c, a, "after set_angular_velocity"); break;
		case 5: a.transform(r.pose()); judge(c, a, "after transform"); break;
	}
	Agent t = a.transformed(r.pose()); judge(c, t, "transformed agent");
	a.set_safety_margin(r.margin()); a.set_position(r.vec()); judge(c, a, "after changing margin and position");
}
