#include "nv.hpp"
static void is(Ctx& c, const Quaterniond& got, const Quaterniond& given, const char* l) {
	c.check(std::abs(got.norm() - 1) < 1e-9, l, "norm", got.norm());
	Eigen::Vector4d a = got.coeffs(), b = given.coeffs().normalized();
	c.check(std::min((a - b).norm(), (a + b).norm()) < 1e-7, l, "got", a.transpose(), "given", b.transpose());
}
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Quaterniond q = r.quat(); double k = r.coin(0.3) ? 1 : r.coin(0.3) ? -1 : r.coin() ? r.unif(-3, -0.05) : r.unif(0.05, 3); if(r.coin(0.1)) k *= 1e-3; r.note("scale", k);
	Quaterniond g(k * q.w(), k * q.x(), k * q.y(), k * q.z()); Vector3d p = r.vec("p");
	is(c, Pose(p, g).get_orientation(), g, "pose keeps the supplied orientation as a unit quaternion");
	is(c, Pose(p(0), p(1), p(2), g.w(), g.x(), g.y(), g.z()).get_orientation(), g, "pose from seven numbers keeps a unit orientation");
	Pose s(p); s.set_orientation(g); is(c, s.get_orientation(), g, "set_orientation of a pose");
	State st(p, g); is(c, st.get_orientation(), g, "state built from an orientation");
	State st4(p, g, p, p); is(c, st4.get_orientation(), g, "state built from everything");
	State s2; s2.set_orientation(g); is(c, s2.get_orientation(), g, "set_orientation of a state"); is(c, s2.get_pose().get_orientation(), g, "pose of a state");
	Agent a; a.set_orientation(g); is(c, a.get_orientation(), g, "set_orientation of an agent");
	Agent a2(st); is(c, a2.get_orientation(), g, "agent built from a state");
	Ellipsoid e("e"); e.set_orientation(g); is(c, e.get_orientation(), g, "set_orientation of an obstacle");
	Ellipsoid e2("e", st); is(c, e2.get_orientation(), g, "obstacle built from a state");
	Ellipsoid e3("e"); e3.set_pose(Pose(p, g)); is(c, e3.get_orientation(), g, "set_pose of an obstacle");
	Pose a1 = r.pose("a"), b1 = r.pose("b");
	c.same((a1 * b1).get_orientation().norm(), 1., "composition is unit"); c.same(a1.inverse().get_orientation().norm(), 1., "inverse is unit");
	Pose cc(a1); cc *= b1; c.same(cc.get_orientation().norm(), 1., "in-place composition is unit");
}
