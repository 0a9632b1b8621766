#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Pose p = r.pose("p"), q = r.pose("q"); Vector3d v = r.vec("v"), w = r.vec("w");
	c.same(Vector3d((p * q) * v), to_world(p, to_world(q, v)), "composition applies q then p");
	Pose s(p); s *= q; Pose t = p * q;
	c.same(s.get_position(), t.get_position(), "in-place composition agrees on position");
	c.rotq(s.get_orientation(), t.get_orientation(), "in-place composition agrees on orientation");
	c.same(Vector3d(p.inverse() * (p * v)), v, "inverse after pose is the identity");
	c.same(Vector3d(p * (p.inverse() * v)), v, "pose after inverse is the identity");
	c.same((Vector3d(p * v) - Vector3d(p * w)).norm(), (v - w).norm(), "distances are preserved");
	c.same(Vector3d(p * v), to_world(p, v), "a pose rotates and translates");
}
