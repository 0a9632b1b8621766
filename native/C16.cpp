#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	std::unique_ptr<Agent> a(new Agent(r.agent())); if(r.coin(0.8)) a->set_linear_velocity(r.vec("vel"));
	std::string s = snap(*a);
	std::unique_ptr<Agent> b(new Agent(*a)); c.check(snap(*b) == s, "a copy has the same state, margin and envelope", snap(*b), s);
	Pose q = r.pose("q"); std::unique_ptr<Agent> t(new Agent(a->transformed(q)));
	c.check(snap(*a) == s, "transforming leaves the original alone", snap(*a), s);
	Agent u(*a);
	c.same(Vector3d(t->get_position()), to_world(q, a->get_position()), "transformed position"); c.rotq(t->get_orientation(), q.get_orientation() * a->get_orientation(), "transformed orientation");
	c.check(t->get_linear_velocity() == a->get_linear_velocity() && t->get_angular_velocity() == a->get_angular_velocity() && t->get_safety_margin() == a->get_safety_margin(), "transformed agent keeps velocities and margin");
	std::string tb = snap(*t);
	switch(r.in(0, 3)) { case 0: b->set_position(r.vec()); break; case 1: b->set_linear_velocity(r.vec()); break; case 2: b->transform(q); break; case 3: b->set_pose(q); b->set_safety_margin(9); b->set_orientation(r.quat()); }
	c.check(snap(*a) == s, "changing the copy leaves the original alone"); c.check(snap(u) == s, "changing one copy leaves the other alone"); c.check(snap(*t) == tb, "changing a copy leaves the transformed agent alone");
	std::string bs = snap(*b);
	a->set_position(r.vec()); a->set_linear_velocity(r.vec()); 
	c.check(snap(*b) == bs, "changing the original leaves the copy alone"); c.check(snap(*t) == tb, "changing the original leaves the transformed agent alone");
	a.reset(); c.check(snap(*b) == bs && snap(*t) == tb, "destroying the original leaves the copies alone");
}
