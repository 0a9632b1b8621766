#include "nv.hpp"
void once(Ctx& c) {
	Obstacle p("p"); Agent a; a.set_position(Vector3d(0.1, 0, 0)); const Obstacle& o = p;
	c.check(o.generate_repulsion(a, 1e9).norm() == 0, "a plain obstacle does not repel");
}
void trial(R& r, Ctx& c) {
	Ell e = r.ellipsoid(); Agent a = r.agent(); if(r.coin()) a.set_position(e.get_position() + r.unif(0.1, 2) * r.dir()); double t = r.coin() ? 1.1 : r.unif(0, 4); r.note("threshold", t);
	double d = e.compute_distance_to_agent(a); if(d < 1e-6 || std::abs(d - t) < 1e-9) return;
	Vector3d off = a.get_position() - e.get_reference_position();
	c.same(e.generate_repulsion(a, t), Vector3d(d < t ? Vector3d(2 / d * off) : Vector3d(0, 0, 0)), "ellipsoid repulsion"); c.same(e.compute_repulsion_vector(a), Vector3d(2 / d * off), "ellipsoid repulsion vector");
	if(std::abs(d - 1.1) > 1e-9) c.same(e.generate_repulsion(a), Vector3d(d < 1.1 ? Vector3d(2 / d * off) : Vector3d(0, 0, 0)), "default threshold");
	if(r.coin(0.6)) return;
	List l; int n = r.in(1, 3); for(int i=0;i<n;++i) l.push_back(P(r.ellipsoid(std::string(1, char('a' + i)).c_str(), true))); Aggregate g(l); if(r.coin()) a.set_position(g.get_position() + r.unif(0.1, 3) * r.dir());
	d = g.compute_distance_to_agent(a); off = a.get_position() - g.get_reference_position(); if(std::abs(d) < 1e-6 || std::abs(d - t) < 1e-9) return;
	Vector3d want = (g.point_is_inside(a.get_position()) ? -1 : 1) * 20 / d * off; c.same(g.compute_repulsion_vector(a), want, "aggregate repulsion vector"); c.same(g.generate_repulsion(a, t), Vector3d(d < t ? want : Vector3d(0, 0, 0)), "aggregate repulsion");
}
