#include "nv.hpp"
struct Probe: public Ellipsoid { bool closed; Probe(const Ellipsoid& e, bool closed): Ellipsoid(e), closed(closed) {} bool is_closed() const { return closed; } void other() { set_type("Probe"); } };
void once(Ctx& c) {
	Obstacle p("p"); Ellipsoid e("e");
	c.check(p.is_closed() && e.is_closed() && static_cast<Obstacle&>(e).is_closed(), "ellipsoids and plain obstacles are closed");
}
void trial(R& r, Ctx& c) {
	Agent a = r.agent(); Vector3d t = r.vec("target"); int n = r.in(0, 4); List l; bool expect = true; r.log << " n=" << n;
	for(int i=0;i<n;++i) { Ell e = r.ellipsoid("e", true); bool closed = r.coin(0.7); r.log << " closed=" << closed; auto p = std::make_shared<Probe>(e, closed); if(r.coin(0.3)) p->other(); l.push_back(p); if(closed && e.point_is_inside(t) != e.point_is_inside(a.get_position())) expect = false; }
	if(r.coin(0.03)) { List pr; pr.push_back(P(r.ellipsoid("g", true))); auto g = std::make_shared<Aggregate>(pr); l.push_back(g); if(g->is_closed() && g->point_is_inside(t) != g->point_is_inside(a.get_position())) expect = false; }
	c.check(a.exist_path(t, l) == expect, "a path exists exactly when no closed obstacle separates agent and target", expect);
	Ell o = r.ellipsoid("o", true); Vector3d p = a.get_position(); if(r.coin()) { p = o.get_position() + 2 * r.dir(); a.set_position(p); } double m = std::max(0.1, a.get_safety_margin());
	Ellipsoid ball("envelope", State(p)); ball.set_axis_lengths(A3(m)); c.check(a.in_obstacle(o) == ball.is_intersecting(o), "in an obstacle exactly when the margin ball meets it");
	if(r.coin(0.03)) { List pr2; pr2.push_back(P(o)); Aggregate g(pr2); c.check(a.in_obstacle(g) == ball.is_intersecting(o), "in an aggregate exactly when the margin ball meets a primitive"); }
}
