#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	List l; int n = r.in(1, 3); r.log << " n=" << n; for(int i=0;i<n;++i) { Ellipsoid e(std::string(1, char('a' + i)), State(Vector3d(r.unif(-2, 2), r.unif(-2, 2), 0), r.zquat()), r.margins()); e.set_axis_lengths(Array3d(r.pos(0.3, 3), r.pos(0.3, 3), 1)); l.push_back(P(e)); }
	Aggregate g(l); StarShapeHull in(true), out(false);
	for(int pass=0;pass<2;++pass) {
		in.compute_from_primitives(g.get_primitives(), g.get_reference_position()); out.compute_from_primitives(g.get_primitives(), g.get_reference_position());
		c.check(g.is_closed() == out.is_closed(), "closed exactly when the outer hull is");
		for(int k=0;k<60;++k) {
			Vector3d x = g.get_position() + r.pos() * r.dir("x"); Agent a; a.set_position(x); a.set_safety_margin(r.margin()); bool i = out.point_is_inside(x); for(auto& o : l) i = i || o->point_is_inside(x);
			c.check(g.point_is_inside(x) == i, "inside exactly when inside the outer hull or a primitive", i); const StarShapeHull& h = i ? in : out; Array3d m = r.margins();
			c.same(D(g, x, m), D(h, x, m), "distance of the right hull", 1e-9); c.same(g.compute_normal_to_agent(a), h.compute_normal_to_agent(a), "normal of the right hull", 1e-9);
		}
		l[0]->set_position(l[0]->get_position() + Vector3d(r.unif(-1, 1), r.unif(-1, 1), 0)); g.set_reference_position(g.get_position() + Vector3d(r.unif(-0.3, 0.3), 0, 0)); g.update_hull();
	}
}
