#include "nv.hpp"
static bool inside2(const Ellipsoid& e, const Vector3d& x, double tol) { Vector3d y = in_frame(e.get_pose(), x); Array3d l = e.get_axis_lengths() + e.get_safety_margin(); return (y(0)/l(0))*(y(0)/l(0)) + (y(1)/l(1))*(y(1)/l(1)) <= 1 + tol; }
static double lev2(const Ellipsoid& e, const Vector3d& x) { Vector3d y = in_frame(e.get_pose(), x); Array3d l = e.get_axis_lengths() + e.get_safety_margin(); return (y(0)/l(0))*(y(0)/l(0)) + (y(1)/l(1))*(y(1)/l(1)); }
static bool common(const Ellipsoid& a, const Ellipsoid& b) {        // dense search for a common point of two plane ellipses
	double tol = 1e-6;
	if(inside2(a, b.get_position(), tol) || inside2(b, a.get_position(), tol)) return true;
	for(int pass=0;pass<2;++pass) { const Ellipsoid& e = pass ? b : a; const Ellipsoid& f = pass ? a : b; Array3d l = e.get_axis_lengths() + e.get_safety_margin();
		for(int i=0;i<2000;++i) { double t = 2 * M_PI * i / 2000; if(inside2(f, to_world(e.get_pose(), Vector3d(l(0) * std::cos(t), l(1) * std::sin(t), 0)), tol)) return true; } }
	return false;
}
static double gap(const Ellipsoid& a, const Ellipsoid& b) { double m = 1e9; Array3d l = a.get_axis_lengths() + a.get_safety_margin(); for(int i=0;i<2000;++i) { double t = 2 * M_PI * i / 2000; m = std::min(m, lev2(b, to_world(a.get_pose(), Vector3d(l(0) * std::cos(t), l(1) * std::sin(t), 0)))); } return m; }
void once(Ctx& c) {
	Obstacle p("p"), q("q"); Ellipsoid e("e"); Aggregate g({P(e)}); List l{P(e), P(p)}; auto& i = static_cast<const Obstacle&>(p);
	c.check(!i.is_intersecting(e) && !e.is_intersecting(p) && !i.is_intersecting(q) && !i.is_intersecting(g) && !i.is_intersecting(l), "a plain obstacle intersects nothing");
	c.check(!p.point_is_inside(p.get_position()), "a plain obstacle contains no point");
	c.check(!p.compute_interesection_points(Vector3d(-1, 0, 0), Vector3d(1, 0, 0)).first, "no line crosses a plain obstacle");
}
void trial(R& r, Ctx& c) {
	Ell a = r.ellipsoid("a", true), b = r.ellipsoid("b", true);
	if(r.coin(0.3)) b.set_position(a.get_position() + 0.3 * (b.get_position() - a.get_position()));
	bool i = a.is_intersecting(b);
	if(i && !common(a, b)) c.check(gap(a, b) < 1.01, "a reported intersection has a common point", gap(a, b));
	if(inside2(a, b.get_position(), -1e-9) || inside2(b, a.get_position(), -1e-9)) c.check(i, "a centre inside the other is reported");
	int n = r.in(2, 40); bool m = r.coin();
	auto s = b.sample_from_parameterization(n, m);
	c.check(s.cols() == n && s.rows() == 3, "as many samples as asked for", s.rows(), s.cols());
	if(s.cols() == n && s.rows() == 3) for(int k=0;k<n;++k) { Vector3d y = in_frame(b.get_pose(), s.col(k)); Array3d l = b.get_axis_lengths() + (m ? b.get_safety_margin() : A3(0)); c.same((y(0)/l(0))*(y(0)/l(0)) + (y(1)/l(1))*(y(1)/l(1)), 1., "samples lie on the boundary", 1e-6); }
	List l; bool any = false; int k = r.in(0, 4);
	for(int j=0;j<k;++j) { Ell e = r.ellipsoid(("m" + std::to_string(j)).c_str(), true); any |= a.is_intersecting(e); if(r.coin(0.3)) { Ell f = r.ellipsoid("w", true); any |= a.is_intersecting(f); auto g = std::make_shared<Aggregate>(); g->add_primitive(P(e)); g->add_primitive(P(f)); l.push_back(g); r.log << "(aggregate of the last two)"; } else l.push_back(P(e)); }
	c.check(a.is_intersecting(l) == any, "intersects a list exactly when it intersects a member", any, k);
	List flat; for(auto& o : l) if(o->get_type() == "Ellipsoid") flat.push_back(o);
	if(!flat.empty()) { Aggregate g(flat); bool any2 = false; for(auto& p : g.get_primitives()) any2 |= a.is_intersecting(*p); c.check(a.is_intersecting(g) == any2, "intersects an aggregate exactly when it intersects a primitive", any2); }
}
