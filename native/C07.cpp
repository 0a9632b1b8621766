#include "nv.hpp"
static void test(Ctx& c, Ellipsoid& e, const Vector3d& y1, const Vector3d& y2) {
	Vector3d x1 = to_world(e.get_pose(), y1), x2 = to_world(e.get_pose(), y2);
	Array3d l = e.get_axis_lengths() + e.get_safety_margin();
	double dx = (y2(0) - y1(0)) / l(0), dy = (y2(1) - y1(1)) / l(1), px = y1(0) / l(0), py = y1(1) / l(1);
	if(std::sqrt(dx * dx + dy * dy) < 1e-3) return;
	double dist = std::abs(px * dy - py * dx) / std::sqrt(dx * dx + dy * dy);
	if(std::abs(dist - 1) < 1e-6) return;
	auto res = e.compute_interesection_points(x1, x2);
	c.check(res.first == (dist < 1), "an intersection is reported exactly when there is one", res.first, dist);
	if(!res.first || dist >= 1) return;
	for(Vector3d p : {res.second.first, res.second.second}) {
		Vector3d y = in_frame(e.get_pose(), p);
		c.same((y(0)/l(0))*(y(0)/l(0)) + (y(1)/l(1))*(y(1)/l(1)), 1., "reported points lie on the boundary", 1e-5);
		c.check(std::abs((y(0) - y1(0)) * (y2(1) - y1(1)) - (y(1) - y1(1)) * (y2(0) - y1(0))) < 1e-5 * (1 + (y2 - y1).norm()) * (1 + y.norm() + y1.norm()), "reported points lie on the line", y.transpose());
		c.check(std::abs(y(2)) < 1e-7 * (1 + y.norm()), "reported points lie in the mid-plane", y.transpose());
	}
	double half = std::sqrt(1 - dist * dist);
	Vector3d a = in_frame(e.get_pose(), res.second.first), b = in_frame(e.get_pose(), res.second.second);
	c.same(std::hypot((a(0) - b(0)) / l(0), (a(1) - b(1)) / l(1)), 2 * half, "the two points are the two crossings", 1e-4);
}
void once(Ctx& c) { Ellipsoid e("e"); e.set_axis_lengths(Array3d(2, 1, 1)); for(double x : {-1., 0., 0.5, 3.}) { test(c, e, Vector3d(x, -5, 0), Vector3d(x, 5, 0)); test(c, e, Vector3d(-5, x, 0), Vector3d(-4, x, 0)); }
	for(double s : {-1., 1.}) for(auto q : {std::make_pair(Vector3d(-5, s, 0), Vector3d(-4, s, 0)), std::make_pair(Vector3d(2 * s, -5, 0), Vector3d(2 * s, -4, 0))}) {       // exact tangents
		auto res = e.compute_interesection_points(q.first, q.second); Vector3d p = q.first(1) == s ? Vector3d(0, s, 0) : Vector3d(2 * s, 0, 0);
		c.check(res.first, "a tangent line meets the ellipse", q.first.transpose()); if(res.first) { c.same(res.second.first, p, "tangent point"); c.same(res.second.second, p, "tangent point"); }
	}
}
void trial(R& r, Ctx& c) { Ell e = r.ellipsoid(); Vector3d y1 = r.vec("y1"), y2 = r.vec("y2"); test(c, e, y1, y2); }
