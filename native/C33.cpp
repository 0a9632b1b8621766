#include "nv.hpp"
// Built with the address sanitizer and the assertions of libstdc++ and Eigen: an access outside its container ends the run, which is the failure looked for.
static void hull(R& r, Ctx& c, int n, const List& l, const Vector3d& ref, bool inner) {
	r.log << " hull of " << n << " columns, " << l.size() << " primitives, inner=" << inner;
	StarShapeHull h(inner, n, r.pos(0.1, 1));
	h.compute_from_primitives(l, ref); if(r.coin(0.2) && !l.empty()) h.compute_from_primitives(l);
	for(int k=0;k<6;++k) {
		double t = k == 0 ? M_PI : k == 1 ? -M_PI : k == 2 ? M_PI - 5e-5 : r.unif(-M_PI, M_PI), q = r.pos(); Vector3d x = h.get_position() + q * Vector3d(std::cos(t), std::sin(t), 0); r.log << " bearing=" << t;
		D(h, x); h.point_is_inside(x); Agent a; a.set_position(x); h.compute_normal_to_agent(a);
	}
	h.is_closed();
}
static List scene(R& r, int n, double span) {
	List l; for(int i=0;i<n;++i) { Ellipsoid e(std::string("o") + char('a' + i), State(Vector3d(r.unif(-span, span), r.unif(-span, span), 0), r.zquat(), r.coin() ? r.vec("lin") : Vector3d(0, 0, 0), Vector3d(0, 0, r.coin() ? r.real() : 0))); e.set_axis_lengths(Array3d(r.pos(0.3, 1.5), r.pos(0.3, 1.5), 1)); l.push_back(P(e)); }
	return l;
}
static void lookup(Ctx& c, int n, const std::vector<double>& v, double x, int row, int rows) {
	Eigen::MatrixXd A = Eigen::MatrixXd::Zero(rows, n); for(int i=0;i<n;++i) A(row, i) = v[i];
	Vector3d p(0, 0, 0); p(row) = x; auto f = MathTools::find_closest_points(A, p, row);
	c.check(f.first < unsigned(n) && f.second < unsigned(n), "the positions found exist", f.first, f.second, "of", n, "searched", x);
}
void once(Ctx& c) {
	R r(3); List none;
	for(int n=2;n<=9;++n) for(int k=0;k<2;++k) { hull(r, c, n, scene(r, 2, 1), Vector3d(0, 0, 0), k); hull(r, c, n, none, Vector3d(1, 2, 0), k); }
	for(int n=1;n<=4;++n) for(int row=0;row<3;++row) for(double x : {-10., 0., 0.5, 1., 2., 3., 10.}) { std::vector<double> v; for(int i=0;i<n;++i) v.push_back(i); lookup(c, n, v, x, row, 3); }
	Aggregation::aggregate_obstacles(none);
	for(int n=1;n<=4;++n) for(int k=0;k<2;++k) Modulation::weight_obstacles(Eigen::ArrayXd::Constant(n, k ? 0.5 : 2), 1, 1);
	Agent a; Environment e; Modulation::modulate_velocity(a, e, false, false, false); Modulation::modulate_velocity(a, e, true, true, true);
	Eigen::MatrixXd A(3, 0); MathTools::sorted_cols_by_theta(A); MathTools::gridspace({0, 0}, {1, 1}, {2, 3}); MathTools::gridspace({0, 0}, {1, 1}, {3, 2});
}
static void one(R& r, Ctx& c) {
	int what = r.in(0, 6); r.log << " case " << what;
	if(what == 0) hull(r, c, r.in(2, 60), scene(r, r.in(0, 3), 1.5), Vector3d(r.unif(-1, 1), r.unif(-1, 1), 0), r.coin());
	else if(what == 1) { int n = r.in(1, 9); std::vector<double> v(n); for(auto& x : v) x = r.unif(-4, 4); std::sort(v.begin(), v.end()); lookup(c, n, v, r.coin(0.3) ? v[r.in(0, n - 1)] : r.unif(-5, 5), r.in(0, 2), 3); }
	else if(what == 2) { List l = scene(r, r.in(0, 8), 4); Aggregation::aggregate_obstacles(l); Aggregate g; for(auto& o : l) g.add_primitive(o, false); if(l.size() > 1) l[0]->is_intersecting(*l[1]); }
	else if(what == 3) {
		Environment env(r.coin()); std::vector<std::string> names = {"a", "b", "c", "", "aggregate", "aa", "unknown"};
		for(int k=r.in(1, 10);k>0;--k) {
			std::string n = names[r.in(0, 6)]; int op = r.in(0, 4); r.log << " op" << op << "(" << n << ")";
			try {
				if(op <= 1) env.add_obstacle(P(Ellipsoid(n, r.unif(-5, 5), r.unif(-5, 5), 0)));
				else if(op == 2) env.remove_obstacle(n);
				else if(op == 3) env[n]->get_name();
				else { env.set_aggregated(r.coin()); env.update(); }
			} catch(const Exceptions::ObstacleAlreadyExistsException&) {} catch(const Exceptions::ObstacleNotInEnvironmentException&) {}
		}
	}
	else if(what == 4) { int n = r.in(1, 7); Eigen::ArrayXd d(n); for(int i=0;i<n;++i) d(i) = r.unif(0, 4); auto w = Modulation::weight_obstacles(d, r.unif(0, 2), r.pos()); c.check(w.size() == n, "one weight per distance", w.size(), n); }
	else if(what == 5) {
		Environment env(r.coin(0.3)); for(auto& o : scene(r, r.in(0, 4), 6)) env.add_obstacle(o); env.update();
		Agent a(r.note("margin", r.margin())); a.set_position(Vector3d(r.unif(-9, 9), r.unif(-9, 9), 0)); a.set_linear_velocity(r.vec("velocity"));
		Modulation::modulate_velocity(a, env, r.coin(), r.coin(), r.coin());
	}
	else {
		int n = r.in(2, 30); auto e = r.ellipsoid("e", true); auto s = e.sample_from_parameterization(n, r.coin()); c.check(s.cols() == n, "as many samples as asked for", s.cols(), n);
		Eigen::MatrixXd A = Eigen::MatrixXd::Random(r.in(2, 4), r.in(0, 8)); auto B = MathTools::sorted_cols_by_theta(A); c.check(B.cols() == A.cols(), "as many columns"); int x = r.in(2, 6), y = r.in(2, 6); c.check(int(MathTools::gridspace({0, 1}, {2, 3}, {x, y}).size()) == x * y, "as many points", x, y);
	}
}
void trial(R& r, Ctx& c) {
	try { one(r, c); } catch(const std::out_of_range& e) { c.check(false, "no element is missing", e.what()); } catch(const std::bad_alloc&) { c.check(false, "no absurd size"); }
}
