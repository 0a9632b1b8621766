#include "nv.hpp"
typedef std::map<std::string, std::string> Obs;
template <class T> static std::string S(const T& t) { std::ostringstream o; o << std::setprecision(12) << t; return o.str(); }
static std::string sv(const Vector3d& v) { return S((v + Vector3d(0, 0, 0)).transpose()); }
static std::string sa(const Array3d& v) { return S(v.transpose()); }
static std::string sq(const Quaterniond& q) { Eigen::Vector4d c = q.coeffs().normalized(); if(c(3) < 0) c = -c; for(int i=0;i<4;++i) if(std::abs(c(i)) < 1e-12) c(i) = 0; std::ostringstream o; o << std::setprecision(7) << c.transpose(); return o.str(); }
static Obs view(const Pose& p) { return {{"position", sv(p.get_position())}, {"orientation", sq(p.get_orientation())}}; }
static Obs view(const State& s) { Obs o = view(s.get_pose()); o["position2"] = sv(s.get_position()); o["orientation2"] = sq(s.get_orientation()); o["lin"] = sv(s.get_linear_velocity()); o["ang"] = sv(s.get_angular_velocity()); return o; }
static Obs view(const Ellipsoid& e) { Obs o = view(e.get_state()); o["position3"] = sv(e.get_position()); o["orientation3"] = sq(e.get_orientation()); o["lin2"] = sv(e.get_linear_velocity()); o["ang2"] = sv(e.get_angular_velocity()); o["name"] = e.get_name(); o["type"] = e.get_type(); o["ref"] = sv(e.get_reference_position()); o["margin"] = sa(e.get_safety_margin()); o["lengths"] = sa(e.get_axis_lengths()); o["curv"] = sa(e.get_curvature_factor()); for(int i=0;i<3;++i) { o["l" + S(i)] = S(e.get_axis_lengths(i)); o["c" + S(i)] = S(e.get_curvature_factor(i)); } return o; }
static Obs view(const Agent& a) { Obs o = view(a.get_state()); o["pose"] = sv(a.get_pose().get_position()); o["position3"] = sv(a.get_position()); o["orientation3"] = sq(a.get_orientation()); o["lin2"] = sv(a.get_linear_velocity()); o["ang2"] = sv(a.get_angular_velocity()); o["margin"] = S(a.get_safety_margin()); return o; }
static void expect(Ctx& c, const Obs& got, const Obs& want, const char* l) { for(auto& w : want) { auto it = got.find(w.first); c.check(it != got.end() && it->second == w.second, l, w.first, "got", it == got.end() ? std::string("?") : it->second, "expected", w.second); } }
static Obs stv(const Vector3d& p, const Quaterniond& q, const Vector3d& l, const Vector3d& a) { return {{"position", sv(p)}, {"position2", sv(p)}, {"orientation", sq(q)}, {"orientation2", sq(q)}, {"lin", sv(l)}, {"ang", sv(a)}}; }
static Obs ev(const Obs& st, const std::string& n, const Vector3d& ref, const Array3d& m) { Obs o = st; o["name"] = n; o["type"] = "Ellipsoid"; o["ref"] = sv(ref); o["margin"] = sa(m); o["lengths"] = sa(A3(1)); o["curv"] = sa(A3(1)); return o; }
static void dirty() { volatile char b[4096]; for(size_t i=0;i<sizeof b;++i) b[i] = char(0x5A); std::vector<char*> v; for(int i=0;i<8;++i) { char* p = (char*)malloc(512); memset(p, 0x5A, 512); v.push_back(p); } for(char* p : v) free(p); }
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	dirty();
	Vector3d p = r.vec("p"), l = r.vec("l"), a = r.vec("a"), ref = r.vec("ref"), z(0, 0, 0); Quaterniond q = r.quat(), id(1, 0, 0, 0); Array3d m = r.margins(); double s = r.note("s", r.margin());
	expect(c, view(Pose()), {{"position", sv(z)}, {"orientation", sq(id)}}, "Pose()"); expect(c, view(Pose(p)), {{"position", sv(p)}, {"orientation", sq(id)}}, "Pose(position)"); expect(c, view(Pose(p, q)), {{"position", sv(p)}, {"orientation", sq(q)}}, "Pose(position, orientation)"); expect(c, view(Pose(p(0), p(1), p(2))), {{"position", sv(p)}, {"orientation", sq(id)}}, "Pose(x, y, z)"); expect(c, view(Pose(Pose(p, q))), {{"position", sv(p)}, {"orientation", sq(q)}}, "Pose(pose)");
	expect(c, view(State()), stv(z, id, z, z), "State()"); expect(c, view(State(Pose(p, q))), stv(p, q, z, z), "State(pose)"); expect(c, view(State(p(0), p(1), p(2))), stv(p, id, z, z), "State(x, y, z)"); expect(c, view(State(p)), stv(p, id, z, z), "State(position)"); expect(c, view(State(p, q)), stv(p, q, z, z), "State(position, orientation)"); expect(c, view(State(p, q, l, a)), stv(p, q, l, a), "State(everything)");
	State st(p, q, l, a); Obs sto = stv(p, q, l, a);
	dirty();
	{ std::unique_ptr<Ellipsoid> e(new Ellipsoid("n")); expect(c, view(*e), ev(stv(z, id, z, z), "n", z, A3(0)), "Ellipsoid(name)"); }
	{ dirty(); std::unique_ptr<Ellipsoid> e(new Ellipsoid("n", s)); expect(c, view(*e), ev(stv(z, id, z, z), "n", z, A3(s)), "Ellipsoid(name, margin)"); }
	{ dirty(); std::unique_ptr<Ellipsoid> e(new Ellipsoid("n", m)); expect(c, view(*e), ev(stv(z, id, z, z), "n", z, m), "Ellipsoid(name, margins)"); }
	expect(c, view(Ellipsoid("n", p(0), p(1), p(2))), ev(stv(p, id, z, z), "n", p, A3(0)), "Ellipsoid(name, x, y, z)"); expect(c, view(Ellipsoid("n", p(0), p(1), p(2), s)), ev(stv(p, id, z, z), "n", p, A3(s)), "Ellipsoid(name, x, y, z, margin)"); expect(c, view(Ellipsoid("n", p(0), p(1), p(2), m)), ev(stv(p, id, z, z), "n", p, m), "Ellipsoid(name, x, y, z, margins)");
	expect(c, view(Ellipsoid("n", st)), ev(sto, "n", p, A3(0)), "Ellipsoid(name, state)"); expect(c, view(Ellipsoid("n", st, s)), ev(sto, "n", p, A3(s)), "Ellipsoid(name, state, margin)"); expect(c, view(Ellipsoid("n", st, m)), ev(sto, "n", p, m), "Ellipsoid(name, state, margins)");
	expect(c, view(Ellipsoid("n", st, ref)), ev(sto, "n", ref, A3(0)), "Ellipsoid(name, state, reference)"); expect(c, view(Ellipsoid("n", st, ref, s)), ev(sto, "n", ref, A3(s)), "Ellipsoid(name, state, reference, margin)"); expect(c, view(Ellipsoid("n", st, ref, m)), ev(sto, "n", ref, m), "Ellipsoid(name, state, reference, margins)");
	Obs ao = stv(z, id, z, z); ao["margin"] = S(0.); expect(c, view(Agent()), ao, "Agent()"); ao["margin"] = S(s); expect(c, view(Agent(s)), ao, "Agent(margin)"); Obs bo = sto; bo["margin"] = S(0.); expect(c, view(Agent(st)), bo, "Agent(state)"); bo["margin"] = S(s); expect(c, view(Agent(st, s)), bo, "Agent(state, margin)");
	Ell e = r.ellipsoid("e"); e.set_curvature_factor(Array3d(1, 2, 3)); c.check(view(Ellipsoid(e)) == view(e), "a copy of an ellipsoid is equal");
	auto setter = [&](const char* l, std::function<void(Ellipsoid&)> f, Obs want) { Ellipsoid x(e); Obs b = view(e); f(x); Obs o = view(x); for(auto& w : want) b[w.first] = w.second; expect(c, o, b, l); };
	Vector3d n1 = r.vec("n1"); Quaterniond nq = r.quat("nq"); Array3d na = r.lengths("na");
	Obs wp = {{"position", sv(n1)}, {"position2", sv(n1)}, {"position3", sv(n1)}}, wq = {{"orientation", sq(nq)}, {"orientation2", sq(nq)}, {"orientation3", sq(nq)}}, wb = wp; wb.insert(wq.begin(), wq.end());
	setter("set_position", [&](Ellipsoid& x) { x.set_position(n1); }, wp); setter("set_position of numbers", [&](Ellipsoid& x) { x.set_position(n1(0), n1(1), n1(2)); }, wp); setter("set_orientation", [&](Ellipsoid& x) { x.set_orientation(nq); }, wq); setter("set_pose", [&](Ellipsoid& x) { x.set_pose(Pose(n1, nq)); }, wb);
	setter("set_linear_velocity", [&](Ellipsoid& x) { x.set_linear_velocity(n1); }, {{"lin", sv(n1)}, {"lin2", sv(n1)}}); setter("set_angular_velocity", [&](Ellipsoid& x) { x.set_angular_velocity(n1); }, {{"ang", sv(n1)}, {"ang2", sv(n1)}}); setter("set_name", [&](Ellipsoid& x) { x.set_name("new"); }, {{"name", "new"}}); setter("set_reference_position", [&](Ellipsoid& x) { x.set_reference_position(n1); }, {{"ref", sv(n1)}});
	setter("set_axis_lengths", [&](Ellipsoid& x) { x.set_axis_lengths(na); }, {{"lengths", sa(na)}, {"l0", S(na(0))}, {"l1", S(na(1))}, {"l2", S(na(2))}}); setter("set_curvature_factor", [&](Ellipsoid& x) { x.set_curvature_factor(na); }, {{"curv", sa(na)}, {"c0", S(na(0))}, {"c1", S(na(1))}, {"c2", S(na(2))}});
	auto sets = [&](const char* l, std::function<void(State&)> f, Obs want) { State x(st); Obs b = view(st); f(x); for(auto& w : want) b[w.first] = w.second; expect(c, view(x), b, l); };
	Obs w2 = {{"position", sv(n1)}, {"position2", sv(n1)}}, w3 = {{"orientation", sq(nq)}, {"orientation2", sq(nq)}}, w4 = w2; w4.insert(w3.begin(), w3.end());
	sets("State::set_position", [&](State& x) { x.set_position(n1); }, w2); sets("State::set_position of numbers", [&](State& x) { x.set_position(n1(0), n1(1), n1(2)); }, w2); sets("State::set_orientation", [&](State& x) { x.set_orientation(nq); }, w3); sets("State::set_pose", [&](State& x) { x.set_pose(Pose(n1, nq)); }, w4); sets("State::set_linear_velocity", [&](State& x) { x.set_linear_velocity(n1); }, {{"lin", sv(n1)}}); sets("State::set_angular_velocity", [&](State& x) { x.set_angular_velocity(n1); }, {{"ang", sv(n1)}});
	auto seta = [&](const char* l, std::function<void(Agent&)> f, Obs want) { Agent x(st, s); Obs b = view(x); f(x); for(auto& w : want) b[w.first] = w.second; expect(c, view(x), b, l); };
	Obs a2 = w2; a2["position3"] = a2["pose"] = sv(n1); Obs a3 = w3; a3["orientation3"] = sq(nq); Obs a4 = a2; a4.insert(a3.begin(), a3.end());
	seta("Agent::set_position", [&](Agent& x) { x.set_position(n1); }, a2); seta("Agent::set_orientation", [&](Agent& x) { x.set_orientation(nq); }, a3); seta("Agent::set_pose", [&](Agent& x) { x.set_pose(Pose(n1, nq)); }, a4); seta("Agent::set_linear_velocity", [&](Agent& x) { x.set_linear_velocity(n1); }, {{"lin", sv(n1)}, {"lin2", sv(n1)}}); seta("Agent::set_angular_velocity", [&](Agent& x) { x.set_angular_velocity(n1); }, {{"ang", sv(n1)}, {"ang2", sv(n1)}}); seta("Agent::set_safety_margin", [&](Agent& x) { x.set_safety_margin(n1(0)); }, {{"margin", S(n1(0))}});
	Environment env(true), env2(false); c.check(env.is_aggregated() && !env2.is_aggregated() && Environment().is_aggregated(), "environment mode"); env.set_aggregated(false); c.check(!env.is_aggregated(), "set_aggregated");
}
