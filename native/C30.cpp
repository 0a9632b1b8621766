#include "nv.hpp"
static double steep(const Obstacle& e, const Agent& a) { Vector3d y = in_frame(e.get_pose(), a.get_position()) - in_frame(e.get_pose(), e.get_reference_position()), z = in_frame(e.get_pose(), a.get_position()); if(y.norm() < 1e-2 || z.norm() < 1e-2) return 0; return std::abs(e.compute_normal_to_agent(a).dot(y)) / y.norm(); }
static Vector3d along(const Obstacle& o, const Agent& a, double d) { return std::exp(-(std::max(1., d) - 1)) * Vector3d(o.get_linear_velocity() + o.get_angular_velocity().cross(Vector3d(a.get_position() - o.get_position()))); }
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	int n = r.coin(0.6) ? 1 : r.in(2, 4); bool planar = r.coin(0.3); Agent a = r.agent(); if(planar) { Vector3d p = a.get_position(); p(2) = r.coin() ? 0 : p(2); a.set_position(p); }
	Vector3d vel = r.coin(0.4) ? Vector3d(r.dir("vel") * r.pos()) : r.vec("vel"); if(planar && r.coin()) vel(2) = 0; a.set_linear_velocity(vel); Environment env(false), other(false); r.log << " n=" << n << " planar=" << planar;
	for(int i=0;i<n;++i) { Ell e = r.ellipsoid(std::string(1, char('a' + i)).c_str(), planar, true); if(r.coin(0.8)) { e.set_linear_velocity(r.vec("lin")); if(r.coin()) e.set_angular_velocity(r.vec("ang")); } if(n == 1 && r.coin(0.2)) a.set_linear_velocity(vel = along(e, a, e.compute_distance_to_agent(a)));
		if(steep(e, a) < 3e-2) return; env.add_obstacle(P(e)); other.add_obstacle(P(e)); }
	env.update(); other.update(); double cd = r.coin() ? 1 : r.unif(0.3, 3), wp = r.coin() ? 2 : r.unif(0.5, 3); const List& l = env.get_obstacle_list();
	Vector3d plain = Modulation::modulate_velocity(a, env, false, false, false, cd, wp);
	if(n == 1) {
		auto m = Modulation::compute_modulation_matrix(a, *l[0]); Vector3d u = along(*l[0], a, std::get<2>(m)), w = vel - u, want = u + std::get<0>(m) * w; double cs = w.norm() ? Vector3d(std::get<0>(m) * w).normalized().dot(w.normalized()) : 1;
		if(w.norm() < 1e-9) c.check((plain - u).norm() < 1e-6 * (1 + u.norm()), "agent moving with the obstacle", plain.transpose(), "expected", u.transpose());
		if(w.norm() > 1e-2 && cs > -0.999) c.check((plain - want).norm() < 4e-6 * (1 + vel.norm() + u.norm() + want.norm()), "moving obstacle: its velocity plus the matrix times the relative velocity", plain.transpose(), "expected", want.transpose());
	}
	Vector3d s(0, 0, 0); for(auto& o: l) s += o->generate_repulsion(a, 1.1);
	if(std::abs(s.norm() - 1e-4) > 1e-6 && s.allFinite()) {
		Vector3d want = s.norm() > 1e-4 ? Vector3d(plain + s) : plain; Vector3d got = Modulation::modulate_velocity(a, env, false, true, false, cd, wp);
		c.check((got - want).norm() < 1e-9 * (1 + want.norm()), "repulsions are added", got.transpose(), "expected", want.transpose());
	}
	bool meets = a.get_envelope().is_intersecting(l); Vector3d got = Modulation::modulate_velocity(a, env, true, false, false, cd, wp), want = meets ? plain : vel;
	c.check((got - want).norm() < 1e-9 * (1 + want.norm()), "local mode", meets, got.transpose(), "expected", want.transpose());
	if(planar) {
		List k; for(auto& o: other.get_obstacle_list()) { o->shift_reference_point(a); if(steep(*o, a) < 3e-2) return; }
		Vector3d want = Modulation::modulate_velocity(a, other, false, false, false, cd, wp), got = Modulation::modulate_velocity(a, env, false, false, true, cd, wp);
		c.check((got - want).norm() < 1e-9 * (1 + want.norm()), "planar modulation: that of the shifted obstacles", got.transpose(), "expected", want.transpose());
	}
}
