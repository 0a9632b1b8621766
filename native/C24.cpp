#include "nv.hpp"
void once(Ctx& c) {
	Agent a; a.set_linear_velocity(Vector3d(1, 2, 3)); for(int k=0;k<8;++k) c.check(Modulation::modulate_velocity(a, Environment(k & 1), k & 2, k & 4) == Vector3d(1, 2, 3), "no obstacle: velocity unchanged");
	Environment env(false); env.add_obstacle(P(Ellipsoid("e"))); env.update(); for(double z : {0., 1.}) { Agent b; b.set_position(Vector3d(0, 0, z)); for(int k=0;k<8;++k) { b.set_linear_velocity(k & 1 ? Vector3d(1, 0, 0) : Vector3d(0, 0, 0)); c.check(!Modulation::modulate_velocity(b, env, false, k & 2, k & 4).hasNaN(), "no NaN at the centre"); } }
}
void trial(R& r, Ctx& c) {
	Agent a = r.agent(); a.set_linear_velocity(r.coin(0.15) ? Vector3d(0, 0, 0) : r.vec("vel")); int n = r.in(0, 3); Environment env(r.coin(0.3)); bool planar = r.coin();
	for(int i=0;i<n;++i) { Ell e = r.ellipsoid(std::string(1, char('a' + i)).c_str(), planar || r.coin()); if(r.coin(0.15)) e.set_position(a.get_position()); if(r.coin(0.1)) e.set_reference_position(a.get_position()); env.add_obstacle(P(e)); }
	env.update(); bool local = r.coin(), rep = r.coin(); double cd = r.coin() ? 1 : r.unif(0.2, 3), wp = r.coin() ? 2 : r.unif(0.3, 4); r.log << " local=" << local << " repulsion=" << rep << " planar=" << planar << " critical=" << cd << " power=" << wp;
	std::vector<std::string> s, sr; for(auto& o : env.get_obstacle_list()) { s.push_back(snap(*o)); sr.push_back(snapr(*o)); }
	std::string sa = snap(a); bool meets = a.get_envelope().is_intersecting(env.get_obstacle_list());
	Vector3d v = Modulation::modulate_velocity(a, env, local, rep, planar, cd, wp);
	if(env.get_obstacle_list().empty() || (local && !meets)) c.check(v == a.get_linear_velocity(), "nothing near: velocity unchanged", v.transpose());
	c.check(!v.hasNaN(), "no NaN", v.transpose()); c.check(snap(a) == sa, "the agent is not changed");
	for(size_t i=0;i<s.size();++i) { const Obstacle& o = *env.get_obstacle_list()[i]; c.check(snap(o) == s[i], "nothing but reference points may change"); if(!planar) c.check(snapr(o) == sr[i], "no obstacle is changed"); }
}
