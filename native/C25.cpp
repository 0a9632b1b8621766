#include "nv.hpp"
static bool good(const Ellipsoid& e, const Agent& a) { Vector3d y = in_frame(e.get_pose(), a.get_position()) - in_frame(e.get_pose(), e.get_reference_position()), z = in_frame(e.get_pose(), a.get_position()); if(y.norm() < 1e-2 || z.norm() < 1e-2) return false; return std::abs(e.compute_normal_to_agent(a).dot(y)) / y.norm() > 3e-2; }
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	int n = r.coin(0.6) ? 1 : r.in(2, 4); Agent a = r.agent(); Vector3d vel = r.coin(0.4) ? Vector3d(r.dir("vel") * r.pos()) : r.vec("vel"); a.set_linear_velocity(vel); if(vel.norm() < 1e-2) return; Environment env(false); r.log << " n=" << n;
	for(int i=0;i<n;++i) { Ell e = r.ellipsoid(std::string(1, char('a' + i)).c_str(), false, true); if(!good(e, a)) return; env.add_obstacle(P(e)); }
	env.update(); double cd = r.coin() ? 1 : r.unif(0.3, 3), wp = r.coin() ? 2 : r.unif(0.5, 3);
	Vector3d v = Modulation::modulate_velocity(a, env, false, false, false, cd, wp); const List& l = env.get_obstacle_list();
	if(n == 1) { Vector3d m = std::get<0>(Modulation::compute_modulation_matrix(a, *l[0])) * vel; c.check((v - m).norm() < 2e-6 * (vel.norm() + m.norm()), "single obstacle at rest: modulation matrix times velocity", v.transpose(), "expected", m.transpose()); return; }
	Eigen::ArrayXd d(n); for(int i=0;i<n;++i) d(i) = l[i]->compute_distance_to_agent(a);
	if((d - cd).abs().minCoeff() < 1e-3) return;
	Eigen::ArrayXd w = Modulation::weight_obstacles(d, cd, wp); double s = 0; for(int i=0;i<n;++i) s += w(i) * Vector3d(std::get<0>(Modulation::compute_modulation_matrix(a, *l[i])) * vel).norm();
	c.check(std::abs(v.norm() - s) < 2e-6 * (1 + s), "speed is the weighted mean of the single speeds", v.norm(), s);
}
