#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Environment env(r.coin()); std::map<std::string, std::shared_ptr<Obstacle> > model;
	std::vector<std::string> names = {"a", "b", "c", "", "aggregate", "aa", "unknown"};
	auto lookup = [&](const std::string& n) { try { return env[n]; } catch(const Exceptions::ObstacleNotInEnvironmentException&) { return std::shared_ptr<Obstacle>(); } };
	for(int k=r.in(1, 14);k>0;--k) {
		std::string n = names[r.in(0, 6)]; int op = r.in(0, 3); r.log << " op" << op << "(" << n << ")";
		if(op <= 1) { auto o = P(Ellipsoid(n, r.unif(-50, 50), r.unif(-50, 50), 0)); bool threw = false; try { env.add_obstacle(o); } catch(const Exceptions::ObstacleAlreadyExistsException&) { threw = true; } c.check(threw == (model.count(n) > 0), "adding a taken name raises the exception", n); if(!model.count(n)) model[n] = o; }
		else if(op == 2) { bool threw = false; try { env.remove_obstacle(n); } catch(const Exceptions::ObstacleNotInEnvironmentException&) { threw = true; } c.check(threw == (model.count(n) == 0), "removing an unknown name raises the exception", n); model.erase(n); }
		else if(r.coin()) env.update(); else lookup(n);
		if(op == 3 && r.coin(0.5)) env.set_aggregated(!env.is_aggregated());
		env.set_aggregated(env.is_aggregated());
		for(auto& x : names) { bool listed = false; if(env.is_aggregated()) for(auto& o : env.get_obstacle_list()) listed |= o->get_name() == x; auto got = lookup(x); if(model.count(x)) c.check(got == model[x], "looking up a name returns what was registered under it", x); else if(!listed) c.check(!got, "an unknown name is not found", x); }
	}
}
