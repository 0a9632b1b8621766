#include "nv.hpp"
static std::multiset<std::string> shape(const List& l) { std::multiset<std::string> s; for(auto& o : l) s.insert(o->get_name()); return s; }
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	bool agg = r.coin(); Environment env(agg); std::map<std::string, std::shared_ptr<Obstacle> > model; List published; bool rows = false;
	for(int k=r.in(1, 10);k>0;--k) {
		std::string n(1, char('a' + r.in(0, 4))); int op = r.in(0, 3); r.log << " op" << op << "(" << n << ")";
		if(op <= 1) { if(!model.count(n)) { Ellipsoid e(n, r.unif(-3, 3), r.unif(-3, 3), 0); auto o = P(e); env.add_obstacle(o); model[n] = o; } }
		else if(op == 2) { if(model.count(n)) { env.remove_obstacle(n); model.erase(n); } }
		else {
			env.update(); published = env.get_obstacle_list(); rows = true;
			List all; for(auto& m : model) all.push_back(m.second);
			if(!agg) { c.check(published.size() == all.size(), "as many published as registered", published.size(), all.size()); for(auto& o : all) c.check(std::count(published.begin(), published.end(), o) == 1, "every registered obstacle is published once", o->get_name()); }
			else c.check(shape(published) == shape(Aggregation::aggregate_obstacles(all)), "the aggregation of the registered obstacles is published");
			for(auto& m : model) c.check(env[m.first] == m.second, "an update does not alter the registry", m.first);
			for(auto& x : {"a", "b", "c", "d", "e"}) if(!model.count(x)) { bool t = false; try { env[x]; } catch(const Exceptions::ObstacleNotInEnvironmentException&) { t = true; } c.check(t, "an update registers nothing", x); }
		}
		c.check(env.get_obstacle_list().size() == published.size() && std::equal(published.begin(), published.end(), env.get_obstacle_list().begin()), "the published list changes at updates only", rows);
	}
}
