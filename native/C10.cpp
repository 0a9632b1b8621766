#include "nv.hpp"
void once(Ctx&) {}
static void judge(Ctx& c, const Aggregate& g, List in, const char* how) {
	std::sort(in.begin(), in.end(), [](const std::shared_ptr<Obstacle>& a, const std::shared_ptr<Obstacle>& b) { return a->get_name() < b->get_name(); });
	Vector3d m(0, 0, 0); std::string name = "aggregate"; for(auto& o : in) { m += o->get_position(); name += "_" + o->get_name(); } m /= in.size();
	c.check(g.get_primitives().size() == in.size() && std::equal(in.begin(), in.end(), g.get_primitives().begin()), "primitives are those supplied, by name", how);
	c.check(g.get_name() == name, "canonical name", how, g.get_name(), name);
	c.same(Vector3d(g.get_position()), m, "at the mean position"); c.same(Vector3d(g.get_reference_position()), m, "reference point at the mean position");
	for(auto& o : g.get_primitives()) c.check(o->get_reference_position() == g.get_reference_position(), "primitives share the reference point", how, o->get_name());
	c.check(g.get_type() == "Aggregate", "type");
}
void trial(R& r, Ctx& c) {
	int n = r.in(1, 5); List in, in2; r.log << " n=" << n;
	std::vector<std::string> names; for(int i=0;i<n;++i) names.push_back(r.name(names));
	for(int i=0;i<n;++i) { Ell e = r.ellipsoid(names[i].c_str(), true); in.push_back(P(e)); in2.push_back(P(e)); }
	std::vector<std::string> before; for(auto& o : in) before.push_back(snap(*o));
	Aggregate g(in); judge(c, g, in, "constructor");
	for(int i=0;i<n;++i) c.check(snap(*in[i]) == before[i], "aggregating leaves the primitives otherwise unchanged");
	Aggregate h; List added; for(auto& o : in2) { added.push_back(o); h.add_primitive(o, r.coin()); judge(c, h, added, "one at a time"); }
	Vector3d p = r.vec("new reference"); g.set_reference_position(p);
	c.check(g.get_reference_position() == p, "set_reference_position of the aggregate"); for(auto& o : in) c.check(o->get_reference_position() == p, "set_reference_position reaches the primitives", o->get_name());
}
