#include "nv.hpp"
// obstacles whose pairwise intersection is an arbitrary given graph
struct Node: public Ellipsoid {
	int id; const std::vector<std::vector<char> >* adj;
	Node(int id, const std::vector<std::vector<char> >* adj): Ellipsoid(std::string("n") + char('a' + id)), id(id), adj(adj) { this->set_position(Vector3d(10 * id, 3 * id * id, 0)); }
	bool is_intersecting_ellipsoid(const Ellipsoid& o) const { return (*adj)[id][static_cast<const Node&>(o).id]; }
	std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d&, const Vector3d&) { return std::make_pair(false, std::make_pair(Vector3d(0, 0, 0), Vector3d(0, 0, 0))); }
};
static void judge(Ctx& c, const List& in, const List& out, const std::string& what, const std::function<bool(int, int)>& meets) {
	int n = in.size(); std::vector<int> root(n); for(int i=0;i<n;++i) root[i] = i;
	std::function<int(int)> find = [&](int i) { return root[i] == i ? i : root[i] = find(root[i]); };
	std::vector<char> any(n, 0);
	for(int i=0;i<n;++i) for(int j=i+1;j<n;++j) if(meets(i, j)) { root[find(i)] = find(j); any[i] = any[j] = 1; }
	std::map<Obstacle*, int> where, times; std::set<Obstacle*> self;
	int g = 0;
	for(auto& o : out) {
		++g;
		bool is_in = false; for(auto& i : in) is_in |= (i == o);
		if(is_in) { ++times[o.get()]; where[o.get()] = g; self.insert(o.get()); }
		else if(c.check(o->get_type() == "Aggregate", "an output is an input or an aggregate", what)) for(auto& p : static_cast<Aggregate&>(*o).get_primitives()) { ++times[p.get()]; where[p.get()] = g; }
	}
	for(int i=0;i<n;++i) {
		if(!c.check(times[in[i].get()] == 1, "every obstacle appears exactly once", what, "obstacle", i, "appears", times[in[i].get()])) return;
		c.check(any[i] ? !self.count(in[i].get()) : self.count(in[i].get()) == 1, "an obstacle is returned as itself exactly when it meets no other", what, "obstacle", i);
	}
	c.check(times.size() == in.size(), "nothing else appears", what);
	for(int i=0;i<n;++i) for(int j=i+1;j<n;++j) c.check((where[in[i].get()] == where[in[j].get()]) == (find(i) == find(j)), "two obstacles share an aggregate exactly when a chain connects them", what, i, j);
}
static void graph(Ctx& c, int n, unsigned long bits) {
	std::vector<std::vector<char> > adj(n, std::vector<char>(n, 0)); int b = 0; std::string what = "n=" + std::to_string(n) + " edges";
	for(int i=0;i<n;++i) for(int j=i+1;j<n;++j, ++b) if(bits >> b & 1) { adj[i][j] = adj[j][i] = 1; what += " " + std::to_string(i) + "-" + std::to_string(j); }
	List in; for(int i=0;i<n;++i) in.push_back(std::make_shared<Node>(i, &adj));
	judge(c, in, Aggregation::aggregate_obstacles(in), what, [&](int i, int j) { return adj[i][j]; });
}
void once(Ctx& c) { for(int n=0;n<=5;++n) for(unsigned long b=0;b<(1ul << (n * (n - 1) / 2));++b) graph(c, n, b); }
void trial(R& r, Ctx& c) {
	if(r.coin(0.7)) { int n = r.in(6, 8); unsigned long b = r.u(); if(r.coin()) b &= r.u(); if(r.coin()) b &= r.u(); b &= (1ul << (n * (n - 1) / 2)) - 1; graph(c, n, b); return; }
	int n = r.in(1, 6); List in;
	for(int i=0;i<n;++i) { Ellipsoid e(std::string(1, char('a' + (i * 3) % 7)), State(Vector3d(r.unif(-4, 4), r.unif(-4, 4), 0), r.zquat())); e.set_axis_lengths(Array3d(r.pos(0.3, 1.5), r.pos(0.3, 1.5), 1)); in.push_back(P(e)); }
	judge(c, in, Aggregation::aggregate_obstacles(in), "ellipsoids", [&](int i, int j) { return in[i]->is_intersecting(*in[j]); });
}
