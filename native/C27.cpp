#include "nv.hpp"
static void line(Ctx& c, const std::vector<double>& v, double a, double b, int n) { if(!c.check(int(v.size()) == n, "number of points", v.size(), n)) return; c.check(v.front() == a && v.back() == b, "starts and ends at the bounds", v.front(), v.back()); for(int i=0;i<n;++i) c.check(std::abs(v[i] - (a + (b - a) * i / (n - 1))) < 1e-9 * (1 + std::abs(a) + std::abs(b)), "evenly spaced", i, v[i]); }
void once(Ctx& c) { for(int n : {1, 0, -3}) { int k = 0; try { MathTools::linspace(0, 1, n); } catch(const std::exception&) { k = 1; } catch(...) { k = 2; } c.check(k == 1, "fewer than two points are rejected with a standard exception", n, k); } }
void trial(R& r, Ctx& c) {
	double a = r.real(), b = r.real(), e = r.real(), f = r.real(); int n = r.in(2, 12), m = r.in(2, 9); r.log << " " << a << " " << b << " " << n << " " << e << " " << f << " " << m;
	line(c, MathTools::linspace(a, b, n), a, b, n); if(r.coin(0.1)) line(c, MathTools::linspace(a, b, 500), a, b, 500);
	auto g = MathTools::gridspace({a, e}, {b, f}, {n, m}); auto x = MathTools::linspace(a, b, n), y = MathTools::linspace(e, f, m);
	if(c.check(int(g.size()) == n * m, "grid size", g.size(), n, m)) for(int i=0;i<n;++i) for(int j=0;j<m;++j) c.check(g[i * m + j] == Vector2d(x[i], y[j]), "grid is the product, row by row", i, j, g[i * m + j].transpose());
	double q = MathTools::rand_float(a, b); c.check(q >= std::min(a, b) - 1e-12 && q <= std::max(a, b) + 1e-12, "random number between its bounds", q, a, b); q = MathTools::rand_float(a); c.check(q >= std::min(a, 0.) - 1e-12 && q <= std::max(a, 0.) + 1e-12, "random number between its bound and 0", q, a);
}
