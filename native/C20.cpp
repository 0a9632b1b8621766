#include "nv.hpp"
void once(Ctx& c) { for(double d : {-1., 0., 0.5, 1.}) { Vector3d v = Modulation::compute_diagonal_eigenvalues(d).diagonal(); c.same(v, Vector3d(0, 2, 2), "at or inside the surface"); } }
void trial(R& r, Ctx& c) {
	double d = r.coin(0.3) ? r.unif(-1, 1) : r.unif(1.0001, 20), e = d + r.unif(0.001, 3), rho = r.coin() ? 1 : r.unif(0.2, 4); r.note("d", d); r.note("reactivity", rho);
	auto f = [&](double x) { return Vector3d(Modulation::compute_diagonal_eigenvalues(x, rho).diagonal()); };
	Vector3d v = f(d), w = f(e); double de = d <= 1 ? 1 : std::pow(d, -1 / rho);
	c.same(v, Vector3d(1 - de, 1 + de, 1 + de), "eigenvalues 1-d, 1+d, 1+d", 1e-10);
	if(rho == 1) c.same(Vector3d(Modulation::compute_diagonal_eigenvalues(d).diagonal()), v, "default reactivity is 1");
	c.check(v(0) >= 0 && v(0) < 1 && v(1) > 1 && v(1) <= 2 && v(2) > 1 && v(2) <= 2, "eigenvalues stay in range", v.transpose()); c.check((v(0) == 0) == (d <= 1), "zero exactly at or inside the surface", v(0));
	c.check(v(0) <= w(0) && v(1) >= w(1) && v(2) >= w(2), "monotone in the distance", v.transpose(), w.transpose());
}
