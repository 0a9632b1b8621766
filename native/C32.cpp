#include "nv.hpp"
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	Ell e = r.ellipsoid("e"); Array3d m = e.get_safety_margin(); double q = r.pos(0.05, 20);
	e.set_axis_lengths(A3(q)); c.same(e.area(false), 4 * M_PI * q * q, "a sphere has the area 4 pi r^2", 1e-9);
	e.set_axis_lengths(Array3d(A3(q + m.maxCoeff()) - m)); c.same(e.area(), 4 * M_PI * std::pow(q + m.maxCoeff(), 2), "a sphere has the area 4 pi r^2, with its margin", 1e-9);
	Array3d l(r.pos(0.05, 20), r.pos(0.05, 20), r.pos(0.05, 20)), k = l; for(int i=0;i<3;++i) if(r.coin()) k(i) += r.pos(0.01, 3); r.log << " lengths " << l.transpose() << " and " << k.transpose();
	Ell f = e; e.set_axis_lengths(l); f.set_axis_lengths(k);
	for(bool b : {false, true}) {
		Array3d x = b ? Array3d(l + m) : l;
		c.check(e.area(b) <= f.area(b) * (1 + 1e-12), "larger half-lengths have a larger area", e.area(b), f.area(b));
		c.check(e.area(b) >= 4 * M_PI * std::pow(x.minCoeff(), 2) * (1 - 1e-12), "at least the inscribed sphere", e.area(b)); c.check(e.area(b) <= 4 * M_PI * std::pow(x.maxCoeff(), 2) * (1 + 1e-12), "at most the circumscribed sphere", e.area(b));
	}
}
