#include "nv.hpp"
static const int N = 60;
static double radius(const StarShapeHull& h, bool inner, const Vector3d& ref, int i, const std::vector<double>& phi) {
	double t = i == 0 ? M_PI - 5e-5 : (phi[i - 1] + phi[i]) / 2;
	double d = D(h, ref + Vector3d(std::cos(t), std::sin(t), 0));
	return inner ? d : 1 / d;
}
void once(Ctx&) {}
void trial(R& r, Ctx& c) {
	bool inner = r.coin(); double mr = r.coin(0.3) ? 0.5 : r.unif(0.1, 1.5);
	int n = r.in(0, 4); List l; Vector3d ref(r.unif(-2, 2), r.unif(-2, 2), 0);
	r.log << " inner=" << inner << " min radius=" << mr << " ref=" << ref.transpose();
	struct E { double x, y, a, b, th; }; std::vector<E> es;
	for(int i=0;i<n;++i) {
		E e{r.unif(-4, 4), r.unif(-4, 4), r.pos(0.2, 3), r.pos(0.2, 3), r.unif(-3, 3)}; double m = r.coin() ? 0 : r.unif(0, 0.5);
		Ellipsoid o(std::string(1, char('a' + i)), State(Vector3d(e.x, e.y, 0), Quaterniond(std::cos(e.th / 2), 0, 0, std::sin(e.th / 2))), m); o.set_axis_lengths(Array3d(e.a, e.b, 1));
		r.log << " at " << e.x << " " << e.y << " turned " << e.th << " lengths " << e.a << " " << e.b << " margin " << m; e.a += m; e.b += m; es.push_back(e); l.push_back(P(o));
	}
	StarShapeHull h(inner, N, mr); h.compute_from_primitives(l, ref);
	std::vector<double> phi(N), raw(N); double top = 0;
	for(int i=0;i<N;++i) {
		phi[i] = -M_PI + i * (2 * M_PI - 1e-4) / (N - 1);
		double best = -1;
		for(auto& e : es) {
			long double ct = cosl(e.th), st = sinl(e.th), X = ref(0) - e.x, Y = ref(1) - e.y, dx = cosl(phi[i]), dy = sinl(phi[i]);
			long double u = (ct * X + st * Y) / e.a, v = (-st * X + ct * Y) / e.b, du = (ct * dx + st * dy) / e.a, dv = (-st * dx + ct * dy) / e.b;
			long double a = du * du + dv * dv, b = u * du + v * dv, g = u * u + v * v - 1, d = b * b - a * g;
			if(fabsl(d) < 1e-6) return;
			if(d < 0) continue;
			for(int k=-1;k<2;k+=2) { double t = (double)((-b + k * sqrtl(d)) / a); if(std::abs(t) < 1e-3) return; if(t > 0 && (best < 0 || (inner ? t < best : t > best))) best = t; }
		}
		raw[i] = std::max(mr, best < 0 ? mr : best); top = std::max(top, raw[i]);
	}
	for(int i=0;i<N;++i) {
		double a = radius(h, inner, ref, i, phi);
		c.check(a >= 0.9 * raw[i] + 0.1 * mr - 1e-6, inner ? "an inner hull goes on until the nearest crossing" : "an outer hull reaches the farthest crossing", a, raw[i]);
		c.check(a <= 0.9 * raw[i] + 0.1 * top + 1e-6, inner ? "an inner hull stops at the nearest crossing" : "an outer hull goes no further than the farthest crossing", a, raw[i]);
	}
}
