#include "nv.hpp"
static void round(Ctx& c, const Vector3d& x) { Vector3d p = MathTools::cartesian_to_polar(x); c.same(p(0), x.norm(), "radius is the norm"); c.check((MathTools::polar_to_cartesian(p) - x).norm() < 1e-7 * (1 + x.norm()), "there and back", x.transpose(), "->", MathTools::polar_to_cartesian(p).transpose()); }
void once(Ctx& c) { for(int i=0;i<27;++i) round(c, Vector3d(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1)); c.check(MathTools::sign(2.5) == 1 && MathTools::sign(-0.1) == -1 && MathTools::sign(0.0) == 0 && MathTools::sign(-3) == -1 && MathTools::sign(7) == 1 && MathTools::sign(0) == 0, "sign"); }
void trial(R& r, Ctx& c) {
	round(c, r.vec()); double s = r.real(); c.check(MathTools::sign(s) == (s > 0 ? 1 : s < 0 ? -1 : 0), "sign", s);
	int n = r.in(0, 8); Eigen::MatrixXd A(3, n); for(int i=0;i<n;++i) A.col(i) = Vector3d(r.in(-2, 2), r.in(-3, 3), r.unif(-1, 1)); r.log << " A=" << A;
	Eigen::MatrixXd B = MathTools::sorted_cols_by_theta(A); if(!c.check(B.cols() == n && B.rows() == 3, "same size")) return;
	auto key = [](const Eigen::MatrixXd& M) { std::multiset<std::vector<double> > s; for(int i=0;i<M.cols();++i) s.insert({M(0, i), M(1, i), M(2, i)}); return s; };
	c.check(key(A) == key(B), "the same columns", B); for(int i=0;i+1<n;++i) c.check(B(1, i) <= B(1, i + 1), "in order of the angle", B);
}
