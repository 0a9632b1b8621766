#include "nv.hpp"
static void test(Ctx& c, const Vector3d& n, const Agent& a, const Ellipsoid& e) {
	auto b = Modulation::compute_basis_matrices(n, a, e); Matrix3d R0 = b.first, O = b.second;
	c.same(Vector3d(O.col(0)), n, "normal is the first column", 1e-9); c.same(Matrix3d(O.transpose() * O), Matrix3d(Matrix3d::Identity()), "orthogonal basis is orthonormal", 1e-7);
	Vector3d y = in_frame(e.get_pose(), a.get_position()) - in_frame(e.get_pose(), e.get_reference_position()); if(y.norm() > 1e-3) c.same(Vector3d(R0.col(0)), Vector3d(y / y.norm()), "reference direction is the first column");
	for(int k=1;k<3;++k) { c.check(std::abs(R0.col(k).dot(n)) < 1e-7, "other columns are tangent", k, R0.col(k).transpose()); c.check(std::abs(R0.col(k).norm() - 1) < 1e-7, "other columns are unit vectors", k); }
	if(y.norm() > 1e-3) c.same(std::abs(R0.determinant()), std::abs(y.dot(n)) / y.norm(), "invertible unless the reference direction is tangent");
}
void once(Ctx& c) { Ellipsoid e("e"); Agent a; a.set_position(Vector3d(2, 1, 0.5)); for(int i=0;i<3;++i) for(double s : {1., -1.}) { Vector3d n = Vector3d::Zero(); n(i) = s; test(c, n, a, e); } }
void trial(R& r, Ctx& c) { Ell e = r.ellipsoid(); Agent a = r.agent(); Vector3d n = r.dir("n"); if(r.coin(0.3)) { n = Vector3d(r.unif(-1, 1) * 1e-3, r.unif(-1, 1) * 1e-3, r.coin() ? 1 : -1).normalized(); if(r.coin(0.3)) n = Vector3d(2e-5, 1e-5, 1).normalized(); } r.log << " n=" << n.transpose(); test(c, n, a, e); }
