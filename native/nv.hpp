// Native replay harness: runs the library's real code on directed and random inputs and evaluates a property's statement on them.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <csignal>
#include <limits>
#include <functional>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <chrono>
#include <algorithm>
#include <unistd.h>
#include "DynamicObstacleAvoidance/Agent.hpp"
#include "DynamicObstacleAvoidance/Environment.hpp"
#include "DynamicObstacleAvoidance/Modulation.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Ellipsoid.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Aggregate.hpp"
#include "DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp"
#include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
#include "DynamicObstacleAvoidance/Utils/ObstacleGeneration/Aggregation.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp"
using namespace DynamicObstacleAvoidance;
using Eigen::Vector3d; using Eigen::Vector2d; using Eigen::Array3d; using Eigen::Matrix3d; using Eigen::Quaterniond;
typedef std::deque<std::shared_ptr<Obstacle> > List;
template <class T> std::shared_ptr<Obstacle> P(const T& t) { return std::make_shared<T>(t); }
inline std::shared_ptr<Obstacle> P(const Ellipsoid& t) { return std::make_shared<Ellipsoid>(t); }

struct Ell: public Ellipsoid {              // an ellipsoid that can be passed by value; every overload of the distance visible
	Ell(const Ellipsoid& e): Ellipsoid(e) {}
	Ell(const Ell& e): Ellipsoid(static_cast<const Ellipsoid&>(e)) {}
};
inline double D(const Obstacle& o, const Vector3d& x) { return o.compute_distance_to_point(x); }
inline double D(const Obstacle& o, const Vector3d& x, double m) { return o.compute_distance_to_point(x, m); }
inline double D(const Obstacle& o, const Vector3d& x, const Array3d& m) { return o.compute_distance_to_point(x, m); }

struct R {                                  // random source; records what it draws
	uint64_t s;
	std::ostringstream log;
	explicit R(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for(int i=0;i<4;++i) u(); log << std::setprecision(17); }
	uint64_t u() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	double unif(double a, double b) { return a + (b - a) * ((u() >> 11) * (1.0 / 9007199254740992.0)); }
	int in(int a, int b) { return a + int(u() % uint64_t(b - a + 1)); }
	bool coin(double p=0.5) { return unif(0, 1) < p; }
	double note(const char* n, double x) { log << " " << n << "=" << x; return x; }
	double real() { static const double sp[] = {0, 1, -1, 0.5, 2, -2, 3, -0.25, 1e-3, -10}; return coin(0.3) ? sp[in(0, 9)] : unif(-4, 4); }
	double pos(double a=0.05, double b=4) { static const double sp[] = {1, 0.5, 2, 3}; return coin(0.25) ? sp[in(0, 3)] : unif(a, b); }
	double margin() { return coin(0.4) ? 0. : unif(0, 1); }
	// a name that is not among those taken: short alphabet, so prefixes and different lengths are common
	std::string name(const std::vector<std::string>& taken) { static const char al[] = "ab1_Z"; std::string s; do { s.clear(); for(int k=in(0, 4);k>=0;--k) s += al[in(0, 4)]; if(coin(0.1)) s += std::string(20, 'x'); } while(std::find(taken.begin(), taken.end(), s) != taken.end()); return s; }
	Vector3d vec(const char* n="v") { Vector3d v(real(), real(), real()); if(coin(0.1)) v *= std::pow(10., unif(-4, 2)); log << " " << n << "=(" << v.transpose() << ")"; return v; }
	Vector3d dir(const char* n="d") { Vector3d v; do { if(coin(0.3)) { v = Vector3d::Zero(); v(in(0, 2)) = coin() ? 1 : -1; } else v = Vector3d(unif(-1, 1), unif(-1, 1), unif(-1, 1)); } while(v.norm() < 0.05); v.normalize(); log << " " << n << "=(" << v.transpose() << ")"; return v; }
	Array3d margins(const char* n="m") { Array3d v(margin(), margin(), margin()); if(coin(0.4)) v = Array3d(v(0), v(0), v(0)); log << " " << n << "=(" << v.transpose() << ")"; return v; }
	// thin: one axis between the threshold and 0.05; flat: it may be zero, the obstacle has a margin there
	Array3d lengths(const char* n="a", bool thin=false, bool flat=false) { Array3d v(pos(), pos(), pos()); if(thin && coin(0.3)) v(in(0, 2)) = (flat && coin(0.4)) ? 0 : 0.05 * std::pow(0.0025, unif(0, 1)); log << " " << n << "=(" << v.transpose() << ")"; return v; }
	Quaterniond quat(const char* n="q") {
		Quaterniond q(1, 0, 0, 0);
		int k = in(0, 5);
		if(k == 1) { double c[4] = {0, 0, 0, 0}; c[in(0, 3)] = 1; q = Quaterniond(c[0], c[1], c[2], c[3]); }
		else if(k == 2) { double c = std::sqrt(0.5); q = Quaterniond(c, coin() ? c : 0, 0, 0); q.normalize(); }
		else if(k > 2) { do { q = Quaterniond(unif(-1, 1), unif(-1, 1), unif(-1, 1), unif(-1, 1)); } while(q.norm() < 0.05); q.normalize(); }
		log << " " << n << "=(w " << q.w() << " x " << q.x() << " y " << q.y() << " z " << q.z() << ")"; return q;
	}
	Quaterniond zquat(const char* n="q") {
		static const double sp[] = {0, M_PI / 2, M_PI, -M_PI / 2, M_PI / 4};
		double t = coin(0.3) ? sp[in(0, 4)] : unif(-M_PI, M_PI);
		Quaterniond q(std::cos(t / 2), 0, 0, std::sin(t / 2)); log << " " << n << "=(rotation about z by " << t << ")"; return q;
	}
	Pose pose(const char* n="pose", bool planar=false) { log << " " << n << ":"; Vector3d p = vec("p"); if(planar) p(2) = 0; return Pose(p, planar ? zquat() : quat()); }
	State state(const char* n="state", bool planar=false) { Pose p = pose(n, planar); Vector3d v = vec("lin"), w = vec("ang"); return State(p.get_position(), p.get_orientation(), v, w); }
	Ell ellipsoid(const char* n="e", bool planar=false, bool rest=false) {
		State st = state(n, planar);
		if(rest) st = State(st.get_position(), st.get_orientation());
		Array3d m = margins();
		Ellipsoid e(n, st, m);
		e.set_axis_lengths(lengths());
		if(coin(0.3)) e.set_reference_position(vec("ref"));
		return e;
	}
	Agent agent(const char* n="agent") { State st = state(n); double m = note("agent margin", margin()); return Agent(st, m); }
};

struct Ctx {
	long checks = 0;
	std::string label, detail;
	bool failed = false;
	R* r = nullptr;
	template <class... A> bool check(bool ok, const char* l, const A&... a) {
		++checks;
		if(ok || failed) return ok;
		failed = true; label = l;
		std::ostringstream o; o << std::setprecision(17);
		int dummy[] = {0, ((o << " " << a), 0)...}; (void)dummy;
		detail = o.str();
		return false;
	}
	template <class A, class B> bool same(const A& a, const B& b, const char* l, double tol=1e-7) { return check(near(a, b, tol), l, "got", a, "expected", b); }
	static bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)); }
	template <class A, class B> static bool near(const A& a, const B& b, double tol) { return (a.matrix() - b.matrix()).norm() <= tol * (1 + a.matrix().norm() + b.matrix().norm()); }
	bool sameq(const Quaterniond& a, const Quaterniond& b, const char* l, double tol=1e-7) { return same(a.coeffs(), b.coeffs(), l, tol); }
	bool rotq(const Quaterniond& a, const Quaterniond& b, const char* l, double tol=1e-7) { return same(Matrix3d(a.toRotationMatrix()), Matrix3d(b.toRotationMatrix()), l, tol); }
};

// independent geometry
inline Vector3d rot(const Quaterniond& q, const Vector3d& v) {
	double w = q.w(), x = q.x(), y = q.y(), z = q.z(), n = w*w + x*x + y*y + z*z;
	Matrix3d m; m << w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y), 2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x), 2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z;
	return m * v / n;
}
inline Vector3d in_frame(const Pose& p, const Vector3d& v) { Quaterniond q = p.get_orientation(); return rot(Quaterniond(q.w(), -q.x(), -q.y(), -q.z()), v - p.get_position()); }
inline Vector3d to_world(const Pose& p, const Vector3d& v) { return rot(p.get_orientation(), v) + p.get_position(); }
inline double level(const Ellipsoid& e, const Vector3d& x, const Array3d& m) {
	Vector3d y = in_frame(e.get_pose(), x); Array3d l = e.get_axis_lengths() + e.get_safety_margin() + m; double s = 0;
	for(int i=0;i<3;++i) s += (y(i) / l(i)) * (y(i) / l(i));
	return s;
}
inline Array3d A3(double x) { return Array3d(x, x, x); }
inline std::string snap(const Obstacle& o) {           // every observable of an obstacle except its reference point
	std::ostringstream s; s << std::setprecision(17) << o.get_name() << "|" << o.get_type() << "|" << o.get_position().transpose() << "|" << o.get_orientation().coeffs().transpose() << "|" << o.get_linear_velocity().transpose() << "|" << o.get_angular_velocity().transpose() << "|" << o.get_safety_margin().transpose();
	if(o.get_type() == "Ellipsoid") { const Ellipsoid& e = static_cast<const Ellipsoid&>(o); s << "|" << e.get_axis_lengths().transpose() << "|" << e.get_curvature_factor().transpose(); }
	return s.str();
}
inline std::string snapr(const Obstacle& o) { std::ostringstream s; s << std::setprecision(17) << snap(o) << "|" << o.get_reference_position().transpose(); return s.str(); }
inline std::string snap(const State& o) { std::ostringstream s; s << std::setprecision(17) << o.get_position().transpose() << "|" << o.get_orientation().coeffs().transpose() << "|" << o.get_linear_velocity().transpose() << "|" << o.get_angular_velocity().transpose(); return s.str(); }
inline std::string snap(const Agent& a) { std::ostringstream s; s << std::setprecision(17) << snap(a.get_state()) << "|" << a.get_safety_margin() << "|" << snapr(a.get_envelope()); return s.str(); }

void once(Ctx& c);                  // directed cases
void trial(R& r, Ctx& c);           // one random case

static uint64_t g_seed = 1, g_trial = 0;
static const char* g_phase = "start";
static void crash(int sig) { char b[128]; int n = snprintf(b, sizeof b, "\nFAIL crash with signal %d in %s trial %llu\n", sig, g_phase, (unsigned long long)g_trial); (void)!write(1, b, n); _exit(3); }

int main(int argc, char** argv) {
	double budget = 2; long only = -2, maxn = 1000000000;
	for(int i=1;i+1<argc;i+=2) { if(!strcmp(argv[i], "--seed")) g_seed = strtoull(argv[i+1], 0, 10); if(!strcmp(argv[i], "--seconds")) budget = atof(argv[i+1]); if(!strcmp(argv[i], "--trial")) only = atol(argv[i+1]); if(!strcmp(argv[i], "--max")) maxn = atol(argv[i+1]); }
	for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash);
	std::cerr.setstate(std::ios::failbit);
	Ctx c; long n = 0;
	auto report = [&](R* r) { printf("FAIL %s\n  phase %s, seed %llu, trial %llu\n  inputs:%s\n  observed:%s\n", c.label.c_str(), g_phase, (unsigned long long)g_seed, (unsigned long long)g_trial, r ? r->log.str().c_str() : " (directed case)", c.detail.c_str()); return 1; };
	try {
		if(only == -2 || only == -1) { g_phase = "directed"; once(c); if(c.failed) return report(nullptr); }
		g_phase = "random";
		auto t0 = std::chrono::steady_clock::now();
		for(; n < maxn; ++n) {
			if(only >= 0) n = only; else if(only == -1) break;
			g_trial = n;
			R r(g_seed * 1000003ull + n);
			try { trial(r, c); } catch(const std::exception& e) { c.check(false, "no exception escapes", e.what()); } catch(...) { c.check(false, "no exception escapes", "not a standard exception"); }
			if(c.failed) return report(&r);
			if(only >= 0) break;
			if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) { ++n; break; }
		}
	} catch(const std::exception& e) { c.check(false, "no exception escapes", e.what()); return report(nullptr); }
	catch(...) { c.check(false, "no exception escapes", "not a standard exception"); return report(nullptr); }
	printf("OK trials %ld checks %ld\n", n, c.checks);
	return 0;
}
