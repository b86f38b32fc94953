// Straightforward reference of one step of the solver (default options), used by the demonstrations only.
#pragma once
#include <vector>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#ifndef NO_COMPUTER
#include "Computer.hpp"
#endif

#ifdef DIM3
constexpr int D = 3;
#else
constexpr int D = 2;
#endif
using V = std::array<double, D>;
inline V operator+(V a, const V& b) { for (int k = 0; k < D; k++) a[k] += b[k]; return a; }
inline V operator-(V a, const V& b) { for (int k = 0; k < D; k++) a[k] -= b[k]; return a; }
inline V operator*(double s, V a) { for (int k = 0; k < D; k++) a[k] *= s; return a; }
inline double dot(const V& a, const V& b) { double s = 0; for (int k = 0; k < D; k++) s += a[k] * b[k]; return s; }

enum Kind { FLUID, WALL, DUMMY, DISABLED };
struct Pt { V x, u; double p, n; int type; };
using WallFn = std::function<V(std::size_t, double, double)>;

struct Ref
{
	double maxDt, courant, g, rho, nu, ratio, l0;
	V lo, hi;
	double t = 0, n0 = 0, re = 0, nl = 0;
	std::vector<Pt> q;
	std::vector<double> nw;
	std::vector<std::vector<int>> nb;

	void init()
	{
		re = ratio * l0;
		nl = re * (1 + 2 * courant);
		const int m = static_cast<int>(std::ceil(ratio)) + 1;
		n0 = 0;
		int c[3] = {0, 0, 0};
		for (c[0] = -m; c[0] <= m; c[0]++)
			for (c[1] = -m; c[1] <= m; c[1]++)
				for (c[2] = (D == 3 ? -m : 0); c[2] <= (D == 3 ? m : 0); c[2]++)
				{
					double r = l0 * std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
					n0 += w(r);
				}
		maxDt = std::min(maxDt, std::sqrt(2 * courant * l0 / g));
	}
	double w(double r) const { return (r > 0 && r < re) ? re / r - 1 : 0; }
	double determineDt() const
	{
		double s = 0;
		for (auto& a : q)
			if (a.type != DISABLED)
				s = std::max(s, std::sqrt(dot(a.u, a.u)));
		return s == 0 ? maxDt : std::min(maxDt, courant * l0 / s);
	}
	void search()
	{
		for (auto& a : q)
			for (int k = 0; k < D; k++)
			{
				const double b = std::floor((a.x[k] - lo[k]) / nl);
				const double n = std::ceil((hi[k] - lo[k]) / nl) + 2;
				if (b < 0 || b >= n)
					a.type = DISABLED;
			}
		nb.assign(q.size(), {});
		for (std::size_t i = 0; i < q.size(); i++)
			for (std::size_t j = 0; j < q.size(); j++)
				if (i != j && q[i].type != DISABLED && q[j].type != DISABLED && std::sqrt(dot(q[i].x - q[j].x, q[i].x - q[j].x)) < nl)
					nb[i].push_back(static_cast<int>(j));
	}
	// f(j, x, u, p, type); j < 0: virtual surface particle
	template<typename F> void each(std::size_t i, F f) const
	{
		V g1{};
		for (int j : nb[i])
		{
			const V d = q[j].x - q[i].x;
			const double r = std::sqrt(dot(d, d));
			if (r < re)
			{
				f(j, q[j].x, q[j].u, q[j].p, q[j].type);
				g1 = g1 + (w(r) / n0) * d;
			}
		}
		if (nw[i] < n0)
		{
			const double r = std::sqrt(dot(g1, g1));
			if (r > 2.220446049250313e-16)
				f(-1, q[i].x - (re / (n0 - nw[i] + 1) / r) * g1, q[i].u, 0.0, static_cast<int>(FLUID));
		}
	}
	bool active(std::size_t i) const { return q[i].type == FLUID || q[i].type == WALL; }
	void density()
	{
		nw.assign(q.size(), n0);
		for (std::size_t i = 0; i < q.size(); i++)
			if (active(i))
			{
				double s = 0;
				for (int j : nb[i])
					s += w(std::sqrt(dot(q[j].x - q[i].x, q[j].x - q[i].x)));
				nw[i] = s;
				q[i].n = std::max(s, n0);
			}
	}
	double speed(std::size_t i) const
	{
		if (nw[i] < n0)
			return 0;
		double s = 0;
		each(i, [&](int, const V& x, const V& u, double, int) {
			const V d = x - q[i].x;
			const double r = std::sqrt(dot(d, d));
			s += dot(d, u - q[i].u) / (r * r * r);
		});
		return -re * s;
	}
	void step(double dt, const WallFn& wall)
	{
		const std::size_t n = q.size();
		t += dt;
		search();
		density();
		std::vector<double> e(n, 0.0);
		for (std::size_t i = 0; i < n; i++)
			if (active(i))
			{
				const double s = speed(i), er = (q[i].n - n0) / n0;
				e[i] = std::fabs(er) * s + std::fabs(s) * er;
			}
		std::vector<V> a(n, V{});
		for (std::size_t i = 0; i < n; i++)
			if (q[i].type == FLUID)
			{
				each(i, [&](int, const V& x, const V& u, double, int ty) {
					if (ty == DUMMY) return;
					const double r = std::sqrt(dot(x - q[i].x, x - q[i].x));
					a[i] = a[i] + (nu * (5 - D) * re / n0 / (r * r * r)) * (u - q[i].u);
				});
				a[i][D - 1] -= g;
			}
		for (std::size_t i = 0; i < n; i++)
			if (q[i].type == FLUID)
			{
				q[i].u = q[i].u + dt * a[i];
				q[i].x = q[i].x + dt * q[i].u;
			}
			else if (q[i].type != DISABLED)
			{
				const V x = wall(i, t, dt);
				q[i].u = (1 / dt) * (x - q[i].x);
				q[i].x = x;
			}
		density();
		std::vector<V> x0(n);
		for (std::size_t i = 0; i < n; i++)
			x0[i] = q[i].x;
		// pressure
		std::vector<std::vector<double>> A(n, std::vector<double>(n + 1, 0.0));
		for (std::size_t i = 0; i < n; i++)
			if (!active(i))
				A[i][i] = 1;
			else
			{
				A[i][n] = -rho / (n0 * dt) * (speed(i) + e[i]);
				each(i, [&](int j, const V& x, const V&, double, int ty) {
					if (ty == DUMMY) return;
					const double r = std::sqrt(dot(x - q[i].x, x - q[i].x));
					const double c = (5 - D) * re / n0 / (r * r * r);
					if (j >= 0) A[i][j] += c;
					A[i][i] -= c;
				});
			}
		for (std::size_t k = 0; k < n; k++)
		{
			std::size_t m = k;
			for (std::size_t i = k; i < n; i++)
				if (std::fabs(A[i][k]) > std::fabs(A[m][k])) m = i;
			std::swap(A[k], A[m]);
			if (A[k][k] == 0) continue;
			for (std::size_t i = 0; i < n; i++)
				if (i != k && A[i][k] != 0)
				{
					const double f = A[i][k] / A[k][k];
					for (std::size_t j = k; j <= n; j++)
						A[i][j] -= f * A[k][j];
				}
		}
		for (std::size_t i = 0; i < n; i++)
			if (active(i))
			{
				const double p = A[i][i] == 0 ? 0 : A[i][n] / A[i][i];
				q[i].p = p < 0 ? 0 : p;
			}
		std::vector<V> du(n, V{});
		for (std::size_t i = 0; i < n; i++)
			if (q[i].type == FLUID)
				each(i, [&](int, const V& x, const V&, double p, int ty) {
					if (ty == DUMMY) return;
					const V d = x - q[i].x;
					const double r2 = dot(d, d);
					du[i] = du[i] + (-dt / rho * D / n0 * (p + q[i].p) / r2 * w(std::sqrt(r2))) * d;
				});
		apply(du, dt);
		const double dd = l0 - courant * l0;
		for (auto& v : du) v = V{};
		for (std::size_t i = 0; i < n; i++)
			if (q[i].type == FLUID)
				each(i, [&](int j, const V& x, const V&, double, int ty) {
					if (ty == DUMMY || j < 0) return;
					const V d = x - q[i].x;
					if (!(dot(d, d) < dd * dd)) return;
					V e0 = x0[j] - x0[i];
					e0 = (1 / std::sqrt(dot(e0, e0))) * e0;
					const double pa = dot(d, e0);
					const V pe = d - pa * e0;
					du[i] = du[i] + (-1.0 / (2 * dt * n0) * (std::sqrt(dd * dd - dot(pe, pe)) - pa)) * e0;
				});
		apply(du, dt);
	}
	void apply(const std::vector<V>& du, double dt)
	{
		for (std::size_t i = 0; i < q.size(); i++)
			if (q[i].type == FLUID)
			{
				q[i].u = q[i].u + du[i];
				q[i].x = q[i].x + dt * du[i];
			}
	}
};

#ifndef NO_COMPUTER
inline OpenMps::Environment environment(const Ref& r)
{
	return OpenMps::Environment(r.maxDt, r.courant, r.g, r.rho, r.nu, r.ratio, r.l0,
#ifdef DIM3
		r.lo[0], r.lo[1], r.lo[2], r.hi[0], r.hi[1], r.hi[2]);
#else
		r.lo[0], r.lo[1], r.hi[0], r.hi[1]);
#endif
}
inline OpenMps::Vector vec(const V& v)
{
	OpenMps::Vector r;
	for (int k = 0; k < D; k++) r[k] = v[k];
	return r;
}
inline std::vector<OpenMps::Particle> particles(const std::vector<Pt>& q)
{
	std::vector<OpenMps::Particle> ps;
	for (auto& a : q)
	{
		OpenMps::Particle p(static_cast<OpenMps::Particle::Type>(a.type));
		p.X() = vec(a.x); p.U() = vec(a.u); p.P() = a.p; p.N() = a.n;
		ps.push_back(p);
	}
	return ps;
}
// compares; exits 1 on the first difference
template<typename C> void compare(const char* what, const C& c, const Ref& r, double tol = 1e-6)
{
	double sx = r.l0, su = 1e-9, sp = 1e-9;
	for (auto& a : r.q) { su = std::max(su, std::sqrt(dot(a.u, a.u))); sp = std::max(sp, std::fabs(a.p)); }
	for (std::size_t i = 0; i < r.q.size(); i++)
	{
		const auto& p = c.Particles()[i];
		const auto& a = r.q[i];
		auto chk = [&](const char* f, double got, double want, double s) {
			if (!(std::fabs(got - want) <= tol * s))
			{
				std::printf("%s: particle %zu %s is %.12g, should be %.12g\n", what, i, f, got, want);
				std::exit(1);
			}
		};
		chk("type", static_cast<int>(p.TYPE()), a.type, 1);
		for (int k = 0; k < D; k++) { chk("x", p.X()[k], a.x[k], sx); chk("u", p.U()[k], a.u[k], su); }
		chk("n", p.N(), a.n, 1);
		chk("p", p.P(), a.p, sp);
	}
}
// a block of fluid in a box with two layers of wall and dummies; jitter makes it irregular
inline Ref box(int nx, int nz, double jitter, unsigned seed = 1)
{
	Ref r{0.001, 0.1, 9.8, 1000, 1e-2, 2.4, 0.1};
	for (int k = 0; k < D; k++) { r.lo[k] = -1; r.hi[k] = 2.5; }
	auto rnd = [&]() { seed = seed * 1664525u + 1013904223u; return (seed >> 8) / 16777216.0 - 0.5; };
	const int ny0 = D == 3 ? -3 : 0, ny1 = D == 3 ? 5 : 0;
	for (int i = -4; i < nx + 4; i++)
		for (int j = ny0; j <= ny1; j++)
			for (int k = -4; k < nz; k++)
			{
				const bool in = i >= 0 && i < nx && k >= 0 && (D == 2 || (j >= 0 && j <= 2));
				const bool wall = i >= -1 && i <= nx && k >= -1 && (D == 2 || (j >= -1 && j <= 3));
				Pt p{};
				p.type = in ? FLUID : wall ? WALL : DUMMY;
				V x{};
				x[0] = i * r.l0; x[D - 1] = k * r.l0;
				if (D == 3) x[1] = j * r.l0;
				if (in)
					for (int a = 0; a < D; a++) { x[a] += jitter * r.l0 * rnd(); p.u[a] = 0.2 * rnd(); }
				p.x = x;
				r.q.push_back(p);
			}
	r.init();
	return r;
}
#endif
