// Analysis driver: instantiates the solver with callbacks whose bodies are unknown to the analysis.
#include "Computer.hpp"
#include <vector>
struct VerifWall { OpenMps::Vector operator()(std::size_t i, double t, double dt) const; };
struct VerifWallPre { void operator()(double t, double dt) const; };
namespace verif {
	using Comp = OpenMps::Computer<VerifWall, VerifWallPre>;
	void add(Comp& c, std::vector<OpenMps::Particle>&& ps) { c.AddParticles(std::move(ps)); }
	void step_dt(Comp& c, double dt) { c.ForwardTime(dt); }
	void step(Comp& c) { c.ForwardTime(); }
	const std::vector<OpenMps::Particle>& parts(const Comp& c) { return c.Particles(); }
	const OpenMps::Environment& env(const Comp& c) { return c.GetEnvironment(); }
	void create(
#ifndef PRESSURE_EXPLICIT
		double eps,
#endif
		const OpenMps::Environment& e, const VerifWall& w, const VerifWallPre& wp)
	{
		auto c = OpenMps::CreateComputer(
#ifndef PRESSURE_EXPLICIT
			eps,
#endif
			e, w, wp);
		(void)c;
	}
	OpenMps::Environment environment(const double maxDt, const double courant,
#ifdef ARTIFICIAL_COLLISION_FORCE
		const double tooNearRatio, const double tooNearCoefficient,
#endif
		const double g, const double rho, const double nu,
#ifndef MPS_SPP
		const double surfaceRatio,
#endif
		const double r_eByl_0,
#ifdef PRESSURE_EXPLICIT
		const double c,
#endif
		const double l_0, const double minX,
#ifdef DIM3
		const double minY,
#endif
		const double minZ, const double maxX,
#ifdef DIM3
		const double maxY,
#endif
		const double maxZ)
	{
		return OpenMps::Environment(maxDt, courant,
#ifdef ARTIFICIAL_COLLISION_FORCE
			tooNearRatio, tooNearCoefficient,
#endif
			g, rho, nu,
#ifndef MPS_SPP
			surfaceRatio,
#endif
			r_eByl_0,
#ifdef PRESSURE_EXPLICIT
			c,
#endif
			l_0, minX,
#ifdef DIM3
			minY,
#endif
			minZ, maxX,
#ifdef DIM3
			maxY,
#endif
			maxZ);
	}
}
