exec(open('/verif/tools/seedspec_b.py', encoding='utf-8').read().split("\nS('dt-stale'")[0])
exec("APP = r'''" + open('/verif/tools/seedspec_b.py', encoding='utf-8').read().split("APP = r'''", 1)[1].split("\nS('csv-order'")[0])

UNITS = r'''#include "ref.hpp"
// the same problem written in other units of length: every result has to be the same
int main()
{
	const double a = %(a)s;
	Ref r = box(%(box)s);
%(setup)s
	Ref s = r;
	s.l0 *= a; s.g *= a; s.nu *= a * a;
	for (int k = 0; k < D; k++) { s.lo[k] *= a; s.hi[k] *= a; }
	for (auto& p : s.q) { p.x = a * p.x; p.u = a * p.u; p.p *= a * a; }
	s.init();
	std::vector<V> x0;
	for (auto& p : r.q) x0.push_back(p.x);
	auto wall = [&](std::size_t i, double, double) { return vec(x0[i]); };
	auto walls = [&](std::size_t i, double, double) { return vec(a * x0[i]); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-12, environment(r), wall, pre);
	auto d = OpenMps::CreateComputer(1e-12, environment(s), walls, pre);
	c.AddParticles(particles(r.q));
	d.AddParticles(particles(s.q));
	for (int k = 0; k < %(steps)d; k++)
	{
		c.ForwardTime(); d.ForwardTime();
		if (std::fabs(c.GetEnvironment().Dt() - d.GetEnvironment().Dt()) > 1e-9 * c.GetEnvironment().Dt()) { std::printf("time steps %%g and %%g\n", c.GetEnvironment().Dt(), d.GetEnvironment().Dt()); return 1; }
		for (std::size_t i = 0; i < r.q.size(); i++)
			for (int k = 0; k < D; k++)
			{
				const double x = c.Particles()[i].X()[k], y = d.Particles()[i].X()[k] / a;
				if (!(std::fabs(x - y) < 1e-6 * r.l0)) { std::printf("particle %%zu: %%.9g and %%.9g\n", i, x, y); return 1; }
			}
	}
	std::puts("ok");
}
'''


def units(a, box='5, 5, 0.3', setup='', steps=4):
    return UNITS % dict(a=a, box=box, setup=setup, steps=steps)


S('spp-threshold', 'C08', 'a problem whose lengths are small numbers in the unit of the input (micrometres written in metres)',
  'the test for a surface particle compares a length with the fixed number 1e-6, so small problems get no virtual surface particle',
  [('Computer.hpp', 'if (r_g > std::numeric_limits<double>::epsilon())', 'if (r_g > 1e-6)')],
  units('1e-5'))

S('ds-tolerance', 'C08', 'a problem whose lengths are small numbers in the unit of the input, with particles that come too close',
  'the distance below which particles are pushed apart is reduced by a fixed length, whatever the particle size',
  [('Computer.hpp', '''							if(r2 < d2)
''', '''							if(r2 < d2 - 1e-10)
''')],
  units('1e-5', box='5, 5, 0.6'))

S('growth-limit', 'C10', 'an impact after which the fluid slows down, so that the allowed step grows from one step to the next',
  'the automatically chosen step is limited to a multiple of the previous one, so it is not the one the Courant limit gives',
  [('Computer.hpp', '''			const auto dt = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));
''', '''			const auto limit = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));
			const auto dt = (environment.Dt() == 0) ? limit : std::min(limit, 1.5 * environment.Dt());
''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(5, 5, 0.1);
	r.maxDt = 0.01; r.init();
	std::vector<V> x0;
	for (auto& a : r.q) x0.push_back(a.x);
	auto at = [&](std::size_t i, double t, double) { V x = x0[i]; if (i == 0) x[0] -= 100 * std::min(t, 0.0006); return x; };
	auto wall = [&](std::size_t i, double t, double dt) { return vec(at(i, t, dt)); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-12, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	double last = 0;
	for (int s = 0; s < 9; s++)
	{
		double m = 0;
		for (auto& p : c.Particles())
			m = std::max(m, std::sqrt(p.U()[0] * p.U()[0] + p.U()[1] * p.U()[1]));
		const auto& e = c.GetEnvironment();
		const double want = m == 0 ? e.MaxDt : std::min(e.MaxDt, e.MaxDx / m);
		if (s == 0) c.ForwardTime(0.0005);
		else
		{
			c.ForwardTime();
			if (std::fabs(e.Dt() - want) > 1e-9 * want) { std::printf("step %g, should be %g (previous %g)\n", e.Dt(), want, last); return 1; }
		}
		last = e.Dt();
	}
	std::puts("ok");
}
''')

S('spp-rest', 'C09', 'free surface of a fluid that moves as a whole',
  'the virtual surface particle is at rest instead of moving with its particle, so the result depends on the frame of reference',
  [('Computer.hpp', '''						p_spp.U() = particles[i].U();
''', '''						p_spp.U() = VectorZero;
''')],
  r'''#include "ref.hpp"
// a drop in the air, at rest and moving as a whole
int main()
{
	Ref r = box(5, 5, 0.2);
	std::vector<Pt> f;
	for (auto& a : r.q) if (a.type == FLUID) f.push_back(a);
	auto g = f;
	for (auto& a : g) { a.u[0] += 1.5; a.u[1] -= 0.5; }
	auto wall = [&](std::size_t i, double, double) { return vec(f[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-12, environment(r), wall, pre);
	auto d = OpenMps::CreateComputer(1e-12, environment(r), wall, pre);
	c.AddParticles(particles(f));
	d.AddParticles(particles(g));
	double t = 0;
	for (int s = 0; s < 4; s++)
	{
		c.ForwardTime(0.001); d.ForwardTime(0.001); t += 0.001;
		for (std::size_t i = 0; i < f.size(); i++)
		{
			const double x = c.Particles()[i].X()[0] + 1.5 * t, z = c.Particles()[i].X()[1] - 0.5 * t;
			if (!(std::fabs(d.Particles()[i].X()[0] - x) < 1e-8 && std::fabs(d.Particles()[i].X()[1] - z) < 1e-8)) { std::printf("particle %zu differs\n", i); return 1; }
		}
	}
	std::puts("ok");
}
''')

S('diagonal-spp', 'C07', 'a particle at the free surface, which has a virtual surface particle',
  'the virtual surface particle does not count in the diagonal, so the zero pressure at the surface is not imposed',
  [('Computer.hpp', '''							return -a_ij;
						}
						else
						{
							return 0.0;
						}
					});

#ifdef _OPENMP
					a_i.emplace_back(i, a_ii);''', '''#ifdef MPS_SPP
							return (j >= 0) ? -a_ij : 0.0;
#else
							return -a_ij;
#endif
						}
						else
						{
							return 0.0;
						}
					});

#ifdef _OPENMP
					a_i.emplace_back(i, a_ii);''')],
  step(setup='\tRef r = box(5, 5, 0.2);'))

S('viscosity-own-density', 'C06', 'two fluid particles of different number density that move relative to each other',
  'the viscous force is scaled with the density of the particle it acts on, so the forces within a pair do not cancel',
  [('Computer.hpp', '''						[&thisX = particle.X(), &thisU = particle.U(), n0, r_e,
''', '''						[&thisX = particle.X(), &thisU = particle.U(), n0 = particle.N(), r_e,
''')],
  step(setup='\tRef r = box(6, 6, 0.2); for (auto& a : r.q) if (a.type == FLUID) { a.x[0] = 0.25 + 0.85 * (a.x[0] - 0.25); a.x[1] = 0.25 + 0.85 * (a.x[1] - 0.25); }'))


def opts(on=(), off=()):
    return r'''#!/bin/bash
# run in the repository root: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r src/OpenMps "$t/src"
for o in %s; do sed -i -E "s|^// *#define $o\b|#define $o|" "$t/src/defines.hpp"; done
for o in %s; do sed -i -E "s|^#define $o\b|//#define $o|" "$t/src/defines.hpp"; done
g++ -std=c++17 -O1 -w -fopenmp -I"$d" -I"$t/src" -Isrc/viennacl "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && OMP_NUM_THREADS=4 timeout 120 ./demo
''' % (' '.join(on), ' '.join(off))


S('explicit-suction', 'C12', 'explicit pressure without surface particles and a particle whose density is below the reference density',
  'the state equation gives negative pressures below the reference density',
  [('Computer.hpp', '''(rho <= rho0) ? 0 : c*c*(rho - rho0);''', '''(rho <= 0) ? 0 : c*c*(rho - rho0);''')],
  r'''#include "Computer.hpp"
#include <cstdio>
#include <vector>
int main()
{
	OpenMps::Environment e(0.001, 0.1, 9.8, 1000, 1e-2, 0.97, 2.4, 10.0, 0.1, -1, -1, 2.5, 2.5);
	std::vector<OpenMps::Particle> q;
	for (int i = 0; i < 5; i++)
		for (int k = 0; k < 5; k++)
		{
			OpenMps::Particle p(OpenMps::Particle::Type::IncompressibleNewton);
			p.X()[0] = 0.1 * i + 0.003 * (k % 2); p.X()[1] = 0.1 * k; p.U()[0] = p.U()[1] = 0; p.P() = 0; p.N() = 0;
			q.push_back(p);
		}
	auto wall = [](std::size_t, double, double) { return OpenMps::Vector(); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(e, wall, pre);
	c.AddParticles(q);
	for (int s = 0; s < 3; s++)
	{
		c.ForwardTime(0.0005);
		for (auto& p : c.Particles())
			if (p.P() < 0) { std::printf("negative pressure %g\n", p.P()); return 1; }
	}
	std::puts("ok");
}
''', sh=opts(on=['PRESSURE_EXPLICIT'], off=['MPS_SPP']))

S('gc-singular', 'C20', 'gradient correction and a fluid particle whose neighbours all lie on one line that is not an axis',
  'the test for a correction matrix that cannot be inverted only looks at its first row, so particles in line get undefined velocities',
  [('Computer.hpp', '''					if (det == 0)
					{
						return IdentityMatrix(val);
					}
					else
					{
						mat(0, 0) = d / det;''', '''					if (a == 0 && b == 0)
					{
						return IdentityMatrix(val);
					}
					else
					{
						mat(0, 0) = d / det;''')],
  r'''#include "Computer.hpp"
#include <cstdio>
#include <cmath>
#include <vector>
int main()
{
	// two particles side by side on the diagonal
	OpenMps::Environment e(0.001, 0.1, 9.8, 1000, 1e-2, 0.97, 2.4, 0.125, -1, -1, 2.5, 2.5);
	std::vector<OpenMps::Particle> q;
	for (int i = 0; i < 2; i++)
	{
		OpenMps::Particle p(OpenMps::Particle::Type::IncompressibleNewton);
		p.X()[0] = 0.125 * i; p.X()[1] = 0.125 * i; p.U()[0] = p.U()[1] = 0; p.P() = 0; p.N() = 0;
		q.push_back(p);
	}
	auto wall = [](std::size_t, double, double) { return OpenMps::Vector(); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, e, wall, pre);
	c.AddParticles(q);
	c.ForwardTime(0.0005);
	for (auto& p : c.Particles())
		if (!std::isfinite(p.X()[0]) || !std::isfinite(p.U()[1])) { std::puts("undefined result"); return 1; }
	std::puts("ok");
}
''', sh=opts(on=['MPS_GC'], off=['MPS_SPP']))

S('spp-alone', 'C20', 'a fluid particle without any neighbour (a drop of spray)',
  'the direction to the virtual surface particle is computed although the particle has no neighbours, a division of zero by zero',
  [('Computer.hpp', '''					if (r_g > std::numeric_limits<double>::epsilon()) // 周囲に粒子が全く存在しない場合（0除算回避）
''', '''					if (r_g < r_e) // 周囲に粒子が全く存在しない場合（0除算回避）
''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(5, 5, 0.2);
	Pt p{}; p.type = FLUID; p.x = V{{1.7, 1.7}};
	r.q.push_back(p);
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	try { for (int s = 0; s < 3; s++) c.ForwardTime(); } catch (const std::exception& e) { std::puts(e.what()); return 1; }
	for (auto& q : c.Particles())
		if (!std::isfinite(q.X()[0]) || !std::isfinite(q.U()[1]) || !std::isfinite(q.P())) { std::puts("undefined result"); return 1; }
	std::puts("ok");
}
''')

S('ecs-skip', 'C23', 'a particle that is denser than the reference density in one step and not in a later one',
  'the error correction is only updated where there is an error, so the value of an earlier step stays in force',
  [('Computer.hpp', '''					ecs[i] = std::abs(error) * speed + std::abs(speed) * error;
''', '''					if (error > 0)
					{
						ecs[i] = std::abs(error) * speed + std::abs(speed) * error;
					}
''')],
  step(setup='\tRef r = box(6, 6, 0.1); for (auto& a : r.q) if (a.type == FLUID) { a.x[0] = 0.25 + 0.95 * (a.x[0] - 0.25); a.x[1] = 0.25 + 0.95 * (a.x[1] - 0.25); a.u[0] = -3 * (a.x[0] - 0.25); a.u[1] = -3 * (a.x[1] - 0.25); }', steps=4, motion='x[1] -= 0.3;'))

S('pre-in-loop', 'C24', 'more than one thread: the wall callback of another particle runs while the preparation is still going on',
  'the preparation of the wall motion is started by the first particle inside the parallel loop, so other particles ask for their position before it is done',
  [('Computer.hpp', '''			// 壁位置計算の前処理
			positionWallPre(t, dt);

''', ''),
   ('Computer.hpp', '''				// 水粒子のみ
				if(particles[i].TYPE() == Particle::Type::IncompressibleNewton)
				{
					// 位置・速度を修正
					particles[i].U() += a[i] * dt;
''', '''				// 壁位置計算の前処理
				if (i == 0)
				{
					positionWallPre(t, dt);
				}

				// 水粒子のみ
				if(particles[i].TYPE() == Particle::Type::IncompressibleNewton)
				{
					// 位置・速度を修正
					particles[i].U() += a[i] * dt;
''')],
  r'''#include "ref.hpp"
#include <atomic>
#include <thread>
#include <chrono>
int main()
{
	Ref r = box(5, 5, 0.1);
	std::atomic<bool> ready{false}, early{false};
	auto wall = [&](std::size_t i, double, double) { if (!ready) early = true; return vec(r.q[i].x); };
	auto pre = [&](double, double) { std::this_thread::sleep_for(std::chrono::milliseconds(100)); ready = true; };
	auto c = OpenMps::CreateComputer(1e-10, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	for (int s = 0; s < 3; s++) { ready = false; c.ForwardTime(0.0005); }
	if (early) { std::puts("position asked before the preparation was done"); return 1; }
	std::puts("ok");
}
''')

S('gradient-maxdt', 'C28', 'a step shorter than the largest one (a fast particle, or a step length given by the caller)',
  'the pressure correction moves particles over the largest step length instead of the one of this step',
  [('Computer.hpp', '''				if (particles[i].TYPE() == Particle::Type::IncompressibleNewton)
				{
					const double dt = environment.Dt();
''', '''				if (particles[i].TYPE() == Particle::Type::IncompressibleNewton)
				{
					const double dt = environment.MaxDt;
''')],
  step(setup='\tRef r = box(5, 5, 0.2); for (auto& a : r.q) if (a.type == FLUID) a.u[0] = 40 * a.x[1];'))

S('savex-fluid', 'C29', 'a fluid particle that comes too close to a wall particle',
  'the reference position is stored for fluid only, so the push away from a wall has a wrong direction',
  [('Computer.hpp', '''				if((particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))
				{
					originalX[i] = particle.X();''', '''				if(particle.TYPE() == Particle::Type::IncompressibleNewton)
				{
					originalX[i] = particle.X();''')],
  step(setup='\tRef r = box(5, 5, 0.1); for (auto& a : r.q) if (a.type == FLUID && a.x[1] < 0.05) a.x[1] -= 0.025;'))

S('ds-dummy', 'C04', 'a fluid particle that gets closer to a dummy particle than the stabilising distance',
  'the stabilising push also acts between fluid and dummy particles',
  [('Computer.hpp', '''						if((type != Particle::Type::Dummy)
#ifdef MPS_SPP
							&& (j >= 0) // SPP粒子も除く
#endif
''', '''						if((type != Particle::Type::Disabled)
#ifdef MPS_SPP
							&& (j >= 0) // SPP粒子も除く
#endif
''')],
  step(setup='\tRef r = box(5, 5, 0.1); Pt a{}; a.type = DUMMY; a.x = V{{0.25, 0.47}}; r.q.push_back(a);', steps=2))

S('erase-gone', 'C13', 'a particle that leaves the domain',
  'disabled particles are removed from the list, so the indices of the particles after them change',
  [('Computer.hpp', '''#ifdef MPS_DS
			// DS法による人工斥力の追加
			DynamicStabilize();
#endif
''', '''#ifdef MPS_DS
			// DS法による人工斥力の追加
			DynamicStabilize();
#endif

			// 無効粒子を取り除く
			particles.erase(std::remove_if(particles.begin(), particles.end(),
				[](const auto& particle)
			{
				return particle.TYPE() == Particle::Type::Disabled;
			}), particles.end());
''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(5, 5, 0.1);
	Pt p{}; p.type = FLUID; p.x = V{{9, 9}};
	r.q.insert(r.q.begin() + 7, p);
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	c.ForwardTime(0.0005);
	if (c.Particles().size() != r.q.size()) { std::printf("%zu particles, were %zu\n", c.Particles().size(), r.q.size()); return 1; }
	std::puts("ok");
}
''')

S('dummy-velocity', 'C03', 'a moving wall with dummy particles behind it',
  'dummy particles are moved without a velocity, so they stay at rest in the pressure source',
  [('Computer.hpp', '''					particles[i].X() = x;
					particles[i].U() = u;
''', '''					particles[i].X() = x;
					if (particles[i].TYPE() != Particle::Type::Dummy)
					{
						particles[i].U() = u;
					}
''')],
  step(motion='x[0] += 0.1 * t;', steps=2))

S('residual-norm', 'C11', 'any pressure equation that needs several iterations',
  'the squared residual is compared with the tolerance instead of its square, so the solution is far less accurate than asked for',
  [('Computer.hpp', '''rr*ppe.allowableResidual*ppe.allowableResidual;''', '''rr*ppe.allowableResidual;''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(5, 5, 0.3);
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-4, environment(r), wall, pre);
	auto d = OpenMps::CreateComputer(1e-13, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	d.AddParticles(particles(r.q));
	c.ForwardTime(0.0005); d.ForwardTime(0.0005);
	double e = 0, m = 0;
	for (std::size_t i = 0; i < r.q.size(); i++)
	{
		const double a = c.Particles()[i].P(), b = d.Particles()[i].P();
		e += (a - b) * (a - b); m += b * b;
	}
	std::printf("relative error %g\n", std::sqrt(e / m));
	return std::sqrt(e / m) < 1e-3 ? 0 : 1;
}
''')

S('disabled-density', 'C05', 'a particle that leaves the domain while it still has a list of neighbours',
  'the number density of disabled particles is recomputed from an outdated neighbour list',
  [('Computer.hpp', '''				if((particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))
				{
					// 粒子数密度を計算する''', '''				if(particle.TYPE() != Particle::Type::Dummy)
				{
					// 粒子数密度を計算する''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(5, 5, 0.1);
	for (std::size_t i = 0; i < r.q.size(); i += 13) { r.q[i].type = DISABLED; r.q[i].n = 3; }
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	for (int s = 0; s < 2; s++) c.ForwardTime(0.0005);
	for (std::size_t i = 0; i < r.q.size(); i += 13)
		if (c.Particles()[i].N() != 3) { std::printf("density of disabled particle %zu: %g\n", i, c.Particles()[i].N()); return 1; }
	std::puts("ok");
}
''')

S('row-skip', 'C17', 'a result file written after a particle left the domain',
  'disabled particles are left out of the result files',
  [('Main.cpp', '''			output
				<< static_cast<std::underlying_type_t<OpenMps::Particle::Type>>(particle.TYPE()) << ", "
''', '''			if (particle.TYPE() == OpenMps::Particle::Type::Disabled)
			{
				continue;
			}

			output
				<< static_cast<std::underlying_type_t<OpenMps::Particle::Type>>(particle.TYPE()) << ", "
''')],
  PY + r'''
rows = ['%d, %g, %g, 0, 0, 0, 0' % t for t in tank()] + ['0, 9, 9, 0, 0, 0, 0']
p, out = run(rows)
if p.returncode: bad(p.stdout)
for k, v in out.items():
    if len(v) != len(rows): bad('file %d has %d rows, not %d' % (k, len(v), len(rows)))
print('ok')
''', sh=APP)

