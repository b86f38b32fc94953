exec(open('/verif/tools/seedspec_a.py', encoding='utf-8').read().split("\nS('wall-frame'")[0])

S('dt-stale', 'C10', 'two consecutive steps of different length',
  'the simulated time advances by the previous step length instead of the one used for the step',
  [('Computer.hpp', '''			// 時間刻みを設定
			environment.Dt() = dt;

			// 時間を進める
			environment.SetNextT();
''', '''			// 時間を進める
			environment.SetNextT();

			// 時間刻みを設定
			environment.Dt() = dt;
''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(4, 4, 0.1);
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	double t = 0;
	for (double dt : {0.0005, 0.00025, 0.001, 0.0002})
	{
		c.ForwardTime(dt);
		t += dt;
		if (std::fabs(c.GetEnvironment().T() - t) > 1e-12) { std::printf("time %g, should be %g\n", c.GetEnvironment().T(), t); return 1; }
	}
	std::puts("ok");
}
''')

S('neighbor-cap', 'C14', 'a particle whose own block and all blocks around it are filled close to their capacity',
  'the neighbour list has room for one block less than the blocks that are searched, so a crowded particle writes into the list of the next one',
  [('Computer.hpp', '''[1 + static_cast<NeighborIndex>(grid.MaxParticles()*Grid::MAX_NEIGHBOR_BLOCK)]''',
    '''[1 + static_cast<NeighborIndex>(grid.MaxParticles()*(Grid::MAX_NEIGHBOR_BLOCK - 3))]''')],
  r'''#include "ref.hpp"
int main()
{
	// block length 0.288, room for 16 particles in each block
	Ref r{0.001, 0.1, 9.8, 1000, 1e-2, 2.4, 0.1};
	for (int k = 0; k < 2; k++) { r.lo[k] = -1; r.hi[k] = 2; }
	r.init();
	const double len = 0.288;
	auto put = [&](double x, double z) { Pt p{}; p.type = DUMMY; p.x = V{{x, z}}; r.q.push_back(p); };
	const double cx = -1 + 4.5 * len, cz = -1 + 4.5 * len;
	put(cx, cz);
	// around the centre, all closer than the search radius
	for (int i = -1; i <= 1; i++)
		for (int j = -1; j <= 1; j++)
			for (int k = 0; k < ((i || j) ? 16 : 15); k++)
				put(cx + i * 0.16 + 0.003 * (k % 4 + 1), cz + j * 0.16 + 0.003 * (k / 4 + 1));
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	c.ForwardTime(0.0001);
	std::puts("ok");
}
''')

S('clear-last', 'C02', 'particles in the last row of search blocks at the upper border, over several steps',
  'the last row of search blocks is not emptied before the particles are stored again, so it fills up with duplicates',
  [('Grid.hpp', '''					for (auto k = decltype(nz){0}; k < nz; k++)
					{
#ifdef DIM3
						data[i][j][k][0] = 0;''', '''					for (auto k = decltype(nz){0}; k + 1 < nz; k++)
					{
#ifdef DIM3
						data[i][j][k][0] = 0;''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(3, 3, 0.1);
	for (int k = 0; k < 2; k++)
		for (int i = -9; i <= 34; i++)
		{
			Pt p{}; p.type = DUMMY; p.x = k ? V{{0.1 * i, 3.2}} : V{{0.1 * i, 3.1}};
			r.q.push_back(p);
		}
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	try { for (int s = 0; s < 12; s++) c.ForwardTime(0.0002); }
	catch (const std::exception& e) { std::printf("%s\n", e.what()); return 1; }
	std::puts("ok");
}
''')

S('cg-last', 'C11', 'a pressure equation that has not converged after as many iterations as there are unknowns',
  'the last iteration is accepted whatever its residual, so the step goes on with an unsolved pressure instead of failing',
  [('Computer.hpp', '''				isConverged = (residual < residual0);''', '''				isConverged = (residual < residual0) || (i + 1 == n);''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(5, 5, 0.3);
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-100, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	try { c.ForwardTime(0.0005); }
	catch (const std::exception& e) { std::printf("ok: %s\n", e.what()); return 0; }
	std::puts("not converged, but no error");
	return 1;
}
''')

S('append-lazy', 'C13', 'a second AddParticles call that adds fewer particles than there already are',
  'the stored positions are not extended for particles added by a later call',
  [('Computer.hpp', '''			originalX.resize(n);
''', '''			if (originalX.size() < static_cast<std::size_t>(std::distance(src.begin(), src.end())))
			{
				originalX.resize(n);
			}
''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(5, 5, 0.3);
	std::vector<V> x0;
	for (auto& a : r.q) x0.push_back(a.x);
	auto wall = [&](std::size_t i, double, double) { return vec(x0[i]); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-12, environment(r), wall, pre);
	auto all = particles(r.q);
	std::vector<OpenMps::Particle> a(all.begin(), all.end() - 30), b(all.end() - 30, all.end());
	c.AddParticles(a);
	c.AddParticles(b);
	for (int s = 0; s < 3; s++) { c.ForwardTime(0.0005); r.step(0.0005, [&](std::size_t i, double, double) { return x0[i]; }); }
	compare("step", c, r);
	std::puts("ok");
}
''', flags='-fopenmp -fsanitize=address -fno-sanitize-recover=all')

S('ds-inplace', 'C01', 'fluid particles closer than the stabilising distance and more than one thread, or simply a neighbour that was moved earlier in the same loop',
  'the stabilising push moves particles while other particles still compute their push from the positions',
  [('Computer.hpp', '''					du[i] = result;
				}
			}

			// 全粒子で
			OMP_PARALLEL_FOR
#ifdef SIGNED_LOOP_COUNTER
			for (auto ii = std::make_signed_t<decltype(n)>{0}; ii < static_cast<std::make_signed_t<decltype(n)>>(n); ii++)
			{
				const auto i = static_cast<decltype(n)>(ii);
#else
			for (auto i = decltype(n){0}; i < n; i++)
			{
#endif
				// 水粒子のみ
				if(particles[i].TYPE() == Particle::Type::IncompressibleNewton)
				{
					// 位置・速度を修正
					const auto thisDu = du[i];
					particles[i].U() += thisDu;
					particles[i].X() += thisDu * dt;
				}
			}
		}
#endif

	public:
''', '''					du[i] = result;

					// 位置・速度を修正
					particles[i].U() += result;
					particles[i].X() += result * dt;
				}
			}
		}
#endif

	public:
''')],
  step(setup='\tRef r = box(5, 5, 0.5);'))

S('disabled-pressure', 'C05', 'a particle that was disabled while it still carried a pressure',
  'the pressure of disabled particles is overwritten by the solved value',
  [('Computer.hpp', '''				// ダミー粒子と無効粒子は除く
				if ((particles[i].TYPE() != Particle::Type::Dummy) && (particles[i].TYPE() != Particle::Type::Disabled))
				{
					// 負圧は圧力0''', '''				// ダミー粒子は除く
				if (particles[i].TYPE() != Particle::Type::Dummy)
				{
					// 負圧は圧力0''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(5, 5, 0.3);
	for (std::size_t i = 0; i < r.q.size(); i += 17) { r.q[i].type = DISABLED; r.q[i].p = 5; r.q[i].n = 3; }
	auto ps = particles(r.q);
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-12, environment(r), wall, pre);
	c.AddParticles(ps);
	for (int s = 0; s < 3; s++) c.ForwardTime();
	for (std::size_t i = 0; i < r.q.size(); i += 17)
	{
		const auto& p = c.Particles()[i];
		if (p.P() != 5 || p.N() != 3 || p.TYPE() != OpenMps::Particle::Type::Disabled) { std::printf("disabled particle %zu changed: p %g\n", i, p.P()); return 1; }
	}
	std::puts("ok");
}
''')

APP = r'''#!/bin/bash
# run in the repository root: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
app=$PWD/_build/app/OpenMps
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cd "$t" && DEMO_APP="$app" timeout 250 python3 "$d/demo.py"
'''
PY = r'''import os, re, subprocess, sys
APP = os.environ['DEMO_APP']
def run(rows, start=0, end=0.004, interval=0.002, steps=4, head='Type, x, z, u, w, p, n', eps='1e-10', **env):
    e = dict(l_0=0.1, minStepCountPerOutput=steps, courant=0.1, g=9.8, rho=1000, nu=0.01, r_eByl_0=2.4, surfaceRatio=0.97,
             minX=-1, minZ=-1, minX2=0, maxX=2, maxZ=2)
    e.update(env)
    x = '<?xml version="1.0"?>\n<openmps><condition><startTime value="%s"/><endTime value="%s"/><outputInterval value="%s"/><eps value="%s"/></condition><environment>%s</environment><particles type="csv">%s\n%s\n</particles></openmps>\n' % (
        start, end, interval, eps, ''.join('<%s value="%s"/>' % kv for kv in e.items()), head, '\n'.join(rows))
    open('in.xml', 'w').write(x)
    p = subprocess.run([APP, 'in.xml'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, env=dict(os.environ, OMP_NUM_THREADS='4'))
    out = {}
    for f in sorted(os.listdir('result')):
        ls = open('result/' + f).read().splitlines()
        h = [a.strip() for a in ls[0].split(',')]
        out[int(re.search(r'\d+', f).group())] = [dict(zip(h, map(float, l.split(',')))) for l in ls[1:]]
    return p, out
def bad(*a):
    print(*a); sys.exit(1)
def tank(n=4, cols=lambda t, x, z: '%d, %g, %g, 0, 0, 0, 0'):
    r = []
    for i in range(-4, n + 4):
        for k in range(-4, n):
            t = 0 if 0 <= i < n and k >= 0 else 1 if -1 <= i <= n and k >= -1 else 2
            r.append((t, 0.1 * i, 0.1 * k))
    return r
'''

S('csv-order', 'C17', 'output of a particle with a velocity whose two components differ',
  'the two velocity components are written under the wrong headings',
  [('Main.cpp', '''				<< particle.X()[0] << ", " << particle.X()[1] << ", "
				<< particle.U()[0] << ", " << particle.U()[1] << ", "
''', '''				<< particle.X()[0] << ", " << particle.X()[1] << ", "
				<< particle.U()[1] << ", " << particle.U()[0] << ", "
''')],
  PY + r'''
p, out = run(['%d, %g, %g, %g, %g, 3, 4' % (a, b, c, 0.25 if a == 0 else 0.75, -0.5) for a, b, c in tank()])
for q in out[0]:
    if q['u'] != (0.25 if q['Type'] == 0 else 0.75) or q['w'] != -0.5 or q['p'] != 3 or q['n'] != 4:
        bad('initial output', q)
print('ok')
''', sh=APP)

S('schedule-restart', 'C18', 'a run whose start time is not zero',
  'the number of outputs is computed from the end time alone, so a restarted run goes on past the end time',
  [('Main.cpp', '''std::ceil((condition.EndTime - condition.StartTime) / condition.OutputInterval)''', '''std::ceil(condition.EndTime / condition.OutputInterval)''')],
  PY + r'''
p, out = run(['%d, %g, %g, 0, 0, 0, 0' % q for q in tank()], start=0.004, end=0.008)
if sorted(out) != [2, 3, 4]:
    bad('outputs', sorted(out))
print('ok')
''', sh=APP)

S('reader-column', 'C16', 'an input table whose columns are not in the usual order',
  'the number density is read from the last column instead of the column named n',
  [('Main.cpp', '''stov<double>(data[header["n"]]);''', '''stov<double>(data[headerCount - 1]);''')],
  PY + r'''
p, out = run(['%d, %g, 7, %g, 0.5, 0.25, 3' % q for q in tank()], head='Type, x, n, z, u, w, p')
for q in out[0]:
    if q['n'] != 7 or q['p'] != 3 or q['u'] != 0.5 or q['w'] != 0.25:
        bad('read', q)
print('ok')
''', sh=APP)

S('maxdt-whole', 'C15', 'a run with more than one output interval',
  'the largest step is the whole duration divided by the minimum number of steps per output, so an interval gets fewer steps than demanded',
  [('Main.cpp', '''LoadEnvironment(*xml, condition.OutputInterval);''', '''LoadEnvironment(*xml, condition.EndTime - condition.StartTime);''')],
  PY + r'''
p, out = run(['%d, %g, %g, 0, 0, 0, 0' % q for q in tank()], end=0.008, interval=0.002, steps=5)
it = [int(m) for m in re.findall(r'^#\d+: t=\s*\S+ \((\d+)\)', p.stdout, re.M)]
if len(it) != 5 or any(b - a < 5 for a, b in zip(it, it[1:])):
    bad('steps', it)
print('ok')
''', sh=APP)

S('lattice-range', 'C19', 'an influence radius of 3.1 initial distances (any whose fractional part is below one quarter)',
  'the reference density is summed over a lattice that is too small for some influence radii',
  [('Environment.hpp', '''static_cast<int>(std::ceil(r_eByl_0));''', '''static_cast<int>(r_eByl_0 + 0.75);''')],
  r'''#include <cmath>
#include <cstdio>
#include "Computer.hpp"
int main()
{
	for (double ratio : {1.5, 2.1, 2.4, 2.9, 3.0, 3.1, 3.2, 4.1, 4.7})
	{
		OpenMps::Environment e(0.001, 0.1, 9.8, 1000, 1e-6, ratio, 0.1, -1, -1, 1, 1);
		double n0 = 0;
		for (int i = -8; i <= 8; i++)
			for (int j = -8; j <= 8; j++)
			{
				const double r = 0.1 * std::sqrt(double(i * i + j * j)), re = ratio * 0.1;
				if ((i || j) && r < re * (1 - 1e-9)) n0 += re / r - 1;
			}
		if (!(std::fabs(e.N0() - n0) < 1e-6 * n0)) { std::printf("n0 for %g is %g, should be %g\n", ratio, e.N0(), n0); return 1; }
	}
	std::puts("ok");
}
''')

S('hs-surface', 'C26', 'a moving particle at the free surface',
  'the rate of change of the density is not suppressed at the free surface because the filled-up density is compared',
  [('Computer.hpp', '''				(thisN < n0) ? 0.0 : ''', '''				(particles[i].N() < n0) ? 0.0 : ''')],
  step())

S('density-once', 'C21', 'particles that move noticeably during the explicit part of the step',
  'the densities used by the pressure part are those of the start of the step',
  [('Computer.hpp', '''			// 粒子数密度を計算する
			ComputeNeighborDensities();

#ifdef MPS_DS
''', '''#ifdef MPS_DS
''')],
  step(setup='\tRef r = box(5, 5, 0.3); for (auto& a : r.q) if (a.type == FLUID) { a.u[0] *= 4; a.u[1] *= 4; }'))

S('explicit-euler', 'C27', 'a fluid particle whose acceleration is not zero',
  'particles are moved with the velocity of the start of the step',
  [('Computer.hpp', '''					particles[i].U() += a[i] * dt;
					particles[i].X() += particles[i].U()* dt;
''', '''					particles[i].X() += particles[i].U()* dt;
					particles[i].U() += a[i] * dt;
''')],
  step(steps=3))

S('option-capture', 'C22', 'a build with the free-surface particles (MPS_SPP) switched off',
  'the program no longer compiles without MPS_SPP',
  [('Computer.hpp', '''					[&thisX = particles[i].X(), r_e, n0,
#ifndef MPS_SPP
						surfaceRatio,
#endif
''', '''					[&thisX = particles[i].X(), r_e, n0,
''')], None, sh=r'''#!/bin/bash
# run in the repository root: exit 0 when the behaviour is right
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r src/OpenMps "$t/s" || exit 3
sed -i 's/^#define MPS_SPP/\/\/ #define MPS_SPP/' "$t/s/defines.hpp"
cat > "$t/s/demo.cpp" <<'E'
#include "Computer.hpp"
int main()
{
	OpenMps::Environment e(0.001, 0.1, 9.8, 1000, 1e-6, 0.97, 2.4, 0.1, -1, -1, 1, 1);
	auto wall = [](std::size_t, double, double) { return OpenMps::Vector{}; };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, e, wall, pre);
	std::vector<OpenMps::Particle> p;
	c.AddParticles(p);
	c.ForwardTime(0.001);
}
E
g++ -std=c++17 -O0 -w -fopenmp -I"$t/s" -Isrc/viennacl "$t/s/demo.cpp" -o "$t/demo" || exit 1
echo ok
''')

S('trunc-block', 'C02', 'a particle that leaves the region below its lower border by less than one block length',
  'positions slightly below the lower border count as being inside the first block, so the particle is not disabled',
  [('Grid.hpp', '''static_cast<Index>(std::floor(a / b))''', '''static_cast<Index>(a / b)''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(3, 3, 0.1);
	Pt p{}; p.type = FLUID; p.x = V{{-1.1, 0.05}};
	r.q.push_back(p);
	p.x = V{{0.05, -1.1}};
	r.q.push_back(p);
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-10, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	c.ForwardTime(0.0005);
	for (std::size_t i = r.q.size() - 2; i < r.q.size(); i++)
		if (c.Particles()[i].TYPE() != OpenMps::Particle::Type::Disabled) { std::printf("particle %zu outside the region is not disabled\n", i); return 1; }
	std::puts("ok");
}
''')
