exec(open('/verif/tools/seedspec_b.py', encoding='utf-8').read().split("\nS('dt-stale'")[0])
exec("APP = r'''" + open('/verif/tools/seedspec_b.py', encoding='utf-8').read().split("APP = r'''", 1)[1].split("\nS('csv-order'")[0])

S('search-seldom', 'C02', 'particles that come into reach of each other during several steps',
  'the neighbours are searched anew only every eighth step, so particles that approach fast are seen too late',
  [('Computer.hpp', '''			SearchNeighbor();

			// 粒子数密度を計算する
			ComputeNeighborDensities();

#ifdef MPS_ECS''', '''			if (searchAge % 8 == 0 || particles.size() != searchCount)
			{
				SearchNeighbor();
				searchCount = particles.size();
			}
			searchAge++;

			// 粒子数密度を計算する
			ComputeNeighborDensities();

#ifdef MPS_ECS'''),
   ('Computer.hpp', '''		// 時間を進める
		void ForwardTime(const double dt)
''', '''		std::size_t searchAge = 0;
		std::size_t searchCount = 0;

		// 時間を進める
		void ForwardTime(const double dt)
''')],
  step(setup='''	Ref r = box(3, 3, 0.1);
	Pt a{}, b{}; a.type = b.type = FLUID;
	a.x = {-0.5, 1.5}; b.x = {-0.5 + 0.31, 1.5}; a.u = {9, 0}; b.u = {-9, 0};
	r.q.push_back(a); r.q.push_back(b);''', steps=7))

S('sum-cap', 'C21', 'a particle with more than 128 neighbours (a large influence radius)',
  'sums over the neighbours stop after the first 128 of them',
  [('Computer.hpp', '''			const auto n = NeighborCount(i);
			const auto thisX = particles[i].X();''', '''			const auto n = std::min(NeighborCount(i), std::size_t{128});
			const auto thisX = particles[i].X();''')],
  step(setup='''	Ref r = box(14, 14, 0.05); r.ratio = 5.8; r.init();''', steps=1))

S('breakdown-accepted', 'C11', 'two fluid particles that approach each other with nothing around them, so that the pressure equation is singular',
  'when the iteration breaks down and the residual is not a number, it is taken for converged',
  [('Computer.hpp', '''				isConverged = (residual < residual0);''', '''				isConverged = !(residual >= residual0);''')],
  r'''#include "ref.hpp"
int main()
{
	Ref r = box(1, 1, 0);
	r.q.clear();
	for (double s : {-1.0, 1.0})
	{
		Pt p{}; p.type = FLUID;
		p.x[0] = s * 0.002; p.u[0] = -s * 0.01;
		r.q.push_back(p);
	}
	auto wall = [&](std::size_t i, double, double) { return vec(r.q[i].x); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-12, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	try { c.ForwardTime(0.00001); }
	catch (const std::exception& e) { std::printf("ok: %s\n", e.what()); return 0; }
	std::puts("the pressure equation has no solution, but no error");
	return 1;
}
''')

S('reader-stop', 'C16', 'an input table with a blank line between two groups of particles',
  'the first blank line ends the table, the particles after it are lost',
  [('Main.cpp', '''			const auto data = GetItems(line);
			if (data.size() > 0) // 空行は飛ばす''', '''			const auto data = GetItems(line);
			if (data.size() == 0)
			{
				break;
			}
			if (data.size() > 0) // 空行は飛ばす''')],
  PY + r'''
rows = ['%d, %g, %g, 0, 0, 0, 0' % q for q in tank()]
p, out = run(rows[:20] + ['', '  '] + rows[20:])
if len(out[0]) != len(rows):
    bad('particles', len(out[0]), 'of', len(rows))
print('ok')
''', sh=APP)

S('wall-still', 'C03', 'a moving wall that comes to rest',
  'a wall particle that does not move during a step keeps the velocity of the step before',
  [('Computer.hpp', '''					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分
					particles[i].X() = x;
					particles[i].U() = u;''', '''					const Vector dx = x - particles[i].X();
					if (boost::numeric::ublas::inner_prod(dx, dx) > 0)
					{
						particles[i].X() = x;
						particles[i].U() = dx / dt; // 速度は位置から微分
					}''')],
  step(motion='x[0] += 0.1 * std::min(t, 0.0015);', steps=5))

S('schedule-drift', 'C18', 'steps that do not divide the output interval (fast particles), over several outputs',
  'each output interval starts where the last step ended instead of at a multiple of the interval, so outputs drift',
  [('Main.cpp', '''			nextOutputT += condition.OutputInterval;
			while''', '''			nextOutputT = tComputer + condition.OutputInterval;
			while''')],
  PY + r'''
p, out = run(['%d, %g, %g, %g, 0, 0, 0' % (q + ((13 if q[0] == 0 else 0),)) for q in [(0, 0.5, 0.5), (1, 1.5, 1.5), (1, -.5, -.5)]], end=0.016, interval=0.002, steps=1, nu=0, g=1e-9)
for n, t in re.findall(r'^#(\d+): t=\s*(\S+)', p.stdout, re.M):
    if not -1e-4 < float(t) - 0.002 * int(n) < 0.0009:
        bad('output', n, 'at', t)
if len(out) != 9:
    bad('outputs', len(out), p.stdout[-300:])
print('ok')
''', sh=APP)
