STEP = r'''#include "ref.hpp"
int main()
{
%(setup)s
	std::vector<V> x0;
	for (auto& a : r.q) x0.push_back(a.x);
	auto at = [&](std::size_t i, double t, double dt) { (void)t; (void)dt; V x = x0[i]; %(motion)s return x; };
	auto wall = [&](std::size_t i, double t, double dt) { return vec(at(i, t, dt)); };
	auto pre = [](double, double) {};
	auto c = OpenMps::CreateComputer(1e-12, environment(r), wall, pre);
	c.AddParticles(particles(r.q));
	for (int s = 0; s < %(steps)d; s++)
	{
		const double dt = r.determineDt();
		c.ForwardTime();
		if (!(std::fabs(c.GetEnvironment().Dt() - dt) <= 1e-9 * dt)) { std::printf("time step %%g, should be %%g\n", c.GetEnvironment().Dt(), dt); return 1; }
		r.step(dt, at);
		compare("step", c, r);
	}
	std::puts("ok");
}
'''


def step(setup='\tRef r = box(5, 5, 0.3);', motion='', steps=4):
    return STEP % dict(setup=setup, motion=motion, steps=steps)


S('wall-frame', 'C03', 'a wall or dummy particle whose prescribed position changes between steps (a moving wall) and a fluid neighbour or a reader of its velocity',
  'wall velocity is taken from the position after the move, so moving walls always have zero velocity',
  [('Computer.hpp', '''					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分
					particles[i].X() = x;
					particles[i].U() = u;''', '''					particles[i].X() = x;
					particles[i].U() = (x - particles[i].X()) / dt; // 速度は位置から微分''')],
  step(motion='x[0] += 0.1 * t;'))

S('dt-fluid-only', 'C10', 'a wall particle that moves faster than every fluid particle at the moment the step is chosen',
  'the automatically chosen time step ignores the speed of moving walls, so it exceeds the Courant limit',
  [('Computer.hpp', '''				if (particle.TYPE() != Particle::Type::Disabled)
				{
					const auto& u = particle.U();''', '''				if (particle.TYPE() == Particle::Type::IncompressibleNewton)
				{
					const auto& u = particle.U();''')],
  step(setup='\tRef r = box(5, 5, 0.05); r.maxDt = 1; r.init();', motion='if (i == 0) x[0] -= 4 * t;', steps=3))

S('ecs-late', 'C26', 'fluid that is compressed and moving, so that the density error at the start of the step differs from the one after the explicit motion',
  'the error correction of the pressure source is evaluated after the particles moved instead of at the start of the step',
  [('Computer.hpp', '''#ifdef MPS_ECS
			ComputeErrorCorrection();
#endif

			// 第一段階の計算
			ComputeExplicitForces();
''', '''			// 第一段階の計算
			ComputeExplicitForces();

#ifdef MPS_ECS
			ComputeErrorCorrection();
#endif
''')],
  step(setup='\tRef r = box(6, 6, 0.2); for (auto& a : r.q) if (a.type == FLUID) { a.u[0] = -0.3 * a.x[0]; a.u[1] = -0.3 * a.x[1]; }'))

S('savex-late', 'C29', 'two fluid particles closer than the stabilising distance after the pressure correction moved them',
  'the positions the stabilising push refers to are stored after the pressure correction, so the push acts along the wrong direction',
  [('Computer.hpp', '''#ifdef MPS_DS
			// 圧力勾配の前の位置を保存
			SaveX();
#endif

			// 第二段階の計算
			ComputeImplicitForces();

#ifdef MPS_DS
''', '''			// 第二段階の計算
			ComputeImplicitForces();

#ifdef MPS_DS
			// 圧力勾配の前の位置を保存
			SaveX();

''')],
  step(setup='\tRef r = box(5, 5, 0.5);'))

S('row-not-cleared', 'C07', 'at least two steps during which a pair of particles leaves the influence radius of each other',
  'the row buffer of excluded particles is cleared only, so coefficients of pairs that drifted apart stay in the matrix',
  [('Computer.hpp', '''				auto& a_i = ppe.a_ij[i];
				a_i.clear();
#endif''', '''				auto& a_i = ppe.a_ij[i];
				if (NeighborCount(i) == 0)
				{
					a_i.clear();
				}
#endif''')],
  step(setup='\tRef r = box(5, 5, 0.3); r.maxDt = 0.01; for (auto& a : r.q) if (a.type == FLUID) a.u[1] += 5 * a.x[0];', steps=12))

S('gradient-dummy', 'C04', 'a fluid particle with a dummy particle inside its influence radius whose stored pressure is not zero',
  'dummy particles with a stored pressure push fluid particles away',
  [('Computer.hpp', '''						// ダミー粒子以外
						if(type != Particle::Type::Dummy)
						{
							namespace ublas = boost::numeric::ublas;

							const auto dx = x - thisX;''', '''						// ダミー粒子以外
						if((type != Particle::Type::Dummy) || (p > 0))
						{
							namespace ublas = boost::numeric::ublas;

							const auto dx = x - thisX;''')],
  step(setup='\tRef r = box(5, 5, 0.3); for (auto& a : r.q) if (a.type == DUMMY) a.p = 50;'))

S('wall-time-old', 'C24', 'a wall-motion function that uses its time argument',
  'walls are positioned for the time before the step instead of the time after it',
  [('Computer.hpp', '''					const Vector x = positionWall(i, t, dt);''', '''					const Vector x = positionWall(i, t - dt, dt);''')],
  step(motion='x[0] += 0.1 * t;'))

S('wall-pressure', 'C12', 'a wall particle whose solved pressure is negative',
  'negative solved pressures are kept on wall particles',
  [('Computer.hpp', '''					particles[i].P() = ((p < 0)
''', '''					particles[i].P() = ((p < 0 && particles[i].TYPE() == Particle::Type::IncompressibleNewton)
''')],
  step(setup='\tRef r = box(5, 5, 0.3); for (auto& a : r.q) if (a.type == FLUID) { a.u[0] *= 4; a.u[1] *= 4; }'))
