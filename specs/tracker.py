file('tracker.cpp', ('nocxxopts',))
prop('P38', 'The whole tracker object (construction, snapshots, advance_timestep, threads, check_simplex, tracing, finalize) is executed symbolically on a small grid; some vertex values are symbolic integers/256, the others come from fixed layouts (moving zero, no zero, irregular, zeros on vertices). The reported faces are compared with the space-time triangles enumerated independently from the subdivision rule, the trajectories with the cells.', outside='grids larger than 4x4x3, more than two symbolic values per run, GMP/accelerator code paths, several processes')
for lay in (0, 2, 4, 5): run('ct2', '2x2 grid, 2 steps, layout %d, any one vertex symbolic in x' % lay, id='ct2_a%d' % lay, params=dict(lay=lay, one=1))
run('ct2', '2x2 grid, 2 steps, any one vertex symbolic in y', id='ct2_y', params=dict(lay=2, one=2))
for lay in (0, 2, 3): run('ct2', '3x3 grid, 2 steps, layout %d' % lay, id='ct2_g%d' % lay, params=dict(lay=lay, one=1, w=3, h=3), cost=100, max_time=400)
for lay in (0, 2): run('ct2', '2x2 grid, 3 steps, layout %d' % lay, id='ct2_t%d' % lay, params=dict(lay=lay, one=2, nt=3))
run('ct2', '2x2 grid, two vertices symbolic', id='ct2_ns', params=dict(lay=2, one=1, sym=2, at=2)); run('ct2', '2x2 grid, 2 threads', id='ct2_th', params=dict(lay=0, one=1, nthreads=2, at=4)); run('ct2', 'coordinate bounds', id='ct2_bd', params=dict(lay=0, one=1, bound=1)); run('ct2', 'first time step 5', id='ct2_t5', params=dict(lay=0, one=1, t0=5)); run('ct2', 'domain inside a larger array', id='ct2_sub', params=dict(lay=2, one=1, w=4, h=4, ox=1, oy=1, at=5)); run('ct2', 'with a scalar field', id='ct2_sc', params=dict(lay=0, one=1, scal=1))
for at in (0, 5): run('ct2', '2x2 grid, both components of a vertex symbolic', id='ct2_full%d' % at, params=dict(at=at), tiers=T, max_time=800, cost=300)
