RM = 'simplicial_regular_mesh.hh is executed symbolically, construction of the subdivision tables included; '
file('rmesh.cpp')
prop('P06', RM + 'domain bounds, element corner, type and linear index are symbolic integers, dimension and scope are branches; the order relation is decided on three symbolic elements.',
     outside='elements of different dimension (the order relation ignores the dimension); domains whose element count does not fit 63 bits')
for nd, mx in ((2, 30000), (3, 2000), (2, 1 << 28), (3, 1 << 19)): run('rm_roundtrip', f'{nd}D mesh, extents up to {mx}, lower bounds -1000..1000, every dimension and type', params=dict(nd=nd, max=mx))
for nd, mx in ((2, 1 << 17), (3, 4096)): run('rm_roundtrip', f'{nd}D mesh, {mx} points per axis, lower bounds -1000..1000', params=dict(nd=nd, max=mx, fix=1))
run('rm_roundtrip', '4D mesh, extents up to 4000', params=dict(nd=4, max=4000), max_time=300, tiers=T)
for nd, mx in ((2, 30000), (3, 2000)): run('rm_work', f'{nd}D mesh, sub-domain extents up to {mx}, every scope', params=dict(nd=nd, max=mx))
run('rm_work', '4D mesh, sub-domain extents up to 200, every scope', params=dict(nd=4, max=200), max_time=300, tiers=T)
for nd in (2, 3, 4): run('rm_less', f'{nd}D, all corners up to 10^6', params=dict(nd=nd), cost=3)
prop('P07', RM + 'every element of every dimension and type (all of them, by branching) at a symbolic corner; sides and parents are compared with the vertex sets; a symbolic real point decides that the cells tile the unit cell.', outside='meshes above 4 dimensions')
for nd in (2, 3): run('rm_sides', f'{nd}D mesh, all types, corners up to 10^6', params=dict(nd=nd)); run('rm_valid', f'{nd}D mesh, all types, bounds up to 10^3', params=dict(nd=nd))
for d in range(5): run('rm_sides', f'4D mesh, all types of dimension {d}', params=dict(nd=4, d=d), max_time=300, cost=5, **({} if d in (1, 4) else dict(tiers=T)))
for nd in (2, 3, 4): run('rm_tile', f'{nd}D mesh, all points of the unit cell with distinct coordinates', params=dict(nd=nd), cost=4)
prop('P08', RM + 'the visitor counts visits; lattice corner symbolic, extents, thread count and the execution order of the threads are branches.', outside='more than 3 points per dimension (2 in 3D), more than 3 threads, preemption inside one visit; other accelerators than the thread pool')
for d in range(3):
    for how in range(3): run('rm_for', f'2D mesh, dimension {d}, up to 3 points per axis, 1..3 threads', params=dict(nd=2, d=d, how=how))
for d in range(4):
    for how in range(3): run('rm_for', f'3D mesh, dimension {d}, up to 2 points per axis, 1..2 threads', params=dict(nd=3, d=d, how=how, max=2, maxthreads=2), **({} if d in (0, 2) else dict(tiers=T)))
for nd, d in ((2, 0), (2, 1), (2, 2)): run('rm_for_sub', f'{nd}D mesh, dimension {d}, every scope', params=dict(nd=nd, d=d))
for nd in (2, 3, 4): run('rm_scope', f'{nd}D mesh, all types', params=dict(nd=nd), cost=4, **({} if nd < 4 else dict(tiers=T)))
for be, feats, defs in (('thread pool', (), ()), ('TBB', ('FTK_HAVE_TBB', 'tbb'), ('-DBACKEND=FTK_THREAD_TBB',)), ('OpenMP', ('FTK_HAVE_OPENMP',), ('-DBACKEND=FTK_THREAD_OPENMP',))):
    file('par.cpp', feats, defs); t = be.split()[0]
    if t == 'thread': prop('P09', 'object.hh is executed symbolically; task and thread counts are branches, the order in which started threads run (before, between, at join) is chosen by the solver, a symbolic task index decides large loops. TBB is replaced by a model of its contract (arbitrary splitting and order of the range), OpenMP loops run in sequence.', outside='preemption inside a task body; more than 6 tasks with all schedules (60 tasks with one order); the processor affinity setting')
    run('par_for', f'{be}: 0..6 tasks, 1..4 threads, all orders', id=f'par_for_{t}', params=dict(max=6, maxthreads=4))
    for n, nt in ((40, 9), (60, 16), (5, 7), (0, 3), (1, 1), (16, 16)) if t == 'thread' else ((40, 9),): run('par_for_many', f'{be}: {n} tasks, {nt} threads', id=f'par_for_many_{t}_{n}_{nt}', params=dict(n=n, nthreads=nt, sched=1 + n % 2, tbbsplits=3), max_time=60)
    run('par_set', f'{be}: sets of 0..4 elements, 1..3 threads', id=f'par_set_{t}'); run('par_container', f'{be}: maps of 0..4 entries, 1..3 threads', id=f'par_container_{t}')
TOPO = ['one triangle', 'two triangles sharing an edge', 'two triangles sharing a vertex', 'three triangles around a vertex (boundary inside the link)', 'a strip of three triangles', 'a closed tetrahedral surface', 'two separate triangles', 'a fan of four triangles around an inner vertex']
UM = 'the unstructured 2D mesh header is executed symbolically on every labelling of the vertices '
for be, feats in (('', ()), ('_tbb', ('FTK_HAVE_TBB', 'tbb'))):
    file('umesh.cpp', feats); w = '; TBB hash map' if be else ''
    if not be: prop('P10', UM + '(vertex labels are symbolic and resolved by the solver) of the listed triangulations and on arbitrary symbolic connectivity of two triangles, with the std::map lookup tables and with a model of the TBB hash map contract.', outside='meshes above 4 triangles; edges shared by more than two triangles; reading VTK files; the METIS partition')
    for tp, what in enumerate(TOPO):
        if be and tp not in (1, 4): continue
        big = tp in (2, 4, 7); run('um_topo', what + ', ' + ('one' if big or tp == 6 else 'every') + ' labelling' + w, id=f'um_topo_{tp}{be}', params=dict(topo=tp, **(dict(fixperm=1, extra=1) if big or tp == 6 else {})), cost=2)
        if (big or tp == 6) and not be: run('um_topo', what + ', every labelling', id=f'um_topo_all_{tp}', params=dict(topo=tp), tiers=T, max_time=400)
    run('um_topo', 'two triangles, constructed from vectors, every labelling' + w, id='um_topo_vec' + be, params=dict(topo=1, vec=1))
    if not be:
        run('um_any', 'any two triangles on 4 vertices', params=dict(nv=4, nt=2), cost=4)
        run('um_any', 'any two triangles on 5 vertices', params=dict(nv=5, nt=2), tiers=T, max_time=600); run('um_any', 'any three triangles on 4 vertices', params=dict(nv=4, nt=3), tiers=T, max_time=900)
    run('um_find', 'every vertex tuple on two triangles' + w, id='um_find' + be, params=dict(topo=1), cost=4)
    run('um_find', 'every vertex tuple on a strip of three triangles and an isolated vertex' + w, id='um_find4' + be, params=dict(topo=4, fixperm=1, extra=1), cost=3)
file('umesh.cpp')
prop('P11', UM + 'of the base triangulation; the time slab is a symbolic integer (positive and negative), elements are branches; an arbitrary point of the prism decides that the tetrahedra tile it.', outside='base meshes above 4 triangles; partitioned base meshes; triangle/edge parents of lower dimension than offered (the code provides sides of tetrahedra and parents of triangles only); extrusions given as an explicit 3D mesh')
for d in range(4): run('ex_ids', f'two triangles, every labelling, dimension {d}, slabs -10^5..10^5', params=dict(topo=1, d=d, tmax=100000), cost=3)
for d in range(4): run('ex_ids', f'fan of four triangles and an isolated vertex, dimension {d}, slabs -10^5..10^5', params=dict(topo=7, fixperm=1, extra=1, d=d, tmax=100000), cost=3)
for d in (1, 2, 3): run('ex_distinct', f'one triangle, every labelling, dimension {d}, slabs -3..3', params=dict(topo=0, d=d)); run('ex_distinct', f'strip of three triangles, dimension {d}, slabs -3..3', params=dict(topo=4, fixperm=1, d=d), cost=3)
for e in ('ex_sides', 'ex_parents'):
    run(e, 'two triangles, every labelling, slabs -2..2', params=dict(topo=1, conc=1, tmax=2), cost=5); run(e, 'fan of four triangles, slabs -3..3', params=dict(topo=7, fixperm=1, conc=1), cost=2)
    for tp in (3, 5): run(e, TOPO[tp] + ', every labelling, slabs -3..3', params=dict(topo=tp, conc=1), tiers=T, max_time=400)
for tp in (0, 1): run('ex_tile', TOPO[tp] + ', every labelling, every interior point', params=dict(topo=tp))
run('ex_tile', TOPO[7] + ', every interior point', params=dict(topo=7, fixperm=1))
for d in (1, 2, 3): run('ex_for', f'two triangles, every labelling, dimension {d}, slabs -3..3', params=dict(topo=1, d=d))
