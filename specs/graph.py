file('graph.cpp')
prop('P17', 'the union-find headers are executed symbolically; the elements of every union and query of a history are solver variables, the result is compared with a reference partition maintained by relabelling.', outside='histories longer than the bounds; concurrent use of the thread-safe variant')
run('uf_map', '4 elements, 3 unions, no queries in between', params=dict(queries=0)); run('uf_map', '3 elements, 2 unions with queries', params=dict(n=3, k=2)); run('uf_simple', '4 elements, 3 unions', params=dict(n=4)); run('uf_sym', '4 elements, 2 unions, all elements symbolic', params=dict(n=4, k=2)); run('uf_sym', '5 elements, 2 unions, all elements symbolic', params=dict(n=5, k=2), tiers=T, max_time=600); run('uf_sym', '4 elements, 3 unions, all elements symbolic', params=dict(n=4, k=3), tiers=T, max_time=850); run('uf_simple', '5 elements, 4 unions', params=dict(n=5, k=4), tiers=T, max_time=800); run('uf_simple', '3 elements, 2 unions, queries between, after a reset', params=dict(n=3, k=2, queries=1, reset=1)); run('uf_chain', '5 elements, any order of unions along a chain with one link missing', params=dict(n=5))
file('duf.cpp')
run('duf_seq', 'thread-safe variant, 4 elements, 2 unions and one query', id='duf_seq', params=dict(k=2, q=1))
file('graph.cpp')
prop('P18', 'cca.hh and hoshen_kopelman.hh are executed symbolically; every link of the graph and every pixel is a solver variable.', outside='larger graphs and images')
run('cc_all', '4 nodes, every graph', params=dict(n=4)); run('cc_all', '4 nodes with self links', params=dict(n=4, selfs=1)); run('cc_some', '4 nodes, every graph and subset'); run('cc_some', '4 nodes, by criterion', params=dict(how=1)); run('cc_oneway', '3 nodes', params=dict(n=3)); run('cc_track', '3 elements'); run('hk', '3x2 image', params=dict(w=3, h=2)); run('hk', '3x3 image', params=dict(w=3, h=3)); run('hk', '1x5 image', params=dict(w=1, h=5))
prop('P19', 'cc2curves.hh (with cca.hh) is executed symbolically on graphs whose links are solver variables.', outside='larger components')
run('cv_split', '4 nodes, every connected graph'); run('cv_split', '4 nodes, self links', params=dict(selfs=1)); run('cv_split', '3 nodes, links leaving the component', params=dict(n=3, outside=1)); run('cv_split', '5 nodes', params=dict(n=5)); run('cv_perm', 'path or cycle of 5 nodes, any labelling'); run('cv_perm', '2 nodes', params=dict(n=2)); run('cv_empty', 'none and one')
prop('P21', 'dijkstra.hh and bfs.hh are executed symbolically on graphs whose links are solver variables with symbolic real weights.', outside='larger graphs; rounding')
run('sp', '3 nodes, every graph, connected or not', params=dict(n=3, any=1)); run('sp', '4 nodes, every graph', params=dict(any=1)); run('sp', '3 nodes, one weight per direction', params=dict(n=3, directed=1)); run('bfs_all', '4 nodes, every graph and criterion')
prop('P20', 'kd.hh is executed symbolically: point coordinates and query are symbolic reals, tree shape and pruning follow from solver-decided comparisons.', outside='larger point sets; rounding; depth-limited trees (leaves then hold several points); the non-recursive search (does not compile)')
file('kd.cpp', (), ('-DDIM=1',))
for np in (1, 2, 3, 4): run('kd_nearest', f'{np} points on a line', id=f'kd1_{np}', params=dict(np=np))
run('kd_nearest', '5 points on a line', id='kd1_5', params=dict(np=5), tiers=T, max_time=850)
file('kd.cpp')
for np in (1, 2): run('kd_nearest', f'{np} points in the plane, all coordinates and queries', id=f'kd2_{np}', params=dict(np=np))
run('kd_nearest', '3 points in the plane, one query', id='kd2_fq_3', params=dict(np=3, fixq=1))
run('kd_nearest', '4 points on a 2x2 grid, all queries', id='kd2_grid_4_2', params=dict(np=4, grid=2))
for np in (4, 6, 7): run('kd_nearest', f'8 layouts of {np} points in the plane, all queries', id=f'kd2_lay_{np}', params=dict(np=np, layouts=1))
run('kd_nearest', '3 points on a 3x3 grid, all queries', id='kd2_grid_3_3', params=dict(np=3, grid=3), tiers=T, max_time=600); run('kd_nearest', '8 layouts of 8 points in the plane, all queries', id='kd2_lay_8', params=dict(np=8, layouts=1), tiers=T, max_time=850)
for h in (1, 2): run('kd_nearest', '2 points in the plane, other entry points', id=f'kd2_how{h}', params=dict(np=2, how=h, arr=1))
run('kd_self', '3 points in the plane', params=dict(np=3)); run('kd_self', '8 layouts of 8 points', params=dict(np=8, layouts=1))
file('kd.cpp', (), ('-DDIM=3',))
run('kd_nearest', f'2 points in space', id=f'kd3_2', params=dict(np=2)); run('kd_nearest', '8 layouts of 4 points in space, all queries', id='kd3_lay', params=dict(np=4, layouts=1)); run('kd_nearest', '8 layouts of 6 points in space, all queries', id='kd3_lay6', params=dict(np=6, layouts=1), tiers=T, max_time=850)
