file('mpi.cpp', ('mpi', 'FTK_HAVE_MPI'))
prop('P39', 'gather.hh, redistribution.hh, scatter.hh, bcast.hh, all2all.hh and the serialization code are executed symbolically for all processes of a modelled MPI world (stubs/mpi/mpi.h): every process runs the real function, a collective stores its bytes and completes as soon as everybody has contributed. Values are symbolic, contents and sizes are chosen by the solver.', outside='more processes and entries; point-to-point traffic; the MPI library itself', assumptions=['the MPI library delivers collectives as the standard says'])
for a in (dict(), dict(root=2), dict(alias=1, root=1), dict(np=1), dict(np=2, nk=3)): run('mp_gather', 'maps of up to %d keys on %d processes, root %d%s' % (a.get('nk', 2), a.get('np', 3), a.get('root', 0), ', in place' if a.get('alias') else ''), id='mp_gather' + ''.join('_%s%d' % kv for kv in a.items()), params=a)
run('mp_merge', '2 processes, merging vectors, root 1'); run('mp_merge', '2 processes, to all', id='mp_merge_all', params=dict(all=1)); run('mp_set', '3 processes'); run('mp_set', '2 processes, root 1', id='mp_set_2', params=dict(np=2, root=1)); run('mp_allgather', '3 processes'); run('mp_redist', '2 processes, 3 keys'); run('mp_redist', '3 processes, 2 keys', id='mp_redist_3', params=dict(np=3, nk=2)); run('mp_redist', '2 processes, same inner keys', id='mp_redist_same', params=dict(nk=2, disjoint=0)); run('mp_all2all', '3 processes'); run('mp_scatter', '3 processes'); run('mp_scatter', '2 processes, root 1', id='mp_scatter_2', params=dict(np=2, root=1)); run('mp_bcast', '3 processes'); run('mp_bcast', '2 processes, root 1', id='mp_bcast_2', params=dict(np=2, root=1))
file('nompi.cpp'); run('mp_single', 'build without MPI, maps of up to 3 keys')
