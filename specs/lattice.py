file('lattice.cpp')
prop('P04', 'lattice.hh is executed symbolically: lower corners, sizes, point offsets and linear indices are symbolic integers, std::vector storage included; the solver decides round trips, range and containment over all values.',
     outside='more than 4 dimensions; extents beyond the stated bound (index arithmetic is checked with wrap-around semantics inside it)')
for nd, mx in ((1, 1000000), (2, 1000000), (3, 30000), (4, 1000)): run('lat_roundtrip', f'{nd} dimensions, sizes 1..{mx}, lower corners -100..100', params=dict(nd=nd, max=mx))
for nd, mx in ((1, 1000000), (2, 30000), (3, 1000), (4, 200)): run('lat_roundtrip', f'32-bit variant, {nd} dimensions, sizes 1..{mx}, lower corners -100..100', params=dict(nd=nd, max=mx, i32=1))
for nd, mx in ((1, 1000000), (2, 30000), (3, 1000)): run('lat_onto', f'{nd} dimensions, sizes 1..{mx}, lower corners -100..100', params=dict(nd=nd, max=mx))
run('lat_formula', '3 dimensions, sizes up to 30000', params=dict(nd=3)); run('lat_formula', '4 dimensions, sizes up to 30000', params=dict(nd=4))
run('lat_contains', '3 dimensions, corners and sizes up to 10^6'); run('lat_reshape', '3 dimensions, corners and sizes up to 1000')
prop('P05', 'lattice_partitioner.hh is executed symbolically for every block count in the bound (a branch per count) with symbolic domain corner, sizes, ghost widths and a symbolic test point.',
     outside='more than 3 dimensions; more blocks than the bound; domains with fewer points per dimension than blocks (the code declines those)')
run('part_free', '1 dimension, 1..8 blocks, sizes up to 2^20', params=dict(nd=1, maxnp=8)); run('part_free', '2 dimensions, 1..8 blocks, sizes up to 2^20', params=dict(nd=2, maxnp=8)); run('part_free', '3 dimensions, 1..6 blocks', params=dict(nd=3, maxnp=6))
run('part_given', '2 dimensions, 0..3 pinned blocks each, up to 6 more', params=dict(nd=2)); 
run('part_given', '3 dimensions, 0..3 pinned blocks each, up to 6 more', params=dict(nd=3), tiers=T)
