file('sign.cpp')
B = {2: '|v| <= 2^40', 3: '|v| <= 2^29', 4: '|v| <= 2^19'}
N = {2: 'segments', 3: 'triangles', 4: 'tetrahedra'}
H = 'sign_det.hh and critical_point_test.hh are executed symbolically over integer vectors and symbolic vertex ids (64-bit wrap-around arithmetic, the full cascade of minors encoded); '
OUT = 'vectors large enough for the 64-bit determinants to wrap around (the bounds are the largest round ones for which they do not); GPU code paths'
prop('P01', H + 'general position is expressed by independently expanded determinants (Cramer), the answer of the robust test is compared with "all barycentric numerators have the sign of the determinant"; a second family shows every orientation is decided (+1/-1) for every vector, degenerate or not.', outside=OUT)
for n in (2, 3, 4): run(f'exact{n}', f'{N[n]}, every id order, {B[n]}, general position')
for n in (2, 3, 4): run(f'never{n}', f'{N[n]}, every id order, {B[n]}, all positions')
prop('P02', H + 'the sign cascade is compared with the sign of the symbolically perturbed determinant (polynomial in eps, exponents concrete, coefficients symbolic); orientation and containment are compared before and after every adjacent exchange (these generate all orders), all degenerate positions included.', outside=OUT)
for n in (2, 3, 4): run(f'sos{n}', f'{N[n]}, {B[n]}, all positions')
for n in (2, 3, 4): run(f'perm{n}', f'{N[n]}, every id order and adjacent exchange, {B[n]}')
for n in (2, 3, 4): run(f'cperm{n}', f'{N[n]}, every id order and adjacent exchange, {B[n]}')
prop('P03', H + 'the robust test is applied to all facets of an n-simplex with shared vertices (the cells of every subdivision are such simplices, and closed cell boundaries are mod-2 sums of simplex boundaries): the number of punctured facets is 0 or 2. "At most two" is decided for all vectors; the parity for general position over the full range (with Grassmann-Pluecker sign relations, proved in gp_lemma, instantiated on identities that are checked) and for all positions, degenerate included, over small components.',
     outside=OUT + '; parity in degenerate position with components beyond the small bounds')
for n in (2, 3, 4): run(f'atmost2_{n}', f'boundary of a {n}-simplex, {B[n]}, all positions')
run('gp_lemma', 'all reals'); run('gppar3', '4 facets (triangles), |v| <= 2^29, general position'); run('gppar4', '5 facets (tetrahedra), |v| <= 2^19, general position', max_time=200); run('parity2', 'full range, all positions')
run('parity3', '4 facets (triangles), components -1..1, all positions', params=dict(bound=1), flags=['--int-bv'])
run('parity3', '4 facets (triangles), components -2..2, all positions', params=dict(bound=2), flags=['--int-bv'])
for d in (4, 13, 22): run('parity4s', 'tetrahedra, components -1..1, first vector zero, second vector one of three', params=dict(bound=1, lo=13, cnt=1, dlo=d, dcnt=1), flags=['--int-bv'])
for c in range(27): run('parity4s', f'tetrahedra, components -1..1, all positions with first vector #{c}', params=dict(bound=1, lo=c, cnt=1), flags=['--int-bv'], tiers=T, max_time=250)
