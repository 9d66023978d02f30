NUMH = 'The numeric headers are executed symbolically with every floating-point input a real variable (arithmetic exact, every branch on values explored); '
NUMO = 'rounding errors of floating-point arithmetic (the algorithms are decided over the reals)'
file('linear.cpp')
prop('P22', NUMH + 'the solution is substituted back into the equations (normal equations for least squares), the determinant compared with the sum over permutations.', outside=NUMO + '; Gaussian elimination beyond 3 unknowns')
for e in ('lin1', 'roots1', 'lin2', 'lin2_sing', 'lin3', 'lin3_sing', 'inv2', 'inv3', 'inv4', 'lsq21', 'lsq31', 'lsq32', 'lsq32_2', 'legs2'): run(e, 'all real matrices and right-hand sides')
for c in range(3): run('lsq43_3', f'all real 4x3 matrices of full rank, column {c}', params=dict(c=c))
run('legs3', 'Gaussian elimination, 3 unknowns, all real matrices', tiers=T)
file('matrix.cpp')
prop('P23', NUMH + 'each helper is compared with its defining identity written out independently (determinant as permutation sum, products as sums, characteristic polynomial as determinant of the shifted matrix at a symbolic shift).', outside=NUMO)
for e in ('m_det', 'm_detprod', 'm_transpose', 'm_product', 'm_vec', 'm_adj', 'm_decomp', 'm_norm2', 'm_norm3', 'm_vnorm', 'm_unit2', 'm_unit3', 'm_charpoly'): run(e, 'all real inputs')
file('poly.cpp')
prop('P24', NUMH + 'roots are substituted back, completeness is decided with a symbolic candidate root, the output arrays are heap blocks of exactly the announced size so that an out-of-range write is a violation.', outside=NUMO + '; coefficients strictly between 0 and 1e-6 in magnitude (the solvers treat values below machine epsilon as zero); cubic formulas with acos/cbrt')
for e in ('p_eval', 'p_ring', 'p_zero', 'p_quad', 'p_quadc', 'p_quadm', 'p_cubic_deg', 'p_cubic_zero', 'p_cubic_disc', 'p_cubic3', 'p_cubicm'): run(e, 'all real coefficients (degrees up to 5 for evaluation, 3 for arithmetic)')
file('interp.cpp')
prop('P26', NUMH + 'every interpolant is compared with the weighted sum, inverse problems are substituted back (least-squares residual orthogonal to the simplex for overdetermined ones), gradients and Jacobians compared with the slopes of a symbolic affine field, quadratic interpolants with a symbolic quadratic field.', outside=NUMO + '; inverse bilinear interpolation where its leading coefficients vanish')
for e in ('i_lerp', 'i_lerpm', 'i_bilin', 'i_inv11', 'i_inv12', 'i_inv12z', 'i_inv22', 'i_inv22s', 'i_inv23', 'i_inv230', 'i_inv33', 'i_inv33s', 'i_grad2', 'i_jac2', 'i_quadmu', 'i_quadx', 'i_quadd'): run(e, 'all real vertex values, positions and coordinates')
for k in range(3): run('i_jac3', f'all real tetrahedra and affine fields, component {k}', params=dict(k=k))
for k in range(4): run('i_invbil', 'all real bilinear coefficients (leading matrix restricted by kind)', params=dict(kind=k))
run('i_intinv', 'all integer vectors up to 10^6 in magnitude')
file('clamp.cpp')
prop('P27', NUMH + 'clamping is executed on unconstrained coordinates, including infinite ones.', outside=NUMO)
run('c_clamp', 'all reals, all integers up to 10^6')
for e in ('c_bary2', 'c_bary3', 'c_bary4', 'c_spec3'): run(e, 'all real coordinates')
file('eigen.cpp')
prop('P25', NUMH + 'eigenvalues are compared with trace, determinant and characteristic equation; eigenvectors are substituted into the eigen equation for matrices built to have a symbolic eigenvalue.', outside=NUMO + '; coefficients strictly between 0 and 1e-6 in magnitude for the real-root variants (treated as zero by the quadratic solver); cos/acos/cube roots are replaced by their algebraic definition')
for e in ('e_sym2', 'e_gen2', 'e_real2', 'e_gen22', 'e_vec2', 'e_vec2i'): run(e, 'all real matrices')
for k in range(3): run('e_vec3', '3x3 matrices with a simple symbolic eigenvalue and eigenvector, family by kind', params=dict(kind=k))
run('e_vec3z', 'symmetric matrices with an eigenvector of vanishing coordinate sum')
for k in (1, 2): run('e_sym3', ('', 'all symmetric 3x3 matrices with a repeated eigenvalue, p I + u u^T', 'all symmetric 3x3 matrices with a repeated eigenvalue, p I - u u^T')[k], params=dict(kind=k))
for w in range(4): run('e_sym3', 'symmetric 3x3 matrices s I + k B for every real s and k, one fixed B per run', id=f'e_sym3_w{w}', params=dict(kind=0, w=w), **({} if w < 2 else dict(tiers=T)))
prop('P29', NUMH + 'the reported type is compared with the one derived from determinant, trace and discriminant.', outside=NUMO + '; the three-dimensional classification is decided relative to the eigenvalues the solver of P25 returns')
for e in ('t_sym2', 't_gen2'): run(e, 'all real Jacobians')
for k in (1, 2): run('t_sym3', ('', 'all symmetric 3x3 Hessians with a repeated eigenvalue, p I + u u^T', 'all symmetric 3x3 Hessians with a repeated eigenvalue, p I - u u^T')[k], params=dict(kind=k), tiers=T)
for w in range(4): run('t_sym3', 'symmetric 3x3 Hessians s I + k B for every real s and k, one fixed B per run', id=f't_sym3_w{w}', params=dict(kind=0, w=w), **({} if w < 2 else dict(tiers=T)))
run('t_names', 'all type codes')
file('pv.cpp')
prop('P30', NUMH + 'returned points are substituted into v - l w; a symbolic candidate point decides completeness on segments; the polynomials describing the parallel curve in a tetrahedron or triangle are evaluated at a symbolic ratio.', outside=NUMO + '; triangles whose second field has full rank are decided for the listed fixed fields with two free components; determinants strictly between 0 and 1e-6 in magnitude')
for e in ('pv_verify3', 'pv_chp2', 'pv_chp2c'): run(e, 'all real fields')
for k in range(2): run('pv_verify', 'all real fields', params=dict(tri=k))
for n in (2, 3, 4): run('pv_verify3i', 'all real fields', params=dict(n=n))
for c in range(3): run('pv_chp3', f'all real fields, component {c}', params=dict(c=c))
for k in range(4): run('pv_s1v2', ('all first fields, all constant second fields', 'all first fields, fixed second field', 'all first fields, fixed second field', 'all first fields, fixed second field')[k], params=dict(kind=k), **({} if k == 0 else dict(tiers=T)))
run('pv_s1v2c', 'all first fields, constant second field', params=dict(kind=0))
run('pv_s1v2c', 'all real fields', params=dict(kind=1), tiers=T, noreach=True)
for ax in range(3):
    for fr in range(3): run('pv_s2v3', 'second field along one axis, three components of the first free', id=f'pv_s2v3_ax{ax}{fr}', params=dict(kind=0, ax=ax, fr=fr), **({} if (ax, fr) in ((1, 0), (0, 0)) else dict(tiers=T)))
for a, b in ((0, 0), (1, 1), (2, 0), (3, 1), (0, 2), (2, 2)): run('pv_s2v3', 'fixed fields, one component of the first free in [-8, 8]', id=f'pv_s2v3_{a}{b}', params=dict(kind=1, a=a, b=b, q=-1), **({} if (a, b) == (2, 0) else dict(tiers=T)))
file('intervals.cpp')
prop('P28', NUMH + 'membership in the result is compared with the membership in the operands (or with the sign of the polynomial) at a symbolic point; interval sets are built by joining symbolic intervals (every combination of open, closed, unbounded, empty).', outside=NUMO + '; end points beyond 10^9; sets of more than three intervals (four with closed ones); the rational inequality at points within 10^-6 of a root, for polynomials outside the listed families')
for e in ('iv_contains_d', 'iv_contains_l', 'iv_ops_d', 'iv_ops_l', 'dj_misc', 'lin_ineq'): run(e, 'all intervals of every kind, end points and points up to 10^9')
for t in 'dl':
    run('dj_join_' + t, 'all pairs of intervals of every kind', params=dict(n=2)); run('dj_inter_' + t, 'two single intervals of every kind', params=dict(m=1, n=1)); run('dj_joinc_' + t, 'all pairs of closed intervals, then intersection with another', params=dict(n=2, fl=0))
    for fl in (0, 0b10011001, 0b00100100): run('dj_joinc_' + t, 'three bounded intervals with fixed open and closed ends', params=dict(n=3, fl=fl + 256), tiers=T, tmax_time=500)
run('dj_quant', 'all intervals of every kind', params=dict(n=1))
run('quad_ratl', 'linear numerator and denominator with three roots, all leading coefficients, every point')
for k in range(9): run('quad_rat', 'listed polynomials, every point', params=dict(p=k))
