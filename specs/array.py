file('ndarray.cpp')
ND = 'ndarray.hh and ndarray_base.hh are executed symbolically; every shape within the bound is a branch, every element value is symbolic, '
OUT = 'file formats (netCDF, HDF5, VTK, ADIOS, raw files), print, operators that are declared but not defined; larger shapes than listed'
prop('P12', ND + 'multi-indices are branches, or symbolic integers where noted; the reference is the position computed from the definition.', outside=OUT)
for nd, mx in ((1, 6), (2, 4), (3, 3), (4, 2)): run('nd_index', f'all {nd}D shapes up to {mx} per axis', params=dict(nd=nd, max=mx)); run('nd_transpose', f'all {nd}D shapes up to {mx} per axis', params=dict(nd=nd, max=mx))
for nd in (5, 6, 7): run('nd_index', f'all {nd}D shapes up to 2 per axis', params=dict(nd=nd, max=2), **({} if nd == 5 else dict(tiers=T, max_time=600)))
for nd in (2, 3, 4): run('nd_distinct', f'{nd}D shape, two symbolic multi-indices', params=dict(nd=nd))
run('nd_big', 'extents n0 x 2^14 x 2^14, symbolic n0 up to 2^20 and symbolic indices')
for nd, mx in ((2, 3), (3, 2)): run('nd_reshape', f'all {nd}D shapes up to {mx} per axis, 6 ways of reshaping', params=dict(nd=nd, max=mx)); run('nd_convert', f'all {nd}D shapes up to {mx} per axis, int/double/long', params=dict(nd=nd, max=mx))
for nd, mx in ((1, 4), (2, 2), (3, 2)): run('nd_arith', f'all {nd}D shapes up to {mx} per axis', params=dict(nd=nd, max=mx))
run('nd_stats', 'all shapes up to 2 x 2', params=dict(nd=2, max=2)); run('nd_stats', '1D, up to 4 elements', params=dict(nd=1, max=4))
prop('P13', ND + 'block offsets and sizes, numbers of stacked arrays and component counts are branches.', outside=OUT)
for nd, mx in ((1, 4), (2, 3), (3, 2)): run('nd_slice', f'every block of all {nd}D shapes up to {mx} per axis', params=dict(nd=nd, max=mx)); run('nd_stack', f'1..3 arrays of all {nd}D shapes up to {mx} per axis', params=dict(nd=nd, max=mx)); run('nd_serialize', f'all {nd}D shapes up to {mx} per axis', params=dict(nd=nd, max=mx))
run('nd_slice', 'every block of all 3D shapes up to 3 per axis', params=dict(nd=3, max=3), tiers=T, max_time=600)
for nd, nc, mx in ((2, 1, 3), (3, 1, 2), (4, 2, 2), (3, 2, 3)): run('nd_subarray', f'every block of {nd}D arrays with {nc} component dimensions, extents up to {mx}', params=dict(nd=nd, nc=nc, max=mx))
for nd, mx in ((2, 4), (3, 3), (4, 2)): run('nd_time', f'all {nd}D shapes up to {mx} per axis, last one time', params=dict(nd=nd, max=mx))
prop('P14', ND + 'the position is a grid cell (branch) plus a symbolic fraction, or any cell outside; the two quadrilateral/hexahedron helpers are decided on fully symbolic corners.', outside='4D and above; the upper-most boundary is rejected by the code (half-open extents) and claimed so; for 2D and 3D the range claim uses positions on a quarter grid (it follows from the blend for the rest)')
for nd in (1, 2, 3):
    mx = 3 if nd < 3 else 2
    run('ml_exact', f'{nd}D, up to {mx} per axis, symbolic multilinear field, positions inside and outside', params=dict(nd=nd, max=mx), cost=3); run('ml_blend', f'{nd}D, up to {mx} per axis, symbolic values', params=dict(nd=nd, max=mx)); run('ml_range', f'{nd}D', params=dict(nd=nd, max=3 if nd < 3 else 2)); run('ml_float', f'{nd}D single precision, grid points', params=dict(nd=nd))
    if nd < 3: run('ml_exact', f'{nd}D, two components', params=dict(nd=nd, max=2 if nd > 1 else 3, nc=1))
run('ml_exact', '3D, up to 3 per axis', params=dict(nd=3, max=3), tiers=T, max_time=800); run('ml_blend', '3D, up to 3 per axis', params=dict(nd=3, max=3), tiers=T, max_time=800)
run('bl3', 'all corners and parameters'); run('tl3', 'all corners and parameters')
prop('P16', 'conv.hh is executed symbolically; shapes, kernel shapes and paddings are branches, all array and kernel values are symbolic; exp of a constant is the C library value.', outside='sizes above the bound; kernels larger than the padded input (unsigned underflow in the code); sigmas other than the four listed')
run('cv2', 'arrays and kernels up to 3 x 3, padding 0..2', params=dict(max=3)); run('cv3', 'arrays up to 3 x 2 x 2, kernels up to 2 x 2 x 2, padding 0..1', params=dict(max=2)); run('cv2', 'arrays and kernels up to 4 x 4, padding 0..2', params=dict(max=4), tiers=T, max_time=600)
for nd in (1, 2, 3): run('gk', f'{nd}D kernels up to {(7, 5, 3)[nd - 1]} per axis, sigma in 0.5, 1, 2.25, 10', params=dict(nd=nd, max=(7, 5, 3)[nd - 1]))
for nd in (2, 3): run('cvg', f'{nd}D gaussian convolution', params=dict(nd=nd))
file('grad.cpp')
prop('P15', 'grad.hh and the gradient functions of the triangle mesh are executed symbolically on fields with symbolic coefficients (all quadratic polynomials on grids, all affine fields on meshes); the common factor is read off the result for one coordinate function.', outside='boundary points of the stencils (documented as not computed); other grid sizes; jacobian2DPL (unfinished in the code)')
for nd in (2, 3):
    for tv in (0, 1): w = f'{nd}D{" + time" if tv else ""}, quadratic fields'; run('gr_grad', w, params=dict(nd=nd, tv=tv, ext=5 if nd == 2 else 3)); run('gr_jac', w, params=dict(nd=nd, tv=tv, ext=5))
run('gr_jac', 'symmetric 2D variant', params=dict(nd=2, how=2)); run('gr_jac', '3D with boundary width 1', params=dict(nd=3, how=1, ext=3)); run('gr_curl', 'quadratic fields', params=dict(ext=3)); run('gr_cross', 'all vector fields on 3 x 4 x 3'); run('gr_jv', 'quadratic fields', params=dict(ext=3)); run('gr_jv', 'quadratic fields, transposed', params=dict(ext=3, t=1))
for nd in (2, 3): run('gr_grad', f'{nd}D, larger grid', params=dict(nd=nd, ext=8), tiers=T); run('gr_jac', f'{nd}D, larger grid', params=dict(nd=nd, ext=8), tiers=T)
for tp in (0, 1): run('gr_mesh', f'{tp + 1} triangle(s), all vertex positions, all affine fields', params=dict(topo=tp))
run('gr_mesh', 'fan of four triangles, one symbolic stretch, all affine fields', params=dict(topo=2, conc=1))
