file('misc.cpp')
prop('P36', 'the numeric headers are executed symbolically in exact real arithmetic; sine and cosine are uninterpreted with s^2+c^2=1, so rotations are decided for every angle; operands of gcd and fractions are symbolic integers resolved by the solver.', outside='rounding; integer overflow of rational and fixed-point numbers beyond the bounds; fixed-point numbers with another scale than the default (their operators do not compile); rotation axes other than the listed directions (any length along an axis)')
run('q_mul', 'all quaternions'); run('q_rot', 'axes along five rational directions in two lengths, all angles and vectors', params=dict(dir=1)); run('q_rot', 'coordinate axis of any length and sign, all angles and vectors', params=dict(ax=3)); run('q_rot', 'coordinate axis, second', params=dict(ax=1)); run('q_rot0', 'zero axis'); run('q_rotlen', '12 axes, all angles and vectors')
run('st_ang', 'position on each coordinate axis at any radius, four tangential directions, any speed and step'); run('st_sph', 'all positions, velocities, steps'); run('rk_lin', 'all linear 2D fields, failure at any stage'); run('rk_lin', 'all linear 3D fields, failure at any stage', params=dict(n=3)); run('rk_quad', 'fields cubic in time'); run('rk_sph', 'vertical motion, failure at any stage')
run('s_gcd', 'all operands -7..7'); run('s_gcd_big', 'a number up to 10^6 and its multiples, any signs'); run('s_gcd', 'all operands -20..20', params=dict(m=20), tiers=T, max_time=600); run('s_sign', 'all numbers'); run('s_mod', 'moduli up to 1000, numbers within three periods (fmod1) and -15..15 (mod2pi)'); run('s_rad', 'all angles'); run('s_rat', 'all fractions with numerator and denominator up to 3 (any signs)', params=dict(m=3), cost=2); run('s_rat', 'all fractions up to 6', params=dict(m=6), tiers=T, max_time=900); run('s_fix', 'all numbers in -30000..30000'); run('s_fixmul', 'integers up to 2000 times/over -8..8 and one half')
prop('P35', 'mpas.hh and wachspress_interpolation.hh are executed symbolically; layer tops and depth are symbolic, cells are given by symbolic coordinates in a basis, the point is symbolic.', outside='Wachspress cells other than the listed convex polygons (3 shapes, 3..6 vertices, any point, in three planes; second coordinate of the point on a grid for hexagons); reading ocean-model files; radial basis functions')
for n in (1, 2, 3, 5): run('ml_layer', f'{n} layer tops, all strictly decreasing columns and depths', params=dict(n=n), **({} if n > 1 else {}))
run('ml_layer', '8 layer tops', params=dict(n=8), tiers=T); run('ml_nan', 'undefined and infinite depth'); run('cell_in', 'triangles in four bases, any point'); run('cell_in', 'any convex quadrilateral in four bases, any point', params=dict(n=4))
for n in (3, 4, 5, 6): run('wach', f'3 convex polygons with {n} vertices in 3 planes, any inner point', params=dict(n=n, conc=1), cost=n)
