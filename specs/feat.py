file('feat.cpp')
prop('P31', 'feature_point.hh, feature_curve.hh, feature_curve_set.hh and the serialization code are executed symbolically on arbitrary 64-bit patterns (NaN payloads included) for every field.', outside='files; longer curves; text output; VTK data')
for e, b in (('fp_copy', 'one point'), ('fp_lite', 'one point'), ('fp_ser', 'two points'), ('fp_json', 'one point')): run(e, b + ', all bit patterns', mode='fp')
run('fc_copy', 'curve of 2 points', mode='fp'); run('fc_ser', 'curves of 2 and 1 points', mode='fp'); run('fc_ser', 'empty curve', mode='fp', params=dict(n=0)); run('fc_json', 'curve of 1 point', mode='fp'); run('cs_ser', '2 curves, labels -1..2', mode='fp')
prop('P32', 'feature_curve.hh is executed symbolically; types, flags, times, positions and scalars are symbolic; every point carries its index so that order and completeness are decided.', outside='longer trajectories; conversion to geographic coordinates (transcendental functions); rounding')
for n in (0, 1, 4, 5): run('ed_split', f'{n} points, 3 types', params=dict(n=n))
for n in (1, 2, 4): run('ed_rotate', f'{n} points, 3 types', params=dict(n=n))
for n in (0, 2, 3): run('ed_reorder', f'{n} points', params=dict(n=n)) if n else None
for n in (3, 4): run('ed_adjust', f'{n} points, all times and flags', params=dict(n=n))
run('ed_smooth_ord', '5 points, window 1'); run('ed_smooth_int', '4 points, 3 types')
for h in range(3): run('ed_discard', '4 points', params=dict(how=h))
run('ed_stats', '2 points', params=dict(n=2)); run('ed_stats', '3 points', params=dict(n=3)); run('ed_intercept', '3 points, all ascending times'); run('ed_unwrap', '3 points, any period'); run('ed_unwrap', 'no points', params=dict(n=0)); run('ed_vel', '4 points'); run('ed_vel', '1 point', params=dict(n=1)); run('ed_geo', '4 points')
prop('P33', 'feature_curve_set.hh is executed symbolically on histories whose operations, labels and types are solver variables.', outside='longer histories')
run('cs_add', '3 operations (add, add with label -2..2, add several)'); run('cs_filter', '4 curves, any predicate'); run('cs_split', '2 curves of 3 points'); run('cs_intercept', '2 curves of 3 points')
