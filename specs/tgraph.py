file('tgraph.cpp')
prop('P34', 'tracking_graph.hh, event.hh and cca.hh are executed symbolically; every node and link is a solver variable, events and labels are compared with the components of the links computed in the harness.', outside='larger graphs; detecting events twice; dot files; links across more than one step')
run('tg_events', '3 steps with 2 components each, every link set'); run('tg_events', '2 steps with 2 optional components each, added in reverse order, links twice', params=dict(T=2, allnodes=0, rev=1)); run('tg_events', '2 steps with 3 components each', params=dict(T=2, L=3)); run('tg_events', '3 steps, steps 3 apart, labelled twice, nodes only by links', params=dict(T=3, L=2, step=3, twice=1, rev=1), tiers=T); run('tg_events', '4 steps', params=dict(T=4, L=2), tiers=T, max_time=600)
