# What every check runs.  PROPS[id] = dict(how, runs=[...], outside, assumptions, level_note)
PROPS = {}
_cur = None
def prop(id, how, outside='', assumptions=(), note=''):
    global _cur
    _cur = PROPS[id] = dict(how=how, outside=outside, assumptions=list(assumptions), note=note, runs=[])
_FILE = [None]
def file(f, feats=(), defs=()): _FILE[0] = (f, tuple(feats), tuple(defs))
def run(entry, bound, mode='real', id=None, params=None, tiers=('quick', 'thorough'), max_time=150, timeout=8000, hard_timeout=30000, flags=(), **kw):
    f, feats, defs = _FILE[0]; params = params or {}
    if id is None: id = entry + ''.join(f'_{k}{v}' for k, v in params.items())
    assert not any(r['id'] == id for r in _cur['runs']), id
    _cur['runs'].append(dict(id=id, file=f, feats=feats, defs=defs, entry=entry, bound=bound, mode=mode, params=params, tiers=tiers, max_time=max_time, timeout=timeout, hard_timeout=hard_timeout, flags=list(flags), **kw))
T = ('thorough',)
import glob, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
