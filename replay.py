#!/usr/bin/env python3
# replay.py HARNESS ENTRY INPUTS [--feats ..] [--defs ..] [k=v ..]: run one assignment against the real code
import sys, os, tempfile, argparse, shutil
import check
ap = argparse.ArgumentParser(); ap.add_argument('file'); ap.add_argument('entry'); ap.add_argument('inputs'); ap.add_argument('--feats', default=''); ap.add_argument('--defs', default=''); ap.add_argument('params', nargs='*')
a = ap.parse_args(); w = tempfile.mkdtemp(prefix='ve_replay')
u = check.Unit(a.file, tuple(a.feats.split()), tuple(a.defs.split()), w)
check.sh([sys.executable, os.path.join(check.HERE, 'stubs', 'gen_config.py'), check.REPO + '/include/ftk/config.hh.in', os.path.join(u.dir, 'ftk', 'config.hh')] + list(u.feats))
rc, o = check.replay(u, dict(entry=a.entry, params=dict(p.split('=') for p in a.params)), os.path.abspath(a.inputs))
print(o); shutil.rmtree(w, ignore_errors=True); sys.exit(rc if isinstance(rc, int) and 0 <= rc < 128 else 1)
