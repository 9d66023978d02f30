#!/usr/bin/env python3
# derives ftk/config.hh from /repo's config.hh.in; features given on the command line are on
import re, sys
src, out, on = sys.argv[1], sys.argv[2], set(sys.argv[3:])
t = open(src).read()
t = re.sub(r'#cmakedefine (\w+) 1', lambda m: f'#define {m[1]} 1' if m[1] in on else f'/* #undef {m[1]} */', t)
t = t.replace('${FTK_VERSION}', '0').replace('${FTK_FP_PRECISION}', '32768').replace('${FTK_CP_MAX_NUM_VARS}', '3')
open(out, 'w').write(t)
