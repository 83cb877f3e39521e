#!/usr/bin/env python3
"""dropped.py: writes verus/dropped.txt, the items of /repo that the units leave out on the unchanged tree"""
import sys
sys.path.insert(0, '/verif')
import check
from units import UNITS
out = set()
for n, u in UNITS.items():
    for norm in (False, True):
        ok, e, rep = check.extract(n, u, check.V + '/work/' + n, [], norm=norm)
        assert ok, (n, e)
        out |= {(n, k) for k in check.dropped(rep)}
open('/verif/verus/dropped.txt', 'w').write(''.join('\t'.join(x) + '\n' for x in sorted(out)))
