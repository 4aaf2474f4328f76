"""Names of the functions the installed headers declare."""
import glob
import os
import re
from . import frontend


def functions(build):
    inc = os.path.join(frontend.REPO, 'include', 'cloog')
    heads = ['cloog/' + os.path.relpath(p, inc) for p in glob.glob(inc + '/**/*.h', recursive=True)]
    names = set()
    for h in sorted(heads):
        t = re.sub(r'/\*.*?\*/', ' ', open(os.path.join(inc, h[6:])).read(), flags=re.S)
        for m in re.finditer(r'\b(\w+)\s*\(', t):
            names.add(m.group(1))
    return names
