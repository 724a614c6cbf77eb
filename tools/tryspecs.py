#!/usr/bin/env python3
"""Development aid: run the rules over one family of specimens:  tryspecs.py <expr over specimens/cover> [-v N]."""
import re, sys, time, collections
import os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import specimens, check, harness
try: import cover
except ImportError: cover = None
from specimens import *

n = int(sys.argv[sys.argv.index('-v') + 1]) if '-v' in sys.argv else 12
specs = eval(sys.argv[1])
t = time.time()
fs, st = check.run_specs(specs, ("sync", "async", "serde"), "tryspecs")
by = collections.defaultdict(list)
for f in fs: by[f.rule, re.sub(r' \[.*', '', f.where) if '::build' in f.where else f.text[-120:] if f.rule == 'does-not-compile' else f.where].append(f)
for (r, w), l in list(sorted(by.items(), key=lambda x: -len(x[1])))[:n]:
    f = l[0]
    print(len(l), r, w, sorted(f.props)); print('     ', f.key()); print('     ', f.text[-500:])
    print('     ', "#[fxstruct(%s)] {%s}" % (f.spec.text, "; ".join("#[fieldx(%s)] %s: %s" % (x.text, x.name, x.ty) for x in f.spec.fields)))
print(len(fs), 'findings;', {k: v for k, v in st.items() if k != 'by_prop'}, round(time.time() - t, 1))
