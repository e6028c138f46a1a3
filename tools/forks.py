"""Where does a harness fork?  python3-vt tools/forks.py C06 line "dict(n=2, ...)" [seconds]"""
import collections
import importlib
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symex import explore, core
explore.setup()
mod = importlib.import_module('props.' + sys.argv[1])
job = dict(module=sys.argv[1], fn=sys.argv[2], params=eval(sys.argv[3], vars(mod)), name='x', validate_every=10**9)
cnt = collections.Counter()


class L(list):
    def append(self, x):
        f = sys._getframe(1)
        while f and '/symex/' in f.f_code.co_filename:
            f = f.f_back
        cnt['%s:%d' % (os.path.basename(f.f_code.co_filename), f.f_lineno) if f else '?'] += 1
        list.append(self, x)


OP = core.Path.__init__


def init(self, *a, **k):
    OP(self, *a, **k)
    self.alts = L()


core.Path.__init__ = init
r = explore.Runner()
st = explore.new_stats()
rest, out = r.explore(job, [[]], float(sys.argv[4]) if len(sys.argv) > 4 else 20, st)
print({k: v for k, v in st.items() if v}, 'left', len(rest))
print(out['violations'][:1], out['errors'][:1], out['notes'], out['mism'][:1])
for k, v in cnt.most_common(25):
    print(v, k)
