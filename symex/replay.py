"""Replays a counterexample on the real code:
/opt/venv/bin/python symex/replay.py evidence/replay/Cxx.json

Exit status 1 if the violation is observed, 0 if not."""
import json
import shutil
import signal
import sys
import tempfile

import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symex import concrete  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        req = json.load(f)
    root = tempfile.mkdtemp(prefix='symex_')
    signal.alarm(60)
    try:
        r = concrete.run_one(req, root)
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)
    print(json.dumps(dict(inputs=r.get('inputs'), observed=r.get('obs'), known=r.get('known'), error=r.get('error')), indent=1))
    print('VIOLATED: ' + r['failed'] if r.get('failed') else 'not violated')
    return 1 if r.get('failed') or r.get('known') else 0


if __name__ == '__main__':
    sys.exit(main())
