"""setup_cmd: nothing is compiled (the code under test is pure Python); confirm
the interpreter, the third-party packages soynlp needs and the committed files."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
import numpy, scipy, sklearn, psutil  # noqa: F401,E401
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(here, d), exist_ok=True)
m = json.load(open(os.path.join(here, 'MANIFEST.json'), encoding='utf-8'))
missing = [c['property'] for c in m['checks']
           if not os.path.exists(os.path.join(here, 'checks', c['property'].lower() + '.py'))]
print('python', sys.version.split()[0], 'checks', len(m['checks']), 'missing', missing)
sys.exit(1 if missing else 0)
