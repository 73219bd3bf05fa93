"""Record the shape of the current tree: which functions the contracts were
written for and which loops they have. Run after editing contracts."""
import json
import os
import sys
import extract

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'contracts', 'shape.json')
levels = json.load(open(path))['levels'] if os.path.exists(path) else {}
e = extract.build('/repo', os.path.join(here, 'contracts'), {})
if e.lost:
    sys.exit(f'lost: {e.lost}')
fns = {k: {'loops': v} for k, v in sorted(e.loops.items())}
json.dump({'digest': e.digest(), 'levels': levels, 'functions': fns}, open(path, 'w'), indent=1)
print(len(fns), 'functions', e.digest(), 'weak', e.weak)
