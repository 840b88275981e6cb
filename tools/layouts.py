"""Records the layout (class -> fields and types) for which the assumed state invariants of the drivers were written."""
import glob, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa import harness
out = {}
for f in sorted(glob.glob(os.path.join(harness.HERE, 'driver', 'C*.cpp'))):
    pid = os.path.basename(f)[:-4]
    try:
        import importlib
        mod = importlib.import_module('sa.special.' + pid)
        extra = getattr(mod, 'FILTERS', ())
    except ModuleNotFoundError:
        extra = ()
    for r in harness.run_obligations(pid, 'thorough' if '--all' in sys.argv else 'quick', 1, None, 8, extra):
        for q, l in (r.get('state_classes') or {}).items():
            if q in out and out[q] != l:
                print('conflict', pid, q)
            out[q] = l
json.dump(out, open(os.path.join(harness.HERE, 'sa', 'layouts.json'), 'w'), indent=1, sort_keys=True)
print(len(out), 'classes')
