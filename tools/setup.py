"""Nothing to build: checks that the tools the analysis needs are present."""
import shutil, sys
missing = [t for t in ('clang++', 'g++', 'python3') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'ok')
sys.exit(1 if missing else 0)
