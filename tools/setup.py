#!/usr/bin/env python3
"""Nothing is prebuilt: checks that the tools the checks need are there."""
import shutil, sys
miss = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc') if not shutil.which(t)]
print('missing: %s' % miss if miss else 'ok')
sys.exit(1 if miss else 0)
