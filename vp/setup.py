#!/usr/bin/env python3
"""setup_cmd: nothing to build; check that the tools the checks need are there."""
import shutil, sys
miss = [t for t in ('clang++', 'why3', 'z3', 'z3-new', 'cvc5', 'sh') if not shutil.which(t)]
if miss:
    print('missing tools: %s' % miss)
    sys.exit(1)
print('ok')
