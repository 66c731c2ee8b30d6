#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs from /repo. This only verifies that the tools are present."""
import shutil, sys
miss = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'clang-14', 'gcc', 'g++') if not shutil.which(t)]
print('missing tools: %s' % miss if miss else 'tools present')
sys.exit(1 if miss else 0)
