"""Setup: nothing to build; checks that the tools are there."""
import shutil, sys
import z3
bad = [t for t in ('/usr/lib/llvm-18/bin/opt', 'clang', 'clang++', 'gcc', 'g++') if not shutil.which(t)]
print('z3', z3.get_version_string(), 'missing:', bad)
sys.exit(1 if bad else 0)
