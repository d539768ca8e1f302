"""Checks that the pre-installed tools the machinery needs are there, and byte-compiles the engine."""
import compileall, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3
missing = [t for t in ('clang-18', 'opt-18', 'llvm-link-18', 'gcc', 'cbmc', 'goto-cc') if not shutil.which(t)]
if missing:
    print('missing tools:', missing); sys.exit(1)
compileall.compile_dir(V + '/engine', quiet=1)
os.makedirs(V + '/evidence', exist_ok=True)
print('ok, z3', z3.get_version_string())
