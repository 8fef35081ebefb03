#!/usr/bin/env python3
"""run_check.py ID [--quick|--thorough] [--cases N] [--replay FILE] [--idx N]
   run_check.py --setup"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core


def setup():
    """checks that the tools are there and that everything builds"""
    import shutil, tempfile
    from lib import build
    for t in ('gcc', 'clang'):
        if not shutil.which(t):
            print('missing tool', t)
            return 1
    d = tempfile.mkdtemp(prefix='vp_setup_')
    try:
        build.build(d, ('plain', 'asan'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for n in sorted(os.listdir(os.path.join(core.VERIF, 'checks'))):
        if n.startswith('c') and n.endswith('.py'):
            importlib.import_module('checks.' + n[:-3])
    print('setup ok')
    return 0


if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--setup':
        sys.exit(setup())
    mod = importlib.import_module('checks.' + pid.lower())
    sys.exit(core.main(mod.CHECK, sys.argv[2:]))
