import sys, importlib, os, pkgutil
import contracts
from mirv import run
def load(pid):
    for m in pkgutil.iter_modules(contracts.__path__):
        if m.name in ('cli', 'lib'): continue
        src = open(os.path.join(contracts.__path__[0], m.name + '.py')).read()
        if ("'%s'" % pid) not in src: continue
        mod = importlib.import_module('contracts.' + m.name)
        p = getattr(mod, 'PROPS', {}).get(pid)
        if p: return p() if callable(p) else p
    raise SystemExit('no contracts for ' + pid)
if __name__ == '__main__':
    if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
    sys.exit(run.main(load(sys.argv[1])))
