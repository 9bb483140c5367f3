"""Entry point: check.py <PROPERTY> [--tier quick|thorough] | check.py list"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}


def reexec():
    if os.environ.get('MC_READY') == '1':
        return
    env = dict(os.environ)
    env.update(ENV)
    env['MC_READY'] = '1'
    repo = env.get('MC_REPO', '/repo')
    env['PYTHONPATH'] = os.path.join(repo, 'src')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)


def fresh_source(root):
    """Load the code under test from its source text, never from a cached .pyc."""
    import importlib.machinery as M

    class Loader(M.SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return compile(self.get_data(path), path, 'exec', dont_inherit=True)

    hook = M.FileFinder.path_hook((Loader, ['.py']))

    def only(path):
        if os.path.realpath(path).startswith(root):
            return hook(path)
        raise ImportError
    sys.path_hooks.insert(0, only)
    sys.path_importer_cache.clear()


def main(argv):
    reexec()
    fresh_source(os.path.join(os.path.realpath(os.environ.get('MC_REPO', '/repo')), 'src'))
    sys.path.insert(0, os.path.join(HERE, 'mc'))
    sys.path.insert(0, os.path.join(HERE, 'mc', 'props'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    budget = None
    if '--budget' in argv:
        i = argv.index('--budget')
        budget = float(argv[i + 1])
        del argv[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = argv[0]
    repo = os.environ.get('MC_REPO', '/repo')
    try:
        import niapy
        if not os.path.realpath(niapy.__file__).startswith(os.path.realpath(repo)):
            print('niapy imported from %s, expected %s' % (niapy.__file__, repo))
            return 3
        import engine
        mod = importlib.import_module(pid.lower())
    except Exception:
        import traceback
        traceback.print_exc()
        return 3
    return engine.run(mod, tier, seed, budget=budget)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
