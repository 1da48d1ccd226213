"""Loads a command-line script of the repository as a module, so that a simulated process can
run its main function, or runs it as a program."""
import os
import types

from .core import REPO

_cache = {}
_code = {}


def load(name):
    if name not in _cache:
        path = os.path.join(REPO, 'hyperion', 'bin', name)
        text = open(path).read()
        m = types.ModuleType('script_' + name.replace('-', '_').replace('.', '_'))
        m.__file__ = path
        _code[name] = compile(text, path, 'exec')
        exec(_code[name], m.__dict__)
        _cache[name] = m
    return _cache[name]


def main(name, argv):
    """Runs the script as a program: fresh globals, its own argv."""
    import sys
    m = load(name)
    code = _code[name]
    g = {'__name__': '__main__', '__file__': m.__file__, '__builtins__': __builtins__}
    sys.argv = [m.__file__] + [str(a) for a in argv]
    exec(code, g)
