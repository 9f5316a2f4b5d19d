"""O01: writers accept a path exactly when its directory exists."""
import os
from vp.harness import scen

ASSUMPTIONS = ['the process may look into every directory (the checks run as root)', 'no symbolic links', 'directories left again by .. exist']
NAMES = ['d', 'd/e', 'd/e/f', 'out.csv', 'd/out.csv', 'g h']
# path, the directory it names (None: the current directory)
SHAPES = [('out.csv', None), ('./out.csv', None), ('d/out.csv', 'd'), ('./d/out.csv', 'd'), ('d//out.csv', 'd'),
          ('d/e/out.csv', 'd/e'), ('d/e/../out.csv', ('d', 'd/e')), ('d/e/f/out.csv', 'd/e/f'), ('g h/out.csv', 'g h'),
          ('d/./e/x', 'd/e'), ('nowhere/out.csv', 'nowhere'), ('d', None), ('d/e', 'd'), ('.hidden', None),
          ('nowhere/at/all/out.csv', 'nowhere/at/all'), ('d/nowhere/out.csv', 'd/nowhere'), ('d/../out.csv', ('d',)),
          ('d/e/f/../../out.csv', ('d', 'd/e', 'd/e/f')), ('out.csv/x', 'out.csv'),
          ('d/out.csv/x', 'd/out.csv')]


def accept(H):
    root, st, unchanged = H.fs(NAMES)
    modname, cls = H.p['writer']
    path, d = H.choice('path', SHAPES)
    if H.choice('absolute', [False, True]):
        path = os.path.join(root, path)
    W = getattr(H.mod(modname), cls)
    w, x = H.call(W, path)
    if isinstance(d, tuple):
        # the directories passed through on the way to the last
        H.assume(H.And(*[st[x] == 1 for x in d]))
        d = None
    ok = True if d is None else st[d] == 1 if d in st else False
    if x is None:
        H.check(ok, 'refused when the directory is not there')
    else:
        H.check(H.Not(ok), 'accepted when the directory is there')
        H.check(isinstance(x, IOError), 'refused with an IOError')
    H.check(unchanged(), 'the file system is as it was')
    H.cover('accepted' if x is None else 'refused')


def scenarios(tier):
    return [scen(n, accept, p={'writer': w}, covers=['accepted', 'refused'],
                 bounds='20 path shapes, relative and absolute, each of 6 paths missing, a directory or a file')
            for n, w in (('catalogue', ('mtoolkit.eqcatalog', 'EqEntryWriter')),
                         ('source-model', ('nrml.writer', 'AreaSourceWriter')))]
