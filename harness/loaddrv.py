"""Runs in a fresh interpreter: import the package from a directory, print its registries as JSON."""
import json
import os
import random
import sys

path, order = sys.argv[1], int(sys.argv[2])
# directory listings come in any order
_scan, _list = os.scandir, os.listdir


class Scan(object):
    def __init__(self, *a):
        with _scan(*a) as it:
            self.x = sorted(it, key=lambda e: e.name)
        if order == 1:
            self.x.reverse()
        elif order > 1:
            random.Random(order).shuffle(self.x)
        self.it = iter(self.x)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def listdir(*a):
    x = sorted(_list(*a))
    if order == 1:
        x.reverse()
    elif order > 1:
        random.Random(order).shuffle(x)
    return x


sys.path[0] = path
import numpy, scipy, yaml, ckmutil.ckm, rundec, pylha  # noqa: E402,F401  (outside the reordering)
os.scandir, os.listdir = Scan, listdir
import wcxf  # noqa: E402
os.scandir, os.listdir = _scan, _list


def reg(c):
    return getattr(c, 'instances', {})


out = {'file': os.path.abspath(wcxf.__file__),
       'efts': {k: json.loads(o.dump()) for k, o in reg(wcxf.EFT).items()},
       'bases': [[list(k), json.loads(o.dump()), sorted(o.all_wcs)] for k, o in reg(wcxf.Basis).items()],
       'known': {e: sorted(o.known_bases) for e, o in reg(wcxf.EFT).items()},
       'translators': sorted(list(k) for k in reg(wcxf.Translator)),
       'matchers': sorted(list(k) for k in reg(wcxf.Matcher))}
print(json.dumps(out))
