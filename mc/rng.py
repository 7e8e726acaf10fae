"""
Puts random numbers behind a seam. Installed before melodia is imported, so that it also holds for names imported
from the random module. While no menu is active, the real generators answer.
"""
import random

_menu = None          # list of standard normal deviates to hand out
_used = 0


def _next():
    global _used
    z = _menu[_used % len(_menu)]
    _used += 1
    return z


def _wrap(real):
    def gauss(self, mu=0.0, sigma=1.0):
        if _menu is None:
            return real(self, mu, sigma)
        return mu + sigma * _next()
    return gauss


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name in ('gauss', 'normalvariate'):
        setattr(random.Random, name, _wrap(getattr(random.Random, name)))
        setattr(random, name, getattr(random._inst, name))


class menu:
    """with menu([z0, z1, ...]) as m: ... ; m.used is the number of deviates drawn."""
    def __init__(self, zs):
        self.zs = list(zs)
        self.used = 0

    def __enter__(self):
        global _menu, _used
        _menu, _used = self.zs, 0
        return self

    def __exit__(self, *exc):
        global _menu
        self.used = _used
        _menu = None
        return False
