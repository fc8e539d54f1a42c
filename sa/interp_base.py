"""Shared small classes."""
from .terms import *

U64MAX = 2 ** 64 - 1


class Giveup(Exception):
    pass


class Dead(Exception):
    """the current path ends (panic, process exit, infeasible)"""


class St:
    __slots__ = ('mem', 'f')

    def __init__(self, mem=None, f=None):
        self.mem = mem if mem is not None else {}
        self.f = f if f is not None else Facts()

    def copy(self):
        return St(self.mem.copy(), self.f.copy())


