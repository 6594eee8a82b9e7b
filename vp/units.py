'''Proofs that are not contracts of one function (lemmas, generators, hashing, lists). Filled by the modules below.'''

UNITS = {}


class Unit:
    def __init__(self, name, props, fn):
        self.name, self.props, self.fn = name, props.split(), fn

    def prove(self, deadline):
        rep = self.fn(deadline)
        rep.setdefault('failed', [])
        return rep


def unit(name, props):
    def deco(fn):
        UNITS[name] = Unit(name, props, fn)
        return fn
    return deco
