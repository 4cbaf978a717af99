"""Registry of contracts.  A contract is one scenario, written once and run by two
back ends: `dsl.Sym` (all inputs, obligations to the solver) and `concrete.Con`
(the real code, for replaying counterexamples and for the concrete battery)."""

REG = {}


class Contract:
    def __init__(self, prop, name, fn, functions, symbolic, battery, note, exact):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, list(functions)
        self.symbolic, self.battery, self.note, self.exact = symbolic, battery, note, exact

    @property
    def id(self):
        return "%s.%s" % (self.prop, self.name)


def contract(prop, functions=(), symbolic=True, battery=True, note="", name=None, exact=True):
    """symbolic=False: bounded concrete contract only (never counted as proved)
    battery: False or number of cases"""
    def deco(fn):
        c = Contract(prop, name or fn.__name__, fn, functions, symbolic, battery, note, exact)
        REG.setdefault(prop, []).append(c)
        return fn
    return deco


class Skip(Exception):
    """the concrete case does not satisfy the precondition"""
