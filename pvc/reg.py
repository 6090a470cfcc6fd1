"""Contract registry."""
CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, funcs, mode, opts):
        self.prop, self.name, self.fn, self.funcs, self.mode, self.opts = prop, name, fn, funcs, mode, opts

    @property
    def key(self):
        return f"{self.prop}.{self.name}"


def contract(prop, funcs=(), mode="proof", name=None, **opts):
    """mode: 'proof' (symbolic, unbounded; concrete cross-check too), 'bounded' (concrete only).

    opts: cases (concrete executions in the quick tier), timeout (s), ensures...
    """

    def deco(fn):
        c = Contract(prop, name or fn.__name__, fn, list(funcs), mode, opts)
        CONTRACTS[c.key] = c
        return fn

    return deco


def load_contracts(prop):
    import importlib

    importlib.import_module(f"contracts.{prop.lower()}")
    return [c for c in CONTRACTS.values() if c.prop == prop]
