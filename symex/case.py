"""Registry of scenarios.  A harness module declares

    @case("name", bounds="...", quick=[{...}, ...], thorough=[{...}, ...])
    def scenario(ctx, **params): ...

Each parameter set is explored on its own (quick sets are part of thorough).
"""


class Case(object):
    def __init__(self, module, name, fn, params, tier, bounds):
        self.module = module
        self.name = name
        self.fn = fn
        self.params = params
        self.tier = tier
        self.bounds = bounds

    @property
    def label(self):
        if not self.params:
            return self.name
        return self.name + "(" + ",".join(
            "%s=%s" % (k, v) for k, v in sorted(self.params.items())) + ")"


REGISTRY = {}


def case(name, bounds="", quick=None, thorough=None):
    def deco(fn):
        mod = fn.__module__
        lst = REGISTRY.setdefault(mod, [])
        sets = [(p, "quick") for p in ([{}] if quick is None else quick)]
        sets += [(p, "thorough") for p in (thorough or [])]
        for p, tier in sets:
            lst.append(Case(mod, name, fn, p, tier, bounds))
        return fn
    return deco
