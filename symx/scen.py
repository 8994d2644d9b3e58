class Scenario:
    def __init__(self, name, fn, **opts):
        self.name = name
        self.fn = fn
        self.opts = opts
        self.doc = (fn.__doc__ or "").strip()


class Scenarios(list):
    """registry: @SCENARIOS.add(tier="quick", ...)"""

    def __init__(self):
        super().__init__()
        self.by_name = {}

    def add(self, **opts):
        def deco(fn):
            s = Scenario(fn.__name__, fn, **opts)
            self.append(s)
            self.by_name[s.name] = s
            return fn

        return deco

    def again(self, skip=(), keep=True, **opts):
        """the same scenarios after an arbitrary earlier use of the same code (with inputs of its own, on one path) and,
        keep, of the same objects, which then get the new values"""
        for n in [s.name for s in self if s.name not in skip]:
            sc = self.by_name[n]

            def g(h, fn=sc.fn):
                h.before(fn, keep)
                return fn(h)

            g.__doc__ = sc.doc + "; after an earlier use with arbitrary other inputs"
            s = Scenario(n + "_again", g, **{**sc.opts, **opts})
            self.append(s)
            self.by_name[s.name] = s

    def many(self, fn, variants, **opts):
        """one scenario per variant: fn(h, *args)"""
        for name, args in variants:
            def g(h, args=args):
                return fn(h, *args)

            g.__doc__ = fn.__doc__
            s = Scenario(name, g, **opts)
            self.append(s)
            self.by_name[name] = s
