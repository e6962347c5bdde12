"""observe calls inside the running solver, wherever it looks a function up, and whatever way it passes the arguments"""
import inspect
import sys


class Call:
    """one observed call: arguments by name (trailing underscore optional) or by position"""

    def __init__(self, sig, a, k):
        self.b, self.a = {}, a
        try:
            ba = sig.bind(*a, **k)
            self.b = {n.rstrip('_'): v for n, v in ba.arguments.items()}
        except (TypeError, AttributeError):
            pass

    def get(self, name):
        return self.b[name]


class Hooks:
    def __init__(self):
        self.saved, self.depth = [], 0

    def install(self, module, name, before=None, after=None):
        """wrap sqpdfo.<module>.<name> in every module of the package that has it; calls made inside an observed call are not observed"""
        mod = sys.modules.get('sqpdfo.' + module)
        old = getattr(mod, name, None)
        if old is None:
            return
        try:
            sig = inspect.signature(old)
        except (TypeError, ValueError):
            return

        def f(*a, **k):
            if self.depth:
                return old(*a, **k)
            call = Call(sig, a, k)
            mem = before(call) if before else None
            self.depth += 1
            try:
                out = old(*a, **k)
            finally:
                self.depth -= 1
            if after:
                after(mem, out)
            return out
        for mname, m in list(sys.modules.items()):
            if mname.split('.')[0] == 'sqpdfo' and m is not None:
                for attr, v in list(vars(m).items()):
                    if v is old:
                        self.saved.append((m, attr, old))
                        setattr(m, attr, f)

    def remove(self):
        for m, attr, old in self.saved:
            setattr(m, attr, old)
        self.saved = []
