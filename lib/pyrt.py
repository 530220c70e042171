"""Runtime for Python-side properties (Hypothesis-driven).

  @prop(quick, thorough, rule)
  def name(c):            # c: Case
      x = c.draw(strategy)
      c.case(x)           # what this case is (distinctness, samples)
      c.nontrivial()      # by the stated rule
      assert ...          # or c.eq(got, want, msg)
"""
import os

PROPS = []
FINDINGS = []


def prop(quick, thorough, rule):
    def deco(fn):
        PROPS.append((fn.__name__, quick, thorough, rule, fn))
        return fn
    return deco


def finding(key):
    def deco(fn):
        FINDINGS.append((key, fn))
        return fn
    return deco


class Fail(AssertionError):
    pass


class Case:
    def __init__(self, data):
        self.data = data
        self.key = None
        self.nt = False
        self.labels = []

    def draw(self, strategy):
        return self.data.draw(strategy)

    def case(self, v):
        self.key = repr(v)

    def nontrivial(self):
        self.nt = True

    def label(self, s):
        self.labels.append(s)

    def eq(self, got, want, msg=""):
        if got != want:
            raise Fail("%s\n  got:      %.1500r\n  expected: %.1500r" % (msg, got, want))

    def check(self, cond, msg=""):
        if not cond:
            raise Fail(str(msg))


def scratch():
    """Per-worker scratch directory."""
    d = os.path.join(os.environ["PYRT_SCRATCH"], "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


def load(rel, name):
    """Imports a repository Python file (never writing byte code next to it)."""
    import importlib.util
    import sys
    sys.dont_write_bytecode = True
    path = os.path.join(repo(), rel)
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m
