"""What a property is made of: facets with a generator and an executable check."""


class Violation(Exception):
    def __init__(self, msg, sig=""):
        super().__init__(msg)
        self.msg, self.sig = msg, sig


class Inconclusive(Exception):
    """A resource bound was hit: says nothing about the property."""


class Timeout(Inconclusive):
    """No answer within the bound on (CPU) time. A few say nothing; see Facet.slow."""


SCALE = [1]  # of the bounds on time; greater when timeouts are confirmed


class Facet:
    """slow: the share of requests that may go unanswered (searches can be hopeless); what exceeds it, and
    does so again with twice the time, is a violation. 0: every request is answered.
    strategy() -> Hypothesis strategy of JSON-able cases; run(case) -> list of labels (the label
    'nontrivial' marks a non-trivial case), raising Violation. quick/thorough: number of cases over
    all workers. enum(): alternatively, a finite list of cases, run completely."""

    def __init__(self, name, strategy, run, quick, thorough=None, enum=None, slow=0.1):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 20
        self.enum, self.slow = enum, slow


class Prop:
    def __init__(self, id, rule, facets, technique, level_note, builds=(), assumptions=()):
        self.id, self.rule, self.facets = id, rule, facets
        self.technique, self.level_note = technique, level_note
        self.builds, self.assumptions = builds, list(assumptions)


def check(cond, msg, sig=""):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)
