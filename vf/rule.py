"""Obligations, findings and evidence of one property check."""
from .sizes import check_sizes
from .terms import show, T


class Inconclusive(Exception):
    """The analysis met something it cannot interpret: an error of the check, never a pass."""


class Stop(Exception):
    """The rest of the check is pointless; what was found stands."""


class Report:
    def __init__(self, pid, index, tier="quick"):
        self.pid, self.ix, self.tier = pid, index, tier
        self.obs = []          # (rule, construct, ok)
        self.findings = []     # dict(rule, construct, what, where)
        self.funcs = set()     # functions analysed
        self.counts = {}
        self.notes = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def analysed(self, *quals):
        for q in quals:
            self.funcs.add(q if isinstance(q, str) else q.qual)

    def saw(self, res):
        """record what an abstract run covered"""
        self.funcs |= res.ip.visited

    def ob(self, rule, construct, ok, what="", where=""):
        """one obligation; `ok` falsy means violated"""
        self.obs.append((rule, construct, bool(ok)))
        if not ok:
            self.findings.append(dict(rule=rule, construct=construct, what=str(what)[:1200], where=where))
        return bool(ok)

    def eq(self, rule, construct, norm, got, want, where="", when=None):
        """obligation: two terms are equal in every case"""
        from .terms import TRUE
        d = norm.diff(got, want, when if when is not None else TRUE)
        return self.ob(rule, construct, d is None, d and f"{d['at'] or 'value'} is {d['got'][:400]} but must be {d['expected'][:400]} (case {d['case'][:6]})", where)

    def equiv(self, rule, construct, norm, got, want, where="", when=None):
        from .terms import TRUE
        d = norm.equiv(got, want, when if when is not None else TRUE)
        return self.ob(rule, construct, d is None, d and f"condition is {show(got)[:400]} but must be {show(want)[:400]} (differs in case {d['case'][:6]})", where)

    def holds(self, rule, construct, norm, cond, where="", when=None, what=""):
        from .terms import TRUE
        d = norm.fails(cond, when if when is not None else TRUE)
        return self.ob(rule, construct, d is None, d and f"{what or show(cond)[:400]} fails in case {d['case'][:8]}", where)

    def count(self, name, n, least):
        """instance count of a rule; something the property requires to be done must be done somewhere"""
        self.counts[name] = n
        if n < least:
            self.ob("required", name, False, f"only {n} instances of {name} found, the property needs at least {least}")
            raise Stop()


class Only:
    """a report that keeps the obligations of some rules only, for properties that rest on another property's analysis"""

    def __init__(self, rep, **rules):
        self.__dict__.update(rep=rep, keep=rules)
        for k, text in rules.items():
            rep.rule(k, text)

    def __getattr__(self, k):
        return getattr(self.rep, k)

    def rule(self, name, text):
        pass

    def ob(self, rule, construct, ok, what="", where=""):
        return self.rep.ob(rule, construct, ok, what, where) if rule in self.keep else bool(ok)

    eq, equiv, holds = Report.eq, Report.equiv, Report.holds

    def count(self, name, n, least):
        if n < least:
            self.rep.count(name, n, least)


def run(mod, rep):
    """the check of one property module; SIZES = (rule, n): the analysis covers fewer than n elements, so nothing may be decided on n or more"""
    mod.check(rep)
    if hasattr(mod, "SIZES"):
        check_sizes(rep, mod.SIZES[0], rep.funcs, mod.SIZES[1])
