"""Collects what a rule analysed and what it found."""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = []      # (name, status, where)
        self.violations = {}       # key -> (msg, where)
        self.undecided_ = []
        self.counts = {}
        self.notes = []
        self.analysed = set()
        self.samples = []

    def ok(self, name, where=""):
        self.obligations.append((name, "discharged", where))

    def violation(self, key, msg, where=""):
        if key not in self.violations:
            self.violations[key] = (msg, where)
        self.obligations.append((key, "violated", where))

    def check(self, cond, key, msg, where=""):
        if cond:
            self.ok(key, where)
        else:
            self.violation(key, msg, where)
        return cond

    def undecided(self, name, why, where=""):
        self.undecided_.append((name, why, where))
        self.obligations.append((name, "undecided", where))

    def anchor(self, cond, name, what):
        """an entry point the rule starts from; losing it leaves the property undecided, and is reported as that"""
        if not cond:
            self.undecided("anchor-lost:" + name, "the rule's anchor is gone: " + what)
        return cond

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.undecided("floor:" + name, "%s: found %d, at least %d were confirmed by hand" % (name, n, least))

    def count(self, name, n):
        self.counts[name] = n

    def note(self, s):
        self.notes.append(s)

    def engine(self, eng):
        """account for one run of the abstract interpreter"""
        self.analysed |= eng.analysed
        for k in ("states", "calls", "inlined", "paths"):
            self.counts["abstract_" + k] = self.counts.get("abstract_" + k, 0) + eng.stats[k]
