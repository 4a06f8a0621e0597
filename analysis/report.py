"""Collects obligations and violations of one check."""
import json, os, time
from collections import Counter, defaultdict
from .facts import AnalysisBroken, VERIF


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.violations = []
        self.counts = Counter()
        self.discharged = Counter()
        self.samples = defaultdict(list)
        self.notes = []
        self.assumptions = []
        self.rules = {}
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, what=None):
        """one obligation that was discharged"""
        self.counts[rule] += 1
        self.discharged[rule] += 1
        if what and len(self.samples[rule]) < 6:
            self.samples[rule].append(str(what))

    def bad(self, rule, loc, construct, msg, path=None):
        """one obligation that failed. `construct` identifies it independently of line numbers"""
        self.counts[rule] += 1
        key = "%s|%s" % (rule, construct)
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"rule": rule, "loc": loc, "construct": construct, "message": msg, "path": path or [], "key": key})

    def check(self, cond, rule, loc, construct, msg, path=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, loc, construct, msg, path)
        return cond

    def require(self, rule, n, what):
        """fails the analysis when fewer than n instances were found for a rule"""
        if self.counts[rule] < n:
            raise AnalysisBroken("rule %s: only %d instances of %s found, expected at least %d" % (rule, self.counts[rule], what, n))

    def note(self, s):
        self.notes.append(s)
