"""Runs the specification units and the rules of one property and reports."""
import importlib
import json
import os
import sys
import time
import traceback

from .units import Analysis
from . import pool, rules

A = None


class Finding(object):
    """one violated obligation, identified by its rule and construct and never by a line number"""
    def __init__(self, rule, construct, what, where="", detail=()):
        self.rule, self.construct, self.what, self.where, self.detail = rule, construct, what, where, list(detail)

    @property
    def key(self):
        return "%s @ %s" % (self.rule, self.construct)


def _judge(u):
    try:
        r = A.judge(u)
        return (u, r.name, r.status, r.where, r.why, r.channels, r.calls, r.events, sorted(r.visited), r.secs,
                [pack(d) for d in r.diffs], [pack(d) for d in r.unclear])
    except MemoryError:
        raise
    except Exception:
        return (u, "%s.%s" % (u[0], u[2]), "error", "", traceback.format_exc(), [], 0, 0, [], 0, [], [])


def pack(d):
    return {"channel": d.chan, "where": d.where, "why": d.why, "want": list(d.want), "got": list(d.got)}


def run(prop, repo, tier, jobs):
    global A
    A = Analysis(repo, budget=100 if tier == "quick" else 240)
    deadline = time.time() + (600 if tier == "quick" else 750)
    rep = Report(prop, repo)
    todo = []
    for u in A.units():
        s = A.specof(u)
        if s.wants(prop) is not None:
            todo.append(u)
    todo.sort(key=lambda u: -A.specof(u).weight)
    rep.units = len(todo)
    if todo:
        for u, x in pool.each(_judge, todo, jobs, deadline, limit=2 * A.budget + 20):
            if isinstance(x, pool.Lost):
                x = (u, "%s.%s" % (u[0], u[2]), "undecided", "", x.why, [], 0, 0, [], 0, [], [])
            rep.add_unit(A, x)
    rs = rules.FOR.get(prop, ())
    for name in rs:
        m = importlib.import_module("ntm.rules." + name)
        for n, x in pool.each(lambda n: m.check(A, prop), [name], 1, deadline + 60):
            if isinstance(x, pool.Lost):
                x = (0, [], ["rule %s: %s" % (name, x.why)], [], [])
            rep.add_rule(name, x)
    if not todo and not rs:
        rep.errors.append("no unit and no rule for %s" % prop)
    return rep


class Report(object):
    def __init__(self, prop, repo):
        self.prop, self.repo = prop, repo
        self.findings, self.errors, self.undecided, self.held, self.absent = [], [], [], [], []
        self.functions, self.obligations, self.rulecounts = set(), 0, {}
        self.events = 0
        self.units = 0
        self.samples = []

    def add_unit(self, A, x):
        u, name, status, where, why, chans, calls, events, visited, secs, diffs, unclear = x
        w = A.specof(u).wants(self.prop)
        mine = [c for c in chans if w(c)]
        self.functions.update(visited)
        self.events += events
        self.obligations += len(mine)
        if status == "error":
            self.undecided.append("%s: %s" % (name, why[-400:]))
            return
        if status == "absent":
            if not u[2].startswith("_") or u[2] in ("__init__", "_key"):
                self.errors.append("%s is gone from the source" % name)
            else:
                self.absent.append(name)
            return
        if why and not diffs and not unclear:
            self.undecided.append("%s: %s" % (name, why))
            return
        bad = [d for d in diffs if w(d["channel"])]
        dim = [d for d in unclear if w(d["channel"])]
        for d in bad:
            self.findings.append(Finding("spec", "%s %s" % (name, d["channel"]), explain(d), d["where"] or where,
                                         ["specified: " + t for t in d["want"]] + ["found: " + t for t in d["got"]]))
        for d in dim:
            self.undecided.append("%s %s: %s" % (name, d["channel"], d["why"]))
        if not bad and not dim:
            self.held.append(name)

    def add_rule(self, name, res):
        n, findings, undecided, functions, sample = res
        self.rulecounts[name] = n
        self.obligations += n
        self.findings += findings
        self.undecided += undecided
        self.functions.update(functions)
        self.samples += sample

    def write_evidence(self, d, tier, seed, t0):
        os.makedirs(d, exist_ok=True)
        cov = {
            "explanation": "Static decision from the source of %s: each listed function is put through a value-flow "
                           "analysis into a normal form of what it returns, raises, stores, mutates and calls, and "
                           "compared channel by channel with the normal form of its declarative specification in "
                           "/verif/spec; rules of /verif/ntm/rules check whole-program facts over the syntax tree and "
                           "call graph.  Nothing of the repository is executed." % self.repo,
            "units": self.units, "units_held": len(self.held), "held": sorted(self.held),
            "obligations": self.obligations, "functions_analysed": len(self.functions),
            "functions": sorted(str(f) for f in self.functions), "effects_and_calls_seen": self.events,
            "rule_obligations": self.rulecounts, "not_decided": sorted(self.undecided),
            "absent_helpers": sorted(self.absent), "samples": self.samples[:10],
            "rule": "a finding is an observable channel of a function whose normal form differs from its specification, "
                    "or a construct that breaks a named rule",
        }
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "wall_s": round(time.time() - t0, 2), "violations": len(self.findings),
              "assumptions": ["the analysed program is what runs: no monkey patching, and documented behaviour of the "
                              "Python standard library, networkx and dash",
                              "contracts of ntm/contracts.py for library calls"]}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)

    def announce(self, rdir, known):
        keys = read_known(known, self.prop)
        fresh = [f for f in self.findings if f.key not in keys]
        for f in self.findings:
            if f.key in keys:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, f.key, keys[f.key]))
        for e in self.errors:
            print("ERROR: %s" % e)
        if not fresh:
            print("%s: %d obligations in %d functions, %d units hold, %d not decided" % (
                self.prop, self.obligations, len(self.functions), len(self.held), len(self.undecided)))
            for t in self.undecided:
                print("  not decided: %s" % t[:300])
            return 2 if self.errors else 0
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, self.prop + ".txt")
        with open(p, "w") as out:
            for f in fresh:
                out.write("%s\n  at %s\n  %s\n" % (f.key, f.where, f.what))
                for t in f.detail:
                    out.write("    %s\n" % t)
        for f in fresh:
            print("%s: %s [%s]" % (f.where, f.what, f.key))
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1


def explain(d):
    kind, _, what = d["channel"].partition(":")
    w = {"ret": "the returned value differs from the specified one", "raise": "%s is raised under other conditions than "
         "specified", "store": "what is stored in %s differs from what is specified",
         "mut": "what is added to or removed from %s differs from what is specified",
         "call": "the calls of %s differ from the specified ones"}.get(kind, "%s differs")
    return w % what if "%s" in w else w


def read_known(path, prop):
    """KNOWN_FINDINGS.txt: 'known: property=<id> <rule @ construct> :: <what fails>'; 'fixed:' lines suppress nothing"""
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                head = "known: property=%s " % prop
                if line.startswith(head):
                    key, _, what = line[len(head):].strip().partition(" :: ")
                    out[key] = what
    return out
