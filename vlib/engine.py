"""The check engine: produce event sessions from the real code, judge them with TLC, confirm, report."""
import json, os, sys, time, traceback
from . import core
from .core import CheckError, FAULT, run_driver, validate


class Source:
    """Runs op sessions through one driver build."""
    def __init__(self, exe, args=(), env=None, timeout=240, shards=core.JOBS, prefix=(), label=""):
        self.exe, self.args, self.env, self.timeout, self.shards = exe, args, env, timeout, shards
        self.prefix = list(prefix)        # events put before every session (e.g. the configuration)
        self.label = label
        self.faults = []

    def produce(self, ops):
        """-> list of (index of op session, events)"""
        sess, index, faults = run_driver(self.exe, ops, self.args, self.env, self.timeout, self.shards)
        self.faults += [f for _, f in faults]
        return [(i, self.prefix + s) for i, s in zip(index, sess)]


class Compare:
    """The same op sessions in a reference environment and in others: ref events, then again events.
    by_index: the others log {i, j, e} records (thread mode)."""
    def __init__(self, ref, others, by_index=False):
        self.ref, self.others, self.by_index = ref, others, by_index
        self.faults = []
        self.label = "compare " + ", ".join("%s" % (o[0].label,) for o in others)

    def produce(self, ops):
        base = dict(self.ref.produce(ops))
        runs = [(dict(src.produce(ops)), comma) for src, comma in self.others]
        self.faults = self.ref.faults + [f for src, _ in self.others for f in src.faults]
        out = []
        for i in sorted(base):
            evs = base[i]
            s, bad = [], False
            pos = {}
            for n, e in enumerate(evs):
                if e == FAULT:
                    bad = True
                    continue
                if self.by_index:
                    head, body = self._split(e)
                    pos[head] = len(pos) + 1
                    e = body
                s.append('{"o":"ref","e":%s}' % e)
            for run, comma in runs:
                if bad:
                    break
                if i not in run:
                    continue
                for n, e in enumerate(run[i]):
                    if e == FAULT:
                        bad = True
                        continue
                    k = n + 1
                    if self.by_index:
                        head, e = self._split(e)
                        k = pos.get(head, 0)
                    s.append('{"o":"again","i":%d,"comma":%d,"e":%s}' % (k, comma, e))
            if bad:
                s.append(FAULT)
            out.append((i, s))
        return out

    @staticmethod
    def _split(e):
        k = e.index(',"e":')
        return e[:k], e[k + 5:-1]


class Check:
    def __init__(self, prop, tier, seed, prev=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.prev = prev             # the round before (thorough tier): its totals are carried on, its models not run again
        self.quick = tier == "quick"
        self.parts = []              # (source, op sessions, module)
        self.models = []             # functions run after conformance; return dict(name, states, transitions)
        self.notes = {}
        self.assumptions = []
        self.known = []
        self.known_lines = []        # KNOWN-FINDING texts, filled by the property
        self.exhaustive = False

    def add(self, source, ops, module="Trace"):
        ops = [s for s in ops if s]
        if ops:
            self.parts.append((source, ops, module))

    def run(self):
        t0 = time.time()
        st = dict(states=0, transitions=0, traces=0, events=0)
        samples, counts = [], {}
        if self.prev:
            st, samples, counts = self.prev.totals
            t0 -= self.prev.wall
        modules = list(dict.fromkeys(m for _, _, m in self.parts))
        for module in modules:
            parts = [p for p in self.parts if p[2] == module]
            sess, origin = [], []
            for src, ops, _ in parts:
                for i, evs in src.produce(ops):
                    sess.append(evs)
                    origin.append((src, ops, i))
            bad, v = validate(sess, self.prop, module)
            st["states"] += v["states"]
            st["transitions"] += v["transitions"]
            self.known += v["known"]
            if bad:
                return self.report(sess, origin, bad, module, st, time.time() - t0)
            st["traces"] += len(sess)
            st["events"] += sum(len(s) for s in sess)
            for s in sess:
                for e in s:
                    k = e[6:e.index('"', 6)]
                    counts[k] = counts.get(k, 0) + 1
            for k in range(0, len(sess), max(1, len(sess) // 6)):
                if sess[k]:
                    samples.append({"spec": module, "session": k, "ops": origin[k][1][origin[k][2]][:2], "event": sess[k][min(1, len(sess[k]) - 1)][:500]})
        models = self.prev.model_results if self.prev else []
        for m in [] if self.prev else self.models:
            r = m()
            st["states"] += r["states"]
            st["transitions"] += r["transitions"]
            models.append(r)
        self.totals, self.model_results, self.wall, self.rounds = (st, samples, counts), models, time.time() - t0, self.prev.rounds + 1 if self.prev else 1
        for line in self.known_lines if not self.prev else ():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, line))
        cov = dict(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=st["traces"],
                   events_validated=st["events"], events_by_action=counts, models=models, samples=samples[:8], exhaustive=self.exhaustive)
        cov.update(self.notes)
        if not self.quick:
            cov["rounds"] = self.rounds
        self.evidence(cov, time.time() - t0, 0)
        print("property %s held: %d sessions, %d events, %d states (%.1f s)" % (self.prop, st["traces"], st["events"], st["states"], time.time() - t0))
        return 0

    def report(self, sess, origin, bad, module, st, wall):
        """A rejected event: repeat it before calling it a violation.
        A wrong result or a sanitizer report is a fact about the code even if it does not come back (a race, an
        uninitialised read); only a process that was ended from outside or ran out of time has to fail twice."""
        src, ops, i = origin[bad[0]]
        event = sess[bad[0]][bad[1]]
        first = list(src.faults)
        src.faults = []
        again = [s for _, s in src.produce([ops[i]])]
        b2, _ = validate(again, self.prop, module)
        how = "session alone"
        if not b2:
            again = [s for _, s in src.produce(ops)]
            b2, _ = validate(again, self.prop, module)
            how = "whole run"
        if not b2:
            if event == FAULT and not any(f.startswith("exit") and not f.startswith(("exit -9", "exit -15")) for f in first):
                raise CheckError("rejected once, accepted when repeated: %s" % (first[:1] or event))
            again, b2, how = sess, bad, "not reproduced on repetition"
        if not src.faults:
            src.faults = first
        d = os.path.join(core.ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.prop)
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, spec=module, source=src.label, tier=self.tier, seed=self.seed, rejected_event=again[b2[0]][b2[1]],
                           first_seen=event, event_index=b2[1], reproduced_by=how, ops=ops[i][:2000],
                           events_before=again[b2[0]][max(0, b2[1] - 5):b2[1]],
                           faults=src.faults[:3]), f, indent=1)
        print("rejected by %s: %s" % (module, again[b2[0]][b2[1]][:1500]))
        for f in src.faults[:1]:
            print(f[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        cov = dict(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=max(0, bad[0]), samples=[event[:800]])
        self.evidence(cov, wall, 1)
        return 1

    def evidence(self, cov, wall, violations):
        d = os.path.join(core.ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                           assumptions=self.assumptions, wall_s=round(wall, 2), violations=violations), f, indent=1)
            f.write("\n")
