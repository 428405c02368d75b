"""Runner shared by all checks: builds, generates cases, runs them in parallel worker
processes, confirms and reports violations, matches known findings, writes the evidence."""
import argparse
import collections
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B  # noqa: E402
import imf  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines 'finding: property=<id> key=<key> <what>'; 'fixed:' lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:") and ("property=%s " % prop) in line:
                f = line[len("finding:"):].strip().split(None, 2)
                key = f[1].split("=", 1)[1]
                out[key] = f[2] if len(f) > 2 else ""
    return out


def seed_of(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")


class Check:
    id = None
    programs = ()          # plain flavour
    asan_programs = ()
    tsan_programs = ()
    harness = ()           # [(name, [sources])] plain
    asan_harness = ()
    tsan_harness = ()
    level = "exploration"
    rule = ""
    assumptions = []
    workers = None
    confirm = True
    case_timeout = 600

    def cases(self, tier, seed):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    # ----- helpers for subclasses
    def finalize(self, results, tier):
        """Extra cross-case judgement: returns list of (key, message)."""
        return []


class Res:
    """What one case observed."""

    def __init__(self):
        self.viol = []
        self.ev = collections.Counter()
        self.wm = {}
        self.sigs = []          # distinct non-trivial signatures
        self.sample = None
        self.data = None
        self.evals = 1

    def bad(self, key, msg):
        self.viol.append((key, msg))

    def seen(self, name, n=1):
        self.ev[name] += n

    def worst(self, name, value):
        """largest value of a quantity over all cases"""
        self.wm[name] = max(self.wm.get(name, 0.0), float(value))

    def nontrivial(self, sig):
        self.sigs.append(str(sig))


class Ctx:
    def __init__(self, bins, tier, keep=False):
        self.bins = bins
        self.tier = tier
        self.dir = None


_CHECK = None
_BINS = None
_TIER = None
_SCR = None


def _one(case):
    d = tempfile.mkdtemp(prefix="c", dir=_SCR)
    ctx = Ctx(_BINS, _TIER)
    ctx.dir = d
    t0 = time.time()
    try:
        r = _CHECK.run(case, ctx)
        err = None
    except imf.ProgramFailure as e:
        r = Res()
        r.bad(e.key, str(e))
        err = None
    except Exception:
        r = Res()
        err = traceback.format_exc()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
    return case, r, err, time.time() - t0


def build_all(check):
    bins = {}
    for fl, progs, har in (("plain", check.programs, check.harness),
                           ("asan", check.asan_programs, check.asan_harness),
                           ("tsan", check.tsan_programs, check.tsan_harness)):
        if progs or har:
            for k, v in B.build(fl, progs, har).items():
                bins[k if fl == "plain" else fl + ":" + k] = v
    return bins


def main(check):
    global _CHECK, _BINS, _TIER, _SCR
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of the case's kind/name")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        bins = build_all(check)
    except B.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    tb = time.time() - t0
    _CHECK, _BINS, _TIER = check, bins, a.tier
    scr_root = os.environ.get("VERIF_SCRATCH", "/tmp")
    _SCR = tempfile.mkdtemp(prefix="vf-%s-" % check.id.lower(), dir=scr_root)
    try:
        if a.replay:
            case = json.load(open(a.replay))["case"]
            _, r, err, _ = _one(case)
            print(err or "", *("%s: %s" % v for v in r.viol), sep="\n")
            print(dict(r.ev))
            return 2 if err else (1 if r.viol else 0)
        cases = list(check.cases(a.tier, a.seed))
        if a.only:
            cases = [c for c in cases if a.only in json.dumps(c)]
        results, errors, slow = [], [], []
        nw = check.workers or min(os.cpu_count() or 4, 8)
        ev = collections.Counter()
        wm = {}
        sigs = set()
        evals = 0
        viols = []
        samples = []
        with mp.get_context("fork").Pool(nw) as pool:
            for case, r, err, dt in pool.imap_unordered(_one, cases, chunksize=1):
                evals += r.evals
                ev.update(r.ev)
                for k, v in r.wm.items():
                    wm[k] = max(wm.get(k, 0.0), v)
                sigs.update(r.sigs)
                if dt > 20:
                    slow.append((round(dt, 1), case.get("kind", "")))
                if err:
                    errors.append((case, err))
                    if a.v:
                        print(err)
                for k, m in r.viol:
                    viols.append((case, k, m))
                    if a.v:
                        print("candidate:", k, m, json.dumps(case)[:300])
                if r.sample is not None and len(samples) < 8:
                    samples.append(r.sample)
                results.append((case, r))
        for k, m in check.finalize(results, a.tier):
            viols.append(({"kind": "finalize"}, k, m))
        known = known_findings(check.id)
        # confirm in this process, one at a time (a loaded machine must not raise an alarm)
        final, unconfirmed = [], 0
        seenkeys = collections.Counter()
        for case, k, m in viols:
            if seenkeys[k] >= 3:
                continue
            if k in known:
                seenkeys[k] += 1
                final.append((case, k, m))
                continue
            if check.confirm and case.get("kind") != "finalize" and len(final) < 6:
                _, r2, err2, _ = _one(case)
                if not any(kk == k for kk, _ in r2.viol):
                    unconfirmed += 1
                    print("NOTE: not confirmed on re-run: %s %s" % (k, m[:200]))
                    continue
            seenkeys[k] += 1
            final.append((case, k, m))
        rc = 0
        nnew = 0
        hit = set()
        rdir = os.path.join(VERIF, "replays", check.id)
        for case, k, m in final:
            if k in known:
                hit.add(k)
                continue
            nnew += 1
            rc = 1
            if nnew <= 10:
                os.makedirs(rdir, exist_ok=True)
                p = os.path.join(rdir, "%s-%d.json" % (a.tier, nnew))
                json.dump({"property": check.id, "key": k, "message": m, "case": case,
                           "rerun": "python3 checks/%s.py --replay %s" % (check.id.lower(), p)},
                          open(p, "w"), indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (check.id, p))
                print("  [%s] %s" % (k, m[:600]))
        for k, what in known.items():
            print("KNOWN-FINDING: property=%s %s%s" % (check.id, what, "" if k in hit else " (not reached in this run)"))
        if errors:
            print("HARNESS ERRORS: %d; first:\n%s\ncase=%s" % (len(errors), errors[0][1], json.dumps(errors[0][0])[:500]))
            if rc == 0:
                rc = 2
        if rc == 0 and (evals == 0 or not sigs):
            print("nothing non-trivial was observed: the check decides nothing")
            rc = 2
        wall = time.time() - t0
        evd = {"property": check.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
               "seed": a.seed, "level": check.level,
               "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": check.rule,
                            "observed": dict(sorted(ev.items()), **{"max_" + k: float("%.3g" % v) for k, v in sorted(wm.items())}), "samples": samples,
                            "cases": len(cases), "unconfirmed_candidates": unconfirmed,
                            "build_s": round(tb, 1)},
               "assumptions": list(check.assumptions), "wall_s": round(wall, 1), "violations": nnew}
        if not os.environ.get("VERIF_NOEVID"):
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump(evd, open(os.path.join(VERIF, "evidence", check.id + ".json"), "w"), indent=1, default=str)
        print("%s %s: %d cases, %d evaluations, %d distinct non-trivial, %d violations, %.1fs (build %.1fs)" % (
            check.id, a.tier, len(cases), evals, len(sigs), nnew, wall, tb))
        print("observed: " + ", ".join(["%s=%d" % kv for kv in sorted(ev.items())] + ["max %s=%.3g" % kv for kv in sorted(wm.items())]))
        if slow and a.v:
            print("slow cases:", sorted(slow)[-5:])
        return rc
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(_SCR, ignore_errors=True)
