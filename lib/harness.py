"""Running of cases, verdicts, evidence, replay files and known findings.

A check is a module `checks.<id>` with

* LEVEL, RULE, ASSUMPTIONS: for the evidence
* QUICK, THOROUGH: number of generated cases (and optionally CAP_QUICK/CAP_THOROUGH:
  the number of seconds after which no new case is started)
* case(rng, rep, size): generates one case from `rng`, runs it and raises Violation
* directed(rep): optional; yields (name, function) of fixed scenarios
* MIN: dict of counters that have to reach a minimum for the verdict to be conclusive
* setup(): optional, called once

Everything random is derived from VERIF_SEED and the number of the case.
"""
import collections
import faulthandler
import gc
import importlib
import json
import os
from pathlib import Path
import random
import sys
import traceback

from . import clock

ROOT = Path(__file__).resolve().parent.parent
# Longest that a single case may take (usually that's less than a second)
WATCHDOG_S = 240


class Violation(Exception):
    """The monitored execution violates the property"""

    def __init__(self, kind, message="", **detail):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message
        self.detail = detail


class Inconclusive(Exception):
    """The case can't be judged"""


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.evaluations = 0
        self.signatures = set()
        self.samples = []
        self.counters = collections.Counter()
        self.log = []
        self.sig = None
        self.max = {}

    def count(self, name, n=1):
        self.counters[name] += n

    def maximum(self, name, value):
        self.max[name] = max(self.max.get(name, value), value)

    def note(self, *step):
        """Record a step of the case, for the replay file and the samples"""
        self.log.append(step)

    def signature(self, sig):
        """Mark the current case as non-trivial; cases with equal signatures count once"""
        self.sig = sig

    def begin(self):
        self.log = []
        self.sig = None

    def end(self):
        self.evaluations += 1
        if self.sig is not None:
            sig = hash(repr(self.sig))
            if sig not in self.signatures:
                self.signatures.add(sig)
                n = len(self.signatures)
                if len(self.samples) < 3 or (n & (n - 1) == 0 and len(self.samples) < 6):
                    text = json.dumps(self.log, default=repr)
                    self.samples.append(text[:1500])


def known_findings(prop):
    """The `known: property=<id> kind=<kind> ...` lines of known-findings.txt"""
    result = {}
    path = ROOT / "known-findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known:"):
                fields = dict(
                    part.split("=", 1) for part in line.split() if "=" in part
                )
                if fields.get("property") == prop:
                    result[fields["kind"]] = line[len("known:") :].strip()
    return result


def case_seed(prop, seed, number):
    return f"{prop}:{seed}:{number}"


def exception_kind(exc):
    """Exceptions in a valid workload: the type and place identify the mechanism"""
    frames = traceback.extract_tb(exc.__traceback__)
    place = ""
    for frame in frames:
        if "/collagraph/" in frame.filename:
            place = f"{Path(frame.filename).name}:{frame.name}"
    return f"exception-{type(exc).__name__}@{place}"


def run(args):
    prop = args.property
    tier = args.tier
    seed = args.seed
    if seed is None:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    number = args.case
    if args.replay:
        data = json.loads(Path(args.replay).read_text())
        seed, number = data["seed"], data["case"]
        tier = data.get("tier", tier)

    os.environ["VERIF_TIER"] = tier
    start = clock.real()
    check = importlib.import_module(f"checks.{prop}")
    rep = Report(prop, tier, seed)
    if hasattr(check, "setup"):
        check.setup()

    total = check.QUICK if tier == "quick" else check.THOROUGH
    cap = (
        getattr(check, "CAP_QUICK", 45)
        if tier == "quick"
        else getattr(check, "CAP_THOROUGH", 600)
    )
    if args.cases is not None:
        total = args.cases

    violations = []
    known = known_findings(prop)
    seen_known = {}
    inconclusive = 0

    # PySide confuses objects when an invalid wrapper of a destroyed object is freed
    # while another object got the same address (that happens without collagraph, too).
    # So, for checks that use Qt, garbage is collected in between cases only.
    in_between = getattr(check, "COLLECT_IN_BETWEEN", False)
    if in_between:
        gc.collect()
        gc.freeze()
        gc.disable()

    def execute(name, fn):
        nonlocal inconclusive
        rep.begin()
        if in_between:
            gc.collect()
        if current := os.environ.get("VERIF_CURRENT"):
            case = dict(property=prop, seed=seed, tier=tier, case=name)
            Path(current).write_text(json.dumps(case))
        faulthandler.dump_traceback_later(WATCHDOG_S - 10)
        try:
            fn()
        except Inconclusive as exc:
            inconclusive += 1
            rep.count("inconclusive")
            rep.counters[f"inconclusive: {exc}"] += 1
        except Violation as exc:
            handle(name, exc.kind, exc.message, exc.detail, traceback.format_exc())
        except Exception as exc:
            kind = exception_kind(exc)
            handle(name, kind, repr(exc), {}, traceback.format_exc())
        except BaseException as exc:  # e.g. SystemExit in code under test
            if isinstance(exc, KeyboardInterrupt):
                raise
            handle(name, exception_kind(exc), repr(exc), {}, traceback.format_exc())
        rep.end()

    def handle(name, kind, message, detail, tb):
        for pattern, line in known.items():
            if kind == pattern:
                seen_known[pattern] = line
                return
        violations.append((name, kind, message, detail, tb, list(rep.log)))

    stop = False
    if hasattr(check, "directed") and (number is None or isinstance(number, str)):
        for name, fn in check.directed(rep):
            if isinstance(number, str) and name != number:
                continue
            execute(name, fn)
            rep.count("directed scenarios")
            if violations and not args.keep_going:
                stop = True
                break

    if not isinstance(number, str) and not stop:
        numbers = range(total) if number is None else [number]
        for n in numbers:
            if number is None and clock.real() - start > cap:
                rep.count("cases not run because of the time limit", total - n)
                break
            rng = random.Random(case_seed(prop, seed, n))
            size = min(1.0, 0.15 + n / max(1, min(total, 400)))
            execute(n, lambda: check.case(rng, rep, size))
            if violations and not args.keep_going:
                break
    faulthandler.cancel_dump_traceback_later()

    if hasattr(check, "finish"):
        try:
            check.finish(rep)
        except Violation as exc:
            handle("finish", exc.kind, exc.message, exc.detail, traceback.format_exc())

    wall = clock.real() - start
    if number is None:
        coverage = dict(
            evaluations=rep.evaluations,
            distinct_nontrivial=len(rep.signatures),
            rule=check.RULE,
            samples=rep.samples or ["(none)"],
            observed=dict(sorted(rep.counters.items())),
        )
        if rep.max:
            coverage["maxima"] = rep.max
        evidence = dict(
            property=prop,
            tier=tier,
            seed=seed,
            level=getattr(check, "LEVEL", "exploration"),
            coverage=coverage,
            assumptions=getattr(check, "ASSUMPTIONS", []),
            wall_s=round(wall, 3),
            violations=len(violations),
        )
        path = ROOT / "evidence" / f"{prop}.json"
        path.parent.mkdir(exist_ok=True)
        tmp = path.with_suffix(f".{os.getpid()}.tmp")
        tmp.write_text(json.dumps(evidence, indent=1, default=repr))
        tmp.replace(path)

    for line in seen_known.values():
        print(f"KNOWN-FINDING: {line}")

    if violations:
        shown = set()
        for name, kind, message, detail, tb, log in violations:
            if kind in shown:
                continue
            shown.add(kind)
            replay = ROOT / "replay" / f"{prop}-{seed}-{name}.json"
            replay.parent.mkdir(exist_ok=True)
            replay.write_text(
                json.dumps(
                    dict(
                        property=prop,
                        seed=seed,
                        tier=tier,
                        case=name,
                        kind=kind,
                        message=message,
                        detail=detail,
                        traceback=tb,
                        steps=log,
                    ),
                    indent=1,
                    default=repr,
                )
            )
            print(f"{kind}: {message}"[:2000])
            if not kind.startswith("exception"):
                for key, val in detail.items():
                    print(f"  {key}: {val}"[:1500])
            else:
                print(tb[-3000:])
            print(f"VIOLATION property={prop} replay={replay}")
        sys.stdout.flush()
        return 1

    if number is None:
        for key, minimum in getattr(check, "MIN", {}).items():
            if rep.counters[key] < minimum and args.cases is None:
                print(f"INCONCLUSIVE property={prop}: {key}={rep.counters[key]} < {minimum}")
                return 3
        if inconclusive and inconclusive > rep.evaluations // 2:
            print(f"INCONCLUSIVE property={prop}: {inconclusive} of {rep.evaluations}")
            return 3

    print(
        f"OK property={prop} tier={tier} seed={seed} cases={rep.evaluations} "
        f"distinct={len(rep.signatures)} wall={wall:.1f}s {dict(rep.counters)}"
    )
    return 0
