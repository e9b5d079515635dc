"""
Seeded generated-input search with shrinking, replay files and evidence.

A check is a module in kv.checks with

    ID       property id
    RULE     how cases are made and which count as non-trivial
    COUNTS   {"quick": n, "thorough": n}   random cases
    make(r, i)       -> case (JSON data), random.Random r, case number i
    run(case, cov)   -> None, raises Violation; cov.hit(label), cov.nontrivial()
    systematic()     -> optional iterable of enumerated cases, all run in every tier
    shrinks(case)    -> optional iterable of smaller cases
    ASSUMPTIONS      optional list of strings

Every case is a pure function of (VERIF_SEED, check id, case number).  The work is
split over processes by case number, so the set of cases does not depend on how
many processors there are.
"""
from __future__ import annotations

import argparse
import contextlib
import copy
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from pathlib import Path

from kv.errors import Skip
from kv.errors import Slow
from kv.errors import Violation

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("KV_REPO", "/repo")).resolve()
WALL_CAP = {"quick": 420.0, "thorough": 6 * 3600.0}
SHRINK_S = 25.0
CASE_S = 60.0
SHRINK_CASE_S = 4.0


class Coverage:
    """What one process explored."""

    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.slow = 0
        self.labels: dict[str, int] = {}
        self.hashes: set[int] = set()
        self._nontrivial = False
        self.samples: list = []

    def hit(self, label: str, n: int = 1) -> None:
        self.labels[label] = self.labels.get(label, 0) + n

    def nontrivial(self, cond: bool = True) -> None:
        self._nontrivial = self._nontrivial or bool(cond)


def digest(case) -> int:
    data = json.dumps(case, sort_keys=True, ensure_ascii=True).encode()
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(), "big")


def case_rng(seed: int, ident: str, i: int) -> random.Random:
    key = hashlib.blake2b(f"{seed}/{ident}/{i}".encode(), digest_size=8).digest()
    return random.Random(int.from_bytes(key, "big"))


def repo_frame(exc: BaseException) -> str | None:
    """The innermost frame of the code under test in a traceback."""
    found = None
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(str(REPO) + os.sep):
            found = f"{Path(fr.filename).name}:{fr.name}"
    return found


def _alarm(signum, frame):
    raise Slow


def reset() -> None:
    """Put the global state of the code under test back."""
    from fastkml import config
    from lxml import etree

    if config.etree is not etree:
        config.set_etree_implementation(etree)


def evaluate(check, case, cov: Coverage) -> Violation | None:
    """Run one case; classify whatever comes out of it."""
    cov._nontrivial = False
    reset()
    try:
        check.run(case, cov)
    except Violation as v:
        return v
    except (Skip, Slow):
        raise
    except RecursionError as e:
        return Violation("recursion", str(e)[:200])
    except Exception as e:
        where = repo_frame(e)
        if where is None:
            if isinstance(e, (OSError, MemoryError)):
                raise
            # what the library returned was not of the kind the oracle can even look at;
            # never happens on a tree on which the property holds
            where = "oracle " + str(traceback.extract_tb(e.__traceback__)[-1])
        return Violation(f"raised {type(e).__name__}", f"in {where}: {str(e)[:300]}")
    finally:
        reset()
    return None


# ---------------------------------------------------------------------------
# shrinking
# ---------------------------------------------------------------------------
def shrink(check, case, kind: str) -> tuple:
    """Greedy: take the first smaller case that still fails in the same way."""
    end = time.monotonic() + SHRINK_S
    best, why = case, None
    cov = Coverage()
    fn = getattr(check, "shrinks", None)
    if fn is None:
        return best, why
    seen = {digest(case)}
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in fn(best):
            if time.monotonic() > end:
                break
            h = digest(cand)
            if h in seen:
                continue
            seen.add(h)
            try:
                signal.setitimer(signal.ITIMER_PROF, SHRINK_CASE_S)
                v = evaluate(check, cand, cov)
            except (Exception, Slow):  # a candidate outside the domain, or too slow
                continue
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            if v is not None and v.kind == kind:
                best, why, progress = cand, v, True
                break
    return best, why


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------
def worker(modname: str, shard: int, shards: int, n: int, seed: int, end: float, conn,
           stop) -> None:
    out: dict = {"shard": shard}
    cov = Coverage()
    try:
        logging.disable(logging.CRITICAL)
        signal.signal(signal.SIGPROF, _alarm)
        check = importlib.import_module(modname)
        cases = []
        for i, c in enumerate(getattr(check, "systematic", tuple)()):
            if i % shards == shard:
                cases.append(("s", i, c))
        out["systematic"] = len(cases)

        def stream():
            yield from cases
            for i in range(shard, n, shards):
                yield "r", i, None

        for src, i, case in stream():
            if stop.is_set() or time.time() > end:
                out["truncated"] = True
                break
            if src == "r":
                case = check.make(case_rng(seed, check.ID, i), i)
            cov.evaluations += 1
            try:
                signal.setitimer(signal.ITIMER_PROF, CASE_S)
                v = evaluate(check, case, cov)
            except Skip:
                cov.skipped += 1
                continue
            except Slow:
                cov.slow += 1
                if not getattr(check, "TERMINATES", False):
                    continue
                v = Violation("endless", f"no end after {CASE_S:.0f} s of processor time")
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            if cov._nontrivial:
                h = digest(case)
                if h not in cov.hashes:
                    cov.hashes.add(h)
                    if src == "r" and len(cov.samples) < 3:
                        text = json.dumps(case, ensure_ascii=True)
                        if 60 < len(text) < 1500:
                            cov.samples.append(case)
            if v is not None:
                stop.set()
                small, why = shrink(check, case, v.kind) if v.kind != "endless" else (case, None)
                out["violation"] = {"case": small, "original": case if small is not case else None,
                                    "kind": v.kind, "message": str(why or v), "number": [src, i]}
                break
    except BaseException:
        out["error"] = traceback.format_exc()
        stop.set()
    out.update(evaluations=cov.evaluations, skipped=cov.skipped, slow=cov.slow,
               labels=cov.labels, hashes=list(cov.hashes), samples=cov.samples)
    conn.send(out)
    conn.close()


def load_corpus(ident: str) -> list:
    d = VERIF / "corpus" / ident
    return [(p, json.loads(p.read_text())) for p in sorted(d.glob("*.json"))] if d.is_dir() else []


def write_replay(ident: str, payload: dict) -> Path:
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    name = f"{ident}-{digest(payload['case']):016x}.json"
    p = d / name
    p.write_text(json.dumps({"property": ident, **payload}, indent=1, ensure_ascii=True) + "\n")
    return p


def prepare() -> None:
    """Import the code under test from the working tree, nothing else."""
    sys.path[:0] = [p for p in (str(REPO), str(VERIF)) if p not in sys.path[:2]]
    logging.disable(logging.CRITICAL)
    import fastkml

    got = Path(fastkml.__file__).resolve()
    if not got.is_relative_to(REPO):
        msg = f"fastkml comes from {got}, not from {REPO}"
        raise RuntimeError(msg)


def known_lines(ident: str) -> list[str]:
    p = VERIF / "known_findings.txt"
    if not p.exists():
        return []
    return [ln.strip() for ln in p.read_text().splitlines()
            if ln.startswith("known:") and f"property={ident} " in ln]


def self_test() -> int:
    """Import every check and make a case of each; evaluates nothing of the code under test."""
    for p in sorted((VERIF / "kv" / "checks").glob("p*.py")):
        check = importlib.import_module(f"kv.checks.{p.stem}")
        for i in range(20):
            json.dumps(check.make(case_rng(1, check.ID, i), i))
    print("ready")
    return 0


def main(argv=None) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true",
                    help="import everything and evaluate a few cases of each check")
    ap.add_argument("--tier", choices=["quick", "thorough"],
                    default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--n", type=int)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    t0 = time.time()
    prepare()
    if a.self_test:
        return self_test()
    modname = f"kv.checks.{a.property.lower()}"
    check = importlib.import_module(modname)
    ident = check.ID

    if a.replay:
        payload = json.loads(Path(a.replay).read_text())
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, CASE_S)
        try:
            v = evaluate(check, payload["case"], Coverage())
        except Slow:
            v = Violation("endless") if getattr(check, "TERMINATES", False) else None
        if v is None:
            print(f"{ident}: replay holds")
            return 0
        print(f"VIOLATION property={ident} replay={a.replay}")
        print(f"  {v}")
        return 1

    violation = None
    cov = Coverage()
    corpus = load_corpus(ident)
    for path, payload in corpus:
        cov.evaluations += 1
        with contextlib.suppress(Skip):
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, CASE_S)
            try:
                v = evaluate(check, payload["case"], cov)
            except Slow:
                v = Violation("endless") if getattr(check, "TERMINATES", False) else None
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            if cov._nontrivial:
                cov.hashes.add(digest(payload["case"]))
            if v is not None:
                violation = {"case": payload["case"], "kind": v.kind, "message": str(v),
                             "number": ["corpus", path.name]}
                break

    n = a.n if a.n is not None else check.COUNTS[a.tier]
    results, errors, truncated = [], [], False
    if violation is None:
        ctx = mp.get_context("fork")
        stop = ctx.Event()
        end = time.time() + WALL_CAP[a.tier]
        jobs = []
        # a fixed number of shards, so that the cases are the same on any machine
        shards = a.procs
        for s in range(shards):
            rx, tx = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(modname, s, shards, n, a.seed, end, tx, stop))
            p.start()
            tx.close()
            jobs.append((p, rx))
        for p, rx in jobs:
            try:
                if rx.poll(max(1.0, end - time.time()) + 2 * CASE_S + SHRINK_S + 30):
                    results.append(rx.recv())
                else:
                    errors.append("a worker did not answer in time")
            except EOFError:
                errors.append("a worker died")
            p.join(5)
            if p.is_alive():
                p.kill()
        for r in results:
            if r.get("error"):
                errors.append(r["error"])
            truncated = truncated or bool(r.get("truncated"))
        found = [r["violation"] for r in results if r.get("violation")]
        if found:
            violation = min(found, key=lambda v: len(json.dumps(v["case"])))

    labels = dict(cov.labels)
    hashes = set(cov.hashes)
    samples = []
    evaluations, skipped, slow, systematic = cov.evaluations, 0, 0, 0
    for r in results:
        evaluations += r["evaluations"]
        skipped += r["skipped"]
        slow += r["slow"]
        systematic += r.get("systematic", 0)
        hashes.update(r["hashes"])
        samples += r["samples"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples.sort(key=lambda c: len(json.dumps(c)))
    samples = samples[:: max(1, len(samples) // 5)][:5] or [c["case"] for _, c in corpus[:2]]
    evidence = {
        "property": ident, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": check.RULE,
            "samples": samples, "enumerated": systematic, "replayed_corpus": len(corpus),
            "outside_domain": skipped, "inconclusive_slow": slow,
            "stopped_early": truncated and violation is None,
            "classes": dict(sorted(labels.items())),
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    tmp = d / f".{ident}.tmp"
    tmp.write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + "\n")
    tmp.replace(d / f"{ident}.json")

    if violation is not None:
        path = write_replay(ident, {**violation, "seed": a.seed})
        print(f"VIOLATION property={ident} replay={path}")
        print(f"  {violation['message'][:1500]}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    for ln in known_lines(ident):
        print("KNOWN-FINDING: " + ln.removeprefix("known:").strip())
    print(f"{ident}: held on {evaluations} cases, {len(hashes)} distinct non-trivial, "
          f"{evidence['wall_s']} s")
    return 0


def clone(case):
    return copy.deepcopy(case)
