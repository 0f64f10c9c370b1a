#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [--seed N]

Decides one property for the tree in /repo: the deductive part (contracts of the real
functions, every obligation by the solver) and, on the same contracts, concrete cases that
validate the models, replay counterexamples and stand in where the verifier cannot reach.
"""
import argparse
import collections
import json
import os
import random
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.setrecursionlimit(20000)

from pyver import cases, run                     # noqa: E402
sys.path.insert(0, run.REPO)
from pyver import prove, tasks, trust            # noqa: E402

KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def known(prop):
    """The findings recorded (not repaired): [(substring of what fails, text)]."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            if line.startswith("open: property=%s " % prop):
                m = line.split("match=", 1)[1].rstrip("\n").split(" :: ", 1)
                out.append((m[0], m[1]))
    return out


def write_replay(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    with open(path, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1, default=repr)
        f.write("\n")
    return path


class Concrete:
    """Executable contracts against the real code, on sampled inputs."""

    def __init__(self, prop):
        self.prop, self.n, self.labels, self.problems, self.samples = prop, 0, collections.Counter(), [], []
        self.nontrivial = set()
        self.error = None
        self.import_failure = None

    def go(self, seed, n, limit, chunk=400):
        end = time.time() + limit
        rng = random.Random("%s-%s" % (self.prop, seed))
        done = 0
        try:
            gen = cases.CASES[self.prop](rng, n)
            while time.time() < end:
                batch = []
                for c in gen:
                    batch.append(c)
                    if len(batch) >= chunk:
                        break
                if not batch:
                    break
                for case, rs in run.execute(batch, 300):
                    self.n += 1
                    self.labels[case.label] += 1
                    self.nontrivial.add(hash(json.dumps([j for j in case.jobs], sort_keys=True, default=repr)))
                    if len(self.samples) < 2 and self.n % 37 == 5:
                        self.samples.append(json.dumps(case.jobs, default=repr)[:1500])
                    self.problems += case.judge(rs)
                if len(self.problems) > 200:
                    break
        except run.ImportFailure as e:
            self.import_failure = str(e)
        except Exception:
            self.error = traceback.format_exc()[-2000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    t0 = time.time()
    thorough = tier == "thorough"
    conc = Concrete(prop)
    th = threading.Thread(target=conc.go, args=(seed, 8000 if thorough else 800, 400 if thorough else 150))
    th.start()
    ts = tasks.tasks()
    index = [i for i, t in enumerate(ts) if prop in t.props]
    res = prove.run_tasks(index, prop, seed, 600 if thorough else 330, 300 if thorough else 150, 8, thorough)
    th.join()

    obs, replays, undecided, errors = [], [], [], []
    for i, r in res:
        if "error" in r:
            errors.append("%s: %s" % (ts[i].name, r["error"]))
            undecided.append(dict(name=ts[i].name, status="undecided", detail=r["error"][-400:], precise=False))
            continue
        obs += r["obs"]
        replays += r["replays"]
    discharged = [o for o in obs if o["status"] == "discharged"]
    refuted = [o for o in obs if o["status"] == "refuted"]
    undecided += [o for o in obs if o["status"] == "undecided"]
    open_obs = undecided + refuted
    vac = [o for o in obs if o["name"].endswith("precondition-satisfiable")]

    # what the prover leaves open is decided by a longer search (bounded)
    boost = None
    if open_obs and not conc.problems and not replays and not conc.import_failure:
        boost = Concrete(prop)
        left = 820 - (time.time() - t0)
        boost.go(seed + 7919, 12000 if thorough else 5000, max(30, min(left - 60, 240)))
        if boost.error:
            conc.error = conc.error or boost.error
        conc.import_failure = conc.import_failure or boost.import_failure

    problems = list(conc.problems) + (boost.problems if boost else [])
    findings = known(prop)
    hits = collections.OrderedDict()
    fresh = []
    for p in problems:
        for m, text in findings:
            if m in p.what:
                hits[text] = hits.get(text, 0) + 1
                break
        else:
            fresh.append(p)
    for text in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    verdict, line = 0, None
    failed = [o for o in refuted] + [o for o in undecided]
    note = [dict(obligation=o["name"], status=o["status"], detail=o["detail"], model=o.get("model")) for o in failed[:12]]
    if conc.import_failure:
        path = write_replay(prop, dict(property=prop, what="the package cannot be imported", error=conc.import_failure,
                                       reproduce="PYTHONPATH=/repo /opt/venv/bin/python -c 'import pytiled_parser'"))
        verdict, line = 1, "VIOLATION property=%s replay=%s" % (prop, path)
    elif replays or fresh:
        if replays:
            r = replays[0]
            data = dict(property=prop, obligation=r["ob"], source="solver counterexample, replayed", what=r["what"],
                        job=r["job"], expected=r["expected"], actual=r["actual"])
        else:
            p = fresh[0]
            data = dict(property=prop, obligation=failed[0]["name"] if failed else None,
                        source="executable contract on a generated input", what=p.what, job=p.job, expected=p.expected,
                        actual=p.actual, more=[q.what for q in fresh[1:10]])
        data["failed_obligations"] = note
        data["reproduce"] = "cd /verif && python3-vt rerun.py replays/%s.json" % prop
        path = write_replay(prop, data)
        verdict, line = 1, "VIOLATION property=%s replay=%s" % (prop, path)
        print("what fails: %s" % data["what"][:600])
    elif conc.error:
        print("the check itself failed:\n" + conc.error)
        verdict = 2
    elif prop != "C18" and any(o["precise"] for o in refuted):
        bad = [o for o in refuted if o["precise"]]
        path = write_replay(prop, dict(property=prop, obligation=bad[0]["name"], source="refuted obligation",
                                       what="no concrete input found within the bounds of the search",
                                       failed_obligations=note))
        verdict, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)

    for o in failed[:20]:
        print("%s: %s %s" % (o["status"], o["name"], o["detail"][:300]))
    if failed and verdict == 0:
        print("bounded stand-in: %d obligation(s) are not proved; %d sampled cases found no violation" % (
            len(failed), conc.n + (boost.n if boost else 0)))
    if not vac and not errors and verdict == 0 and index:
        print("note: no precondition was shown to be satisfiable")
    bodies, contracts, rules = collections.Counter(), collections.Counter(), collections.Counter()
    solver_s = checks = 0
    for _, r in res:
        if "error" not in r:
            bodies.update(r["bodies"])
            contracts.update(r["contracts"])
            rules.update(r["rules"])
            solver_s += r["solver_s"]
            checks += r["checks"]
    smt = sum(1 for o in discharged if o["smt"])
    cov = dict(
        obligations=len(obs) + sum(1 for o in undecided if o not in obs), discharged=len(discharged),
        checker_cmd="cd /verif && python3-vt check.py %s --tier %s --seed %d" % (prop, tier, seed),
        trusted_base=trust.base(bodies, contracts, rules),
        discharged_by=dict(z3=smt, syntactic_or_ownership=len(discharged) - smt), refuted=len(refuted),
        undecided=len(undecided), solver_queries=checks, solver_seconds=round(solver_s, 2),
        tasks=[dict(task=ts[i].name, seconds=r.get("wall_s"), obligations=len(r.get("obs", [])),
                    error=r.get("error")) for i, r in res],
        functions_verified=sorted(bodies), contracts_used_at_calls=dict(contracts), loop_rules=dict(rules),
        preconditions_shown_satisfiable=sum(1 for o in vac if o["status"] == "discharged"),
        bounded_stand_ins=[dict(obligation=o["name"], status=o["status"], why=o["detail"][:200],
                                cases=conc.n + (boost.n if boost else 0)) for o in failed] + trust.standing(prop, conc.n),
        sampled_cases=dict(evaluations=conc.n + (boost.n if boost else 0), by_kind=dict(conc.labels),
                           distinct=len(conc.nontrivial), samples=conc.samples),
        known_findings_seen=list(hits))
    if thorough:
        p = subprocess.run(["python3-vt", "-m", "pyver.selftest", "--json"], cwd=HERE, capture_output=True, text=True)
        try:
            st = json.loads(p.stdout.splitlines()[-1])
            wrong = [n for n in st["notes"] if n[0] in ("UNSOUND", "CRASH")]
            cov["semantics_against_cpython"] = dict(programs=sum(st["count"].values()), outcome=st["count"], wrong=wrong)
            if wrong:
                print("the symbolic semantics disagrees with CPython: %s" % wrong[0][:2])
                verdict = verdict or 2
        except (ValueError, IndexError):
            cov["semantics_against_cpython"] = dict(error=(p.stderr or p.stdout)[-600:])
        cov["second_solver"] = {ts[i].name: r.get("cross") for i, r in res if r.get("cross")}
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=trust.assumptions(prop),
              wall_s=round(time.time() - t0, 2), violations=1 if verdict == 1 else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided; %d sampled cases; %.1f s" % (
        prop, cov["obligations"], len(discharged), len(refuted), len(undecided),
        conc.n + (boost.n if boost else 0), time.time() - t0))
    if line:
        print(line)
    sys.stdout.flush()
    os._exit(verdict)


if __name__ == "__main__":
    main()
