"""Runs verification tasks in processes of their own and summarises what became of them."""
import collections
import multiprocessing
import os
import random
import resource
import sys
import time
import traceback

from .run import REPO


def result_of(task, prop, seed, deadline, cross):
    from . import cases, prove, replay, run, tasks
    t0 = time.time()
    ip, obs = task.run(deadline=deadline)
    out = dict(task=task.name, obs=[], replays=[], bodies={}, contracts={}, rules={}, solver_s=0.0, checks=0, cross=None)
    mine = [o for o in obs if prop in o.tags]
    refuted = [o for o in mine if o.status == "refuted"]
    if ip is not None:
        out["bodies"] = {k.replace("pytiled_parser.", "", 1): v for k, v in ip.used.items()}
        out["contracts"], out["rules"] = dict(ip.uses), dict(ip.loops.rules)
        out["solver_s"], out["checks"] = round(ip.solver.stats["time"], 3), ip.solver.stats["checks"]
    for o in mine:
        # a model of formulas about more than the document (unknown intermediate values) proves nothing
        o.precise = o.status == "refuted" and bool(o.formulas) and replay.precise(o.formulas)
        out["obs"].append(dict(name=o.name, status=o.status, detail=o.detail[:600], precise=o.precise,
                               smt=o.detail == "smt", model=str(o.model)[:4000] if o.model is not None else None))
    if ip is not None and getattr(task, "whole_map", False):
        names = set()
        rng = random.Random("replay-%s-%s" % (task.name, seed))
        for o in refuted:
            if o.name in names or len(names) >= 8 or time.time() - t0 > 150:
                continue
            names.add(o.name)
            try:
                p = cases.replay_problem(prop, replay.documents(ip, o, rng, 12))
            except run.ImportFailure:
                raise
            except Exception as e:
                out.setdefault("replay_errors", []).append("%s: %s" % (o.name, repr(e)[:300]))
                continue
            if p is not None:
                out["replays"].append(dict(ob=o.name, what=p.what, job=p.job, expected=p.expected, actual=p.actual))
                break
    if ip is not None and getattr(task, "replay", None) is not None:
        for o in refuted:
            if len(out["replays"]) or time.time() - t0 > 150:
                break
            try:
                for case, rs in run.execute(list(task.replay(ip, o)), 60, 1):
                    for p in case.judge(rs):
                        out["replays"].append(dict(ob=o.name, what=p.what, job=p.job, expected=p.expected, actual=p.actual))
                        break
            except run.ImportFailure:
                raise
            except Exception as e:
                out.setdefault("replay_errors", []).append("%s: %s" % (o.name, repr(e)[:300]))
    if cross and ip is not None:
        out["cross"] = cross_check(ip, [o for o in mine if o.status == "discharged" and o.formulas], deadline)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def cross_check(ip, obs, deadline):
    """The same obligations by the second solver (cvc5)."""
    import cvc5
    import z3
    from . import sym
    res = collections.Counter()
    bad = []
    for o in obs:
        if time.time() > deadline:
            res["skipped"] += 1
            continue
        fs = [f for f in o.formulas if f is not True]
        if any(f is False for f in fs):
            res["trivial"] += 1
            continue
        s = z3.Solver()
        for f in sym.axioms() + fs + ip.relevant(fs):
            s.add(f)
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            sl = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
            sl.setOption("tlimit-per", "10000")
            p = cvc5.InputParser(sl)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + s.to_smt2(), "ob")
            sm = p.getSymbolManager()
            ans = "unknown"
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                r = c.invoke(sl, sm).strip()
                if r in ("sat", "unsat", "unknown"):
                    ans = r
                elif "timeout" in r:
                    ans = "unknown"
        except Exception as e:
            ans = "error"
            bad.append("%s: %s" % (o.name, repr(e)[:200]))
        res[ans] += 1
        if ans == "sat":
            bad.append(o.name)
    return dict(res, disagree=bad[:10])


def child(conn, index, prop, seed, deadline, cross):
    try:
        sys.setrecursionlimit(20000)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        from . import tasks
        conn.send(result_of(tasks.tasks()[index], prop, seed, deadline, cross))
    except BaseException as e:
        try:
            conn.send(dict(error="%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_tasks(indices, prop, seed, limit, per_task, procs=8, cross=False):
    """[(index, result dict)]; a task that does not answer is reported as an error."""
    ctx = multiprocessing.get_context("spawn")
    todo, live, out = list(indices), [], {}
    end = time.time() + limit
    while todo or live:
        while todo and len(live) < procs and time.time() < end:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, i, prop, seed, min(time.time() + per_task, end), cross), daemon=True)
            p.start()
            b.close()
            live.append((i, p, a, time.time()))
        for item in list(live):
            i, p, a, t0 = item
            if a.poll(0):
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = dict(error="the prover process ended")
            elif not p.is_alive():
                out[i] = dict(error="the prover process ended (exit %s)" % p.exitcode)
            elif time.time() > end or time.time() - t0 > per_task * 2 + 200:
                out[i] = dict(error="time limit of the prover")
            else:
                continue
            p.kill()
            p.join()
            live.remove(item)
        if time.time() > end and todo:
            for i in todo:
                out[i] = dict(error="time limit of the prover")
            todo = []
        time.sleep(0.02)
    return [(i, out[i]) for i in indices]
