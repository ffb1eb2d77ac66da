"""Runs the contracts of one property and decides the verdict."""
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CONTEXT = {}


def setup():
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")
    from . import loader
    f = loader.install(os.path.join(REPO, "toughio"))
    return f


def _imports(symbolic):
    """(module, error)"""
    try:
        T = importlib.import_module("toughio")
        if not T.__file__.startswith(REPO + "/"):
            raise ImportError("toughio imported from %s" % T.__file__)
        for m in ("toughio._io.input.tough._helpers",):
            importlib.import_module(m)
        if symbolic:
            return importlib.import_module("toughio_vc")
        return T
    except Exception:
        raise


class Mods:
    """Dotted access to the package under verification: M('_io.input.tough._helpers')."""

    def __init__(self, pkg):
        self.pkg = pkg
        self.root = importlib.import_module(pkg)

    def __call__(self, dotted):
        return importlib.import_module(self.pkg + "." + dotted)

    def __getattr__(self, n):
        return getattr(self.root, n)


def run_symbolic(c, tier):
    """Explore the contract symbolically; returns a result dict."""
    from . import core, domain, hooks
    t0 = time.time()
    scale = 6.0 if tier == "thorough" else 1.0
    e = core.Engine(budget_s=c.budget * scale, max_paths=c.max_paths * (4 if scale > 1 else 1),
                    prove_timeout_ms=int(c.prove_ms * (3 if scale > 1 else 1)))
    e.objarrays = c.objarrays
    status = "complete"
    note = ""
    M = Mods("toughio_vc")
    todo = [[]]
    ends = 0
    raised = []
    core.set_engine(e)
    try:
        while todo:
            prefix = todo.pop()
            e.reset_path(prefix)
            e.objarrays = c.objarrays
            D = domain.SymD(e, M, hooks.np)
            try:
                e.tick()
                c.fn(D)
                ends += 1
                e.stats["paths"] += 1
            except core.PathCut:
                e.stats["infeasible"] += 1
            except core.StopRun:
                status = "failed"
                break
            except core.Budget as ex:
                status = "undischarged"
                note = "budget: %s" % ex
                break
            except (core.Unsupported, core.NeedFork) as ex:
                status = "undischarged"
                note = "unsupported: %s" % ex
                if os.environ.get("PYVC_DEBUG"):
                    traceback.print_exc()
                break
            except (Exception, RecursionError) as ex:
                # the code under contract (or the engine) raised: a failed obligation whose
                # input is the path's model; only a replay makes it a violation
                tb = traceback.format_exc()
                if os.environ.get("PYVC_DEBUG"):
                    print(tb)
                m = e.model_now()
                if m is None:
                    e.undischarged.append(("no-exception", "exception on a path of unknown feasibility"))
                else:
                    rec = e.ob("no-exception")
                    rec[0] += 1
                    rec[2] += 1
                    e.stats["vcs"] += 1
                    f = core.Failure("no-exception", "exc", e.extract(m), "%r\n%s" % (ex, tb[-1500:]), False)
                    e.failures.append(f)
                    raised.append(f)
                if len(e.failures) >= e.stop_after:
                    status = "failed"
                    break
            finally:
                D.cleanup()
            fr = e.frames[0]
            todo.extend(reversed(fr.pending))
            if e.stats["paths"] + e.stats["infeasible"] > e.max_paths:
                status = "undischarged"
                note = "path budget (%d paths)" % e.max_paths
                break
    except BaseException as ex:  # engine trouble never decides
        status = "undischarged"
        note = "engine: %r" % (ex,)
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
    finally:
        core.set_engine(None)
    if e.failures and status == "complete":
        status = "failed"
    if status == "complete" and (e.undischarged or not ends or not e.obligations):
        status = "undischarged"
        note = note or ("solver: %s" % "; ".join(sorted({"%s (%s)" % u for u in e.undischarged})[:4])
                        if e.undischarged else "vacuous: no path reached an obligation")
    if status == "failed" and not e.obligations:
        status = "undischarged"
    fails = []
    for f in e.failures:
        exact = f.exact and not e.powtab and not e.rt_used
        fails.append(dict(name=f.name, kind=f.kind, inputs={k: _plain(v) for k, v in f.inputs.items()},
                          detail=f.detail, exact=bool(exact)))
    return dict(contract=c.name, status=status, note=note, stats=e.stats, obligations=e.obligations,
                failures=fails, called=sorted("%s.%s" % (m.replace("toughio_vc", "toughio"), q)
                                              for m, q in e.called), paths=ends, wall=time.time() - t0,
                undischarged=e.undischarged[:20], backends=dict(e.backends))


def _plain(v):
    from fractions import Fraction
    if isinstance(v, Fraction):
        try:
            return float(v)
        except OverflowError:
            return None
    return v


class NotTerminating(Exception):
    pass


def _alarm(*_):
    raise NotTerminating("no result after %d s" % RUN_LIMIT)


RUN_LIMIT = 45


def run_concrete(c, values=None, rng=None, shape=False):
    """One run on the uninstrumented package: (outcome, failed obligations, inputs used).

    shape: the inputs are built the way the proof builds them (for contracts that draw their samples otherwise).
    """
    import signal
    from . import domain
    D = domain.ConcD(Mods("toughio"), values, rng)
    D.symbolic = shape
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(RUN_LIMIT)
        c.fn(D)
        signal.alarm(0)
    except domain.Skip:
        return "skip", [], D.used
    except Exception as ex:
        return "fail", [("no-exception", "%r\n%s" % (ex, traceback.format_exc()[-1500:]))], D.used
    finally:
        signal.alarm(0)
        D.cleanup()
    return ("fail" if D.failed else "ok"), D.failed, D.used


def sample(c, n, seed, seconds, stop_at=6):
    rng = random.Random("%s/%s" % (c.name, seed))
    t0 = time.time()
    done = skipped = 0
    fails = []
    seen = set()
    ex = None
    while done < n and time.time() - t0 < seconds and skipped < 50 * n + 500:
        out, failed, used = run_concrete(c, None, rng)
        if out == "skip":
            skipped += 1
            continue
        done += 1
        seen.add(hash(str(used)))
        if ex is None:
            ex = used
        if out == "fail":
            fails.append((failed, used))
            if len(fails) >= stop_at:
                break
    return dict(contract=c.name, n=done, skipped=skipped, failures=fails, example=ex, seen=seen)


def _task(args):
    kind, prop, idx, extra = args
    from . import domain
    c = domain.REGISTRY[prop][idx]
    try:
        if kind == "sym":
            return kind, idx, run_symbolic(c, extra)
        n, seed, seconds = extra
        return kind, idx, sample(c, n, seed, seconds)
    except BaseException as ex:
        return kind, idx, dict(error="%r\n%s" % (ex, traceback.format_exc()[-1500:]))


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> contract=<name> obligation=<prefix> | description
                head, _, desc = line[len("finding:"):].partition("|")
                kv = dict(x.split("=", 1) for x in head.split())
                kv["desc"] = desc.strip()
                out.append(kv)
    return out


def _sameval(a, b):
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return str(a) == b


def is_known(known, prop, contract, failed, used):
    """The listed finding this failure is: same contract, obligation, error and input."""
    for k in known:
        if k.get("property") != prop or k.get("contract") != contract:
            continue
        if not all(n.startswith(k.get("obligation", "").replace("_", " ")) or n.startswith(k.get("obligation", ""))
                   for n, _ in failed):
            continue
        if "error" in k and not all(k["error"] in str(d) for _, d in failed):
            continue
        if all(_sameval(used.get(n[6:]), v) for n, v in k.items() if n.startswith("input.")):
            return k
    return None


def pool_map(tasks, nproc, wall):
    """Run tasks in forked workers with a per-run wall limit; lost tasks are reported as lost."""
    results = []
    ctx = mp.get_context("fork")
    pending = list(tasks)
    running = []
    t0 = time.time()
    while pending or running:
        while pending and len(running) < nproc:
            t = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, t))
            p.daemon = True
            p.start()
            w.close()
            running.append((p, r, t, time.time()))
        time.sleep(0.01)
        for item in list(running):
            p, r, t, ts = item
            lim = t[4] if len(t) > 4 else wall
            done = False
            try:
                if r.poll():
                    results.append(r.recv())
                    done = True
                elif not p.is_alive():
                    if r.poll():
                        results.append(r.recv())
                    else:
                        results.append((t[0], t[2], dict(error="worker died")))
                    done = True
                elif time.time() - ts > lim or time.time() - t0 > wall:
                    p.kill()
                    results.append((t[0], t[2], dict(error="worker exceeded its time limit")))
                    done = True
            except (EOFError, OSError):
                results.append((t[0], t[2], dict(error="worker died")))
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                r.close()
                running.remove(item)
    return results


def _child(w, t):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    except Exception:
        pass
    # output of the code under test is not part of the check's report
    if not os.environ.get("PYVC_DEBUG"):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
    w.send(_task(t[:4]))
    w.close()


def main(prop, tier, seed, evidence_dir, only=None):
    t0 = time.time()
    finder = setup()
    from . import domain
    err = None
    try:
        _imports(False)
        from toughio import _cli  # noqa: F401
    except BaseException:
        err = traceback.format_exc()
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(evidence_dir, exist_ok=True)
    rp = os.path.join(replay_dir, "%s.json" % prop)
    if err is not None:
        json.dump(dict(property=prop, obligation="package imports", output=err), open(rp, "w"), indent=1)
        write_evidence(prop, tier, seed, evidence_dir, [], {}, {}, time.time() - t0, 1, note="import failed")
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    try:
        _imports(True)
        symok = True
    except BaseException:
        symok = False
        print("note: instrumented package does not load; bounded checks only\n" + traceback.format_exc()[-800:])
    importlib.import_module("props.%s" % prop)
    cs = domain.REGISTRY[prop]
    idxs = [i for i, c in enumerate(cs) if not only or c.name in only]
    nproc = min(8, os.cpu_count() or 4)
    thorough = tier == "thorough"
    tasks = []
    for i in idxs:
        c = cs[i]
        if c.symbolic and symok:
            lim = c.budget * (6 if thorough else 1) + 45
            tasks.append(("sym", prop, i, tier, lim))
        n = c.samples if (c.symbolic and symok) else c.fallback
        n *= 10 if thorough else 1
        tasks.append(("con", prop, i, (n, seed, c.sample_s * (6 if thorough else 1)), c.sample_s * (6 if thorough else 1) + 60))
    tasks.sort(key=lambda t: -t[4])  # the long ones first
    wall = 3000 if thorough else 600
    res = pool_map(tasks, nproc, wall)
    sym = {i: r for k, i, r in res if k == "sym"}
    con = {i: [r] for k, i, r in res if k == "con"}
    # bounded stand-in: more samples where the proof is not complete
    more = []
    for i in idxs:
        r = sym.get(i)
        c = cs[i]
        if c.symbolic and symok and (r is None or r.get("status") != "complete"):
            k = 2
            for j in range(k):
                more.append(("con", prop, i, (c.fallback // k * (10 if thorough else 1), "%s/fb%d" % (seed, j),
                                              c.sample_s * (6 if thorough else 1)), c.sample_s * (6 if thorough else 1) + 60))
    left = max(60, wall - (time.time() - t0))
    for k, i, r in pool_map(more, nproc, left):
        con[i].append(r)
    known = load_known()
    violations, knowns, notes = [], {}, []
    for i in idxs:
        c = cs[i]
        r = sym.get(i)
        got = False
        # 1. counterexamples of the verifier, replayed on the uninstrumented code
        for f in (r or {}).get("failures", []):
            out, failed, used = _guarded(prop, i, f["inputs"])
            if out != "fail" and f["kind"] == "post":
                # the contract may build its samples in another way: the inputs of the proof, as numbers
                out, failed, used = _guarded(prop, i, f["inputs"], True)
                if f["name"] not in [n for n, _ in failed]:
                    out = "ok"
            if out == "fail":
                k = is_known(known, prop, c.name, failed, used)
                if k:
                    knowns[k["desc"]] = 1
                    continue
                violations.append(dict(contract=c.name, obligation=f["name"], detail=f["detail"],
                                       failed=failed, inputs=used, source="verifier counterexample, replayed"))
                got = True
                break
        if got:
            continue
        # 2. bounded stand-in
        for s in con.get(i, []):
            for failed, used in s.get("failures", []):
                k = is_known(known, prop, c.name, failed, used)
                if k:
                    knowns[k["desc"]] = 1
                    continue
                violations.append(dict(contract=c.name, obligation=failed[0][0], detail=failed[0][1],
                                       failed=failed, inputs=used, source="bounded stand-in"))
                got = True
                break
            if got:
                break
        if got:
            continue
        # 3. refuted exactly, input not confirmed
        for f in (r or {}).get("failures", []):
            if f["exact"] and f["kind"] == "post":
                k = is_known(known, prop, c.name, [(f["name"], "")], f["inputs"])
                if k:
                    knowns[k["desc"]] = 1
                    continue
                violations.append(dict(contract=c.name, obligation=f["name"], detail=f["detail"], failed=[],
                                       inputs=f["inputs"], source="refuted obligation", unconfirmed=True))
                break
    write_evidence(prop, tier, seed, evidence_dir, [(cs[i], sym.get(i)) for i in idxs], con, finder.loaded,
                   time.time() - t0, len(violations), idxs=idxs)
    for d in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for i in idxs:
        r = sym.get(i) or {}
        c = cs[i]
        smp = sum(s.get("n", 0) for s in con.get(i, []))
        print("%s %-34s %-13s paths=%-4s vcs=%-5s discharged=%-5s samples=%-4d %.1fs %s" % (
            prop, c.name, r.get("status", r.get("error", "bounded"))[:60].replace("\n", " "), r.get("paths", 0),
            r.get("stats", {}).get("vcs", 0), r.get("stats", {}).get("discharged", 0), smp,
            r.get("wall", 0.0), (r.get("note") or "")[:150]))
    for s in con.values():
        for x in s:
            if "error" in x:
                print("note: sampling: %s" % x["error"][:300])
    if violations:
        json.dump(dict(property=prop, repo=REPO, violations=violations), open(rp, "w"), indent=1, default=str)
        for v in violations:
            print("  failed obligation %s.%s: %s" % (v["contract"], v["obligation"], str(v["detail"])[:300]))
            print("  inputs: %s" % str(v["inputs"])[:400])
        conf = [v for v in violations if not v.get("unconfirmed")]
        tail = "" if conf else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    print("%s held (%.1fs)" % (prop, time.time() - t0))
    return 0


def _guarded(prop, idx, values, shape=False):
    """Replay in a child so that a crash or hang of the code cannot take the check down."""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)

    def go():
        from . import domain
        if not os.environ.get("PYVC_DEBUG"):
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
        try:
            out = run_concrete(domain.REGISTRY[prop][idx], values, None, shape)
        except BaseException as ex:
            out = ("error", [("error", repr(ex))], {})
        w.send(out)
    p = ctx.Process(target=go)
    p.start()
    w.close()
    out = ("error", [], {})
    try:
        if r.poll(60):
            out = r.recv()
    except (EOFError, OSError):
        pass
    p.join(2)
    if p.is_alive():
        p.kill()
    return out


def write_evidence(prop, tier, seed, d, pairs, con, loaded, wall, nviol, idxs=(), note=""):
    obl = dis = bobl = bdis = 0
    vcs = vdis = bvcs = 0
    calls, secs = 0, 0.0
    funcs, funcs_b, funcs_s = set(), set(), set()
    per = []
    backends = {"z3 (default)": 0}
    evals = 0
    level = LEVELS.get(prop, "proof")
    und = []
    for n, (c, r) in enumerate(pairs):
        i = idxs[n]
        smp = sum(s.get("n", 0) for s in con.get(i, []))
        evals += smp
        st = (r or {}).get("status", "bounded")
        if r and "stats" in r:
            s = r["stats"]
            n_obl = len(r["obligations"])
            n_dis = sum(1 for o in r["obligations"].values() if o[0] == o[1])
            if st == "complete" and c.bounded:
                # all values, collections of the stated sizes: never counted as proved
                bobl += n_obl
                bdis += n_dis
                bvcs += s["vcs"]
            elif st == "complete":
                obl += n_obl
                dis += n_dis
                vcs += s["vcs"]
                vdis += s["discharged"]
            elif st == "failed" and c.bounded:
                bobl += n_obl
                bdis += n_dis
            elif st == "failed":
                obl += n_obl
                dis += n_dis
            calls += s["solver_calls"]
            secs += s["solver_s"]
            for b, k in r.get("backends", {}).items():
                backends[b] = backends.get(b, 0) + k
            if st == "complete" and c.bounded:
                funcs_b |= set(r["called"]) | set(c.functions)
            elif st == "complete":
                funcs |= set(r["called"]) | set(c.functions)
            else:
                funcs_s |= set(c.functions)
            per.append(dict(contract=c.name, status=st, bound=c.bounded or "none", note=r["note"], paths=r["paths"],
                            obligations=len(r["obligations"]),
                            vcs=s["vcs"], vcs_discharged=s["discharged"],
                            syntactic=s["syntactic"], solver_s=round(s["solver_s"], 2), bounded_samples=smp))
        else:
            funcs_s |= set(c.functions)
            per.append(dict(contract=c.name, status="bounded stand-in", note=(r or {}).get("error", ""),
                            bounded_samples=smp))
        if st != "complete":
            und.append("%s: %s" % (c.name, (r or {}).get("note") or (r or {}).get("error") or "bounded stand-in only"))
    backends["z3 (default)"] = calls - sum(v for k, v in backends.items() if k != "z3 (default)")
    ex = []
    distinct = {(i, h) for i, v in con.items() for s in v for h in s.get("seen", ())}
    for v in con.values():
        for s in v:
            if s.get("example") is not None and len(ex) < 3:
                ex.append(json.loads(json.dumps(s["example"], default=str)))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=nviol,
              coverage=dict(
                  obligations=obl, discharged=dis, verification_conditions=vcs, vcs_discharged=vdis,
                  checker_cmd="/verif/check.py %s --tier %s" % (prop, tier),
                  trusted_base=TRUSTED,
                  functions_proved=sorted(funcs), functions_proved_for_stated_sizes=sorted(funcs_b - funcs),
                  functions_sampled_only=sorted(funcs_s - funcs_b - funcs),
                  bounded_size_obligations=bobl, bounded_size_discharged=bdis, bounded_size_vcs=bvcs,
                  contracts=per, undischarged_contracts=und,
                  backends=backends, solver_calls=calls, solver_s=round(secs, 2),
                  evaluations=evals, distinct_nontrivial=len(distinct),
                  rule="bounded stand-ins and cross-checks: random inputs inside the precondition (skipped ones "
                       "not counted), run on the uninstrumented code against the same contract; distinct by contract "
                       "and drawn values",
                  samples=ex,
                  explanation="obligations/discharged: named postconditions of contracts without any bound, each "
                              "discharged on every path of the instrumented source. bounded_size_*: postconditions "
                              "discharged for all values but only for collections of the sizes stated with the "
                              "contract; never counted as proved. Contracts listed as undischarged are covered by "
                              "bounded samples only and count for neither. " + note,
                  source_files_verified={k.replace(REPO, "/repo"): v[:16] for k, v in sorted(loaded.items())}),
              assumptions=ASSUMPTIONS)
    with open(os.path.join(d, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)


def _levels():
    p = os.path.join(VERIF, "tools", "levels.json")
    return {k: v["level"] for k, v in json.load(open(p)).items()} if os.path.exists(p) else {}


LEVELS = _levels()

TRUSTED = [
    "z3 5.x (Python binding), cvc5 1.1.2 for goals z3 does not decide",
    "pyvc: AST instrumentation (pyvc/loader.py), symbolic values and facades (pyvc/core.py, text.py, hooks.py, reals.py)",
    "CPython 3.12 executing the instrumented source",
]

ASSUMPTIONS = [
    "floats are mathematical reals (no rounding, overflow or NaN); decimal literals denote their decimal value",
    "float(format(x,'.pe')) is within half a unit of the last printed digit and keeps sign and zero",
    "pow/exp/log/sqrt are known through sign, bound, monotonicity and exponent-law axioms instantiated per path",
    "contracts marked 'bound' hold for collections of at most that size; values are unbounded",
    "external libraries (numpy data movement, meshio, file system) behave as documented",
]
