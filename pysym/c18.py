#!/usr/bin/env python3-vt
"""C18: the probabilistic analysis of an exported graph (performance/markov_chain.py), executed symbolically."""
import builtins
import importlib.util
import io
import itertools
import contextlib
import json
import multiprocessing
import os
import sys
import time
import warnings
from types import SimpleNamespace as NS

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sym
from sym import check, same, le, real, assume

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "performance/markov_chain.py")
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"


class Map(dict):
    """A protobuf map of messages: looking up a missing key inserts the default."""

    def __init__(self, make, *a):
        super().__init__(*a)
        self.make = make

    def __missing__(self, k):
        self[k] = self.make()
        return self[k]


def counter(v=0.0):
    return NS(numeric=v)


def config(p=0.0, **counters):
    return NS(probability=p, counters=Map(counter, {k: counter(v) for k, v in counters.items()}))


def links_of(rows):
    """The exported adjacency list of rows of (dest, labels)."""
    out = []
    for src, row in enumerate(rows):
        for dest, labels in row:
            out.append(NS(src=src, dest=dest, name="", labels=list(labels), weight=1.0 / len(row)))
    return NS(total_nodes=len(rows), links=out)


def the_model(kind):
    """Models of the labels a and b; x is never declared."""
    if kind == "none":
        return NS(configs=Map(config)), {}, {}
    pa, pb = real("pa", 0, 1), real("pb", 0, 1)
    if kind == "plain":
        return NS(configs=Map(config, {"a": config(pa), "b": config(pb)})), {"a": pa, "b": pb}, {}
    ca, cb, db = real("ca", 0, 100), real("cb", 0, 100), real("db", 0, 100)
    return (NS(configs=Map(config, {"a": config(pa, c=ca), "b": config(pb, c=cb, d=db)})),
            {"a": pa, "b": pb}, {"a": {"c": ca}, "b": {"c": cb, "d": db}})


def meaning(rows, probs, costs):
    """The probability of every link and the cost it adds to every counter."""
    out = []
    for row in rows:
        decl = [sum((probs.get(l, 0) for l in labels), 0) for _, labels in row]
        total = sum(decl, 0)
        free = sum(1 for _, labels in row if not labels)
        # the declared probabilities of a state are those of a distribution, or leave the rest to links without labels
        if sym.native is None and isinstance(total, sym.Num) and not isinstance(total.v, sym.Fraction):
            t = total._t()
            assume(sym.z3.Or(t == 0, t < 1 if free else t == 1, t == 1))
        elif total != 0 and not free and total != 1:
            assume(False)
        ps = []
        for (dest, labels), d in zip(row, decl):
            if total == 0:
                p = sym.ratio(1, len(row))
            elif labels:
                p = d
            else:
                p = (1 - total) / free
            c = {}
            for l in labels:
                for k, v in costs.get(l, {}).items():
                    c[k] = c.get(k, 0) + v
            ps.append((dest, p, c))
        out.append(ps)
    return out


def step(dist, mean):
    """One step of a distribution."""
    n = len(mean)
    new = [0] * n
    for i, row in enumerate(mean):
        for dest, p, _ in row:
            new[dest] = new[dest] + dist[i] * p
    return new


def cost(dist, mean, k):
    s = 0
    for i, row in enumerate(mean):
        for _, p, c in row:
            if k in c:
                s = s + dist[i] * p * c[k]
    return s


def counters(kind):
    return ["c", "d"] if kind == "costs" else []


def crash(f):
    try:
        return f()
    except (sym.Unsupported, sym.Infeasible, sym.Failed):
        raise
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        check(False, "the analysis fails with " + type(e).__name__)


def array(m, v):
    return m.np.array(v)


def a_distribution(m, n):
    """Any distribution over the states."""
    vs = [real("d%d" % i, 0, 1) for i in range(n - 1)]
    vs.append(1 - sum(vs))
    if sym.native is None:
        assume(vs[-1]._t() >= 0)
    return vs, array(m, vs)


def on_two(m, n):
    """Any distribution over the first two states."""
    d = real("d0", 0, 1)
    vs = [d, 1 - d] + [0] * (n - 2)
    return vs, array(m, vs)


def check_matrix(mat, want, what="matrix"):
    n = len(want)
    for i in range(n):
        tot = 0
        for j in range(n):
            w = 0
            for dest, p, _ in want[i]:
                if dest == j:
                    w = w + p
            check(same(mat[i, j], w), "a probability of a step is not the declared one")
            check(le(0, mat[i, j]), "a probability is negative")
            tot = tot + mat[i, j]
        check(same(tot, 1), "the probabilities of a state's steps do not sum to one")


def h_step(m, cfg):
    """Any graph of two states: its matrix, and one step from any distribution."""
    rows, kind, dense = cfg
    model, probs, costs = the_model(kind)
    want = meaning(rows, probs, costs)
    links = links_of(rows)
    if dense:
        mat = crash(lambda: m.create_transition_matrix(links, model))
        check_matrix(mat, want)
        return
    mat = crash(lambda: m.create_transition_matrix_sparse(links, model))
    check_matrix(mat, want)
    cm = crash(lambda: m.create_cost_matrices_sparse(links, model))
    check(sorted(cm) == counters(kind), "a counter is not reported")
    vs, d = a_distribution(m, len(rows))
    dist, metrics = crash(lambda: m.analyze_sparse(mat, cm, d, num_iterations=1, tolerance=0))
    exp = step(vs, want)
    for j in range(len(rows)):
        check(same(dist[j], exp[j]), "a step leads to another distribution")
    check(sorted(metrics.mean) == counters(kind), "a counter is not reported")
    for k in counters(kind):
        check(same(metrics.mean[k], cost(vs, want, k)), "the mean of a counter is not the expected one")


LAB = [(), ("a",), ("b",), ("a", "b"), ("x",), ("x", "a")]


def step_cfgs():
    links = [(d, l) for d in (0, 1) for l in LAB]
    second = [[(1, ())], [(0, ("a",)), (1, ())]]
    first = [[l] for l in links] + [list(p) for p in itertools.product(links, repeat=2)]
    small = [(d, l) for d in (0, 1) for l in LAB[:3 if not THOROUGH else 6]]
    first += [list(p) for p in itertools.combinations_with_replacement(small, 3)]
    for i, f in enumerate(first):
        yield [f, second[i % 2]], "costs", False
        if THOROUGH or i % 4 == 0:
            yield [f, second[1 - i % 2]], "plain", False
            yield [f, second[i % 2]], "none", False
        if THOROUGH or i % 3 == 0:
            yield [f, second[1 - i % 2]], "plain", True


GRAPHS = [
    # 0 -> 1 by a, 0 -> 2 by b; both final
    [[(1, ("a",)), (2, ("b",))], [(1, ())], [(2, ())]],
    # retry until done
    [[(0, ("a",)), (1, ("b",))], [(1, ())]],
    # idle, prepared, done
    [[(1, ())], [(0, ("a",)), (2, ("b",))], [(2, ())]],
    # a cycle with no end
    [[(1, ("a",)), (0, ("b",))], [(0, ()), (1, ())]],
    # labels on several steps, and parallel links
    [[(1, ("a",)), (1, ("b",))], [(2, ("b",)), (0, ())], [(2, ())]],
    # a choice left to the rest
    [[(1, ("a",)), (2, ()), (0, ())], [(2, ("b",)), (2, ())], [(2, ())]],
    # swap
    [[(1, ())], [(0, ())]],
]


def h_run(m, cfg):
    """Several steps from the initial state: distribution, means and histogram of the costs."""
    rows, kind, k = cfg
    model, probs, costs = the_model(kind)
    want = meaning(rows, probs, costs)
    links = links_of(rows)
    n = len(rows)
    mat = crash(lambda: m.create_transition_matrix_sparse(links, model))
    cm = crash(lambda: m.create_cost_matrices_sparse(links, model))
    init = crash(lambda: m.initial_distribution_from_init_state(n))
    for i in range(n):
        check(same(init[i], 1 if i == 0 else 0), "the analysis starts elsewhere than in the initial state")
    dist, metrics = crash(lambda: m.analyze_sparse(mat, cm, init, num_iterations=k, tolerance=0))
    d = [1] + [0] * (n - 1)
    means = {c: 0 for c in counters(kind)}
    final = [i for i in range(n) if absorbing(want, i)]
    # the cost until a step of the runs that have not ended before it
    going, spent = d, {c: 0 for c in means}
    ended, hist = 0, []
    for i in range(k):
        for c in means:
            means[c] = means[c] + cost(d, want, c)
            spent[c] = spent[c] + cost(going, want, c) if going is not None else None
        d = step(d, want)
        now = 0
        for j in final:
            now = now + d[j]
        if going is not None:
            going = [0 if j in final else x for j, x in enumerate(step(going, want))]
            left = sum(going, 0)
            going = [x / left for x in going] if left > 0 else None
        if now > ended:
            hist.append((now, dict(spent)))
        ended = now
    tot = 0
    for j in range(n):
        check(same(dist[j], d[j]), "the distribution after some steps is another one")
        check(le(0, dist[j]), "a probability is negative")
        tot = tot + dist[j]
    check(same(tot, 1), "the reported probabilities do not sum to one")
    for c in means:
        check(same(metrics.mean[c], means[c]), "the mean of a counter is not the expected one")
    if sym.native is not None:  # rounding may add entries of no weight
        rise = lambda h: [e for i, e in enumerate(h) if e[0] > (h[i - 1][0] if i else 0) + 1e-9]
        metrics.histogram, hist = rise(metrics.histogram), rise(hist)
    check(len(metrics.histogram) == len(hist), "an entry of the histogram is lost or added")
    for (p, costs_), (w, cw) in zip(metrics.histogram, hist):
        check(same(p, w), "an entry of the histogram has another probability")
        check(sorted(costs_) == counters(kind), "a counter is not reported in the histogram")
        for c in cw:
            check(cw[c] is None or same(costs_[c], cw[c]), "an entry of the histogram has other costs")


def absorbing(want, i):
    p = 0
    for dest, q, _ in want[i]:
        if dest == i:
            p = p + q
    return p == 1 if sym.native is None else abs(p - 1) < 1e-12


def run_cfgs():
    for g in GRAPHS:
        for kind in ("costs", "plain"):
            for k in ((2, 3) if not THOROUGH else (1, 2, 3, 4)):
                # three steps of these need polynomials the solver does not decide in time
                if k > 2 and not THOROUGH and g in (GRAPHS[1], GRAPHS[3]):
                    continue
                yield g, kind, k


def h_terminal(m, cfg):
    """States made terminal: absorbing, the others as they were, the matrix given unchanged."""
    rows, ends, dense = cfg
    model, probs, costs = the_model("plain")
    want = meaning(rows, probs, costs)
    links = links_of(rows)
    n = len(rows)
    if dense:
        mat = crash(lambda: m.create_transition_matrix(links, model))
        new = crash(lambda: m.make_terminal_nodes(mat, ends))
    else:
        mat = crash(lambda: m.create_transition_matrix_sparse(links, model))
        new = crash(lambda: m.make_terminal_nodes_sparse(mat, ends))
    check_matrix(mat, want)
    check_matrix(new, [[(i, 1, {})] if i in ends else want[i] for i in range(n)])


def terminal_cfgs():
    for g in GRAPHS:
        for r in range(3):
            for ends in itertools.combinations(range(len(g)), r):
                yield g, list(ends), False
                yield g, list(ends), True


def h_calls(m, cfg):
    """The long-run analyses start where they should, on the chain they should."""
    rows, ends = cfg
    model, probs, costs = the_model("costs")
    want = meaning(rows, probs, costs)
    links = links_of(rows)
    n = len(rows)
    got = []
    orig = m.analyze_sparse

    def spy(mat, cm, init, *a, **k):
        got.append((mat, cm, init))
        return orig(mat, cm, init, num_iterations=1, tolerance=0)

    m.analyze_sparse = spy
    try:
        if ends is None:
            dist, metrics = crash(lambda: m.steady_state_sparse(links, model))
        else:
            dist, metrics = crash(lambda: m.steady_state_liveness(links, model, ends))
    finally:
        m.analyze_sparse = orig
    if not got:
        raise sym.Unsupported("the analysis is not called")
    mat, cm, init = got[0]
    check_matrix(mat, want if ends is None else [[(i, 1, {})] if i in ends else want[i] for i in range(n)])
    for i in range(n):
        w = sym.ratio(1, n) if ends is not None else 1 if i == 0 else 0
        check(same(init[i], w), "the analysis starts from another distribution")
    start = [sym.ratio(1, n)] * n if ends is not None else [1] + [0] * (n - 1)
    exp = want if ends is None else [[(i, 1, {})] if i in ends else want[i] for i in range(n)]
    if ends is not None and any(dest == i for i in ends for dest, _ in rows[i]):
        return  # whether the step from a terminal state to itself costs what it did is left open
    for k in ("c", "d"):
        check(same(metrics.mean[k], cost(start, exp, k)), "the mean of a counter is not the expected one")


def calls_cfgs():
    for g in GRAPHS:
        yield g, None
        for r in (1, 2):
            for ends in itertools.combinations(range(len(g)), r):
                yield g, list(ends)


CHAINS = [
    # (probability of each link), ergodic, absorbing, slow and periodic chains
    [[(0, 1, 2), (1, 1, 2)], [(0, 1, 4), (1, 3, 4)]],
    [[(0, 9, 10), (1, 1, 10)], [(1, 1, 1)]],
    [[(1, 1, 1)], [(0, 1, 1)]],
    [[(1, 1, 2), (2, 1, 2)], [(0, 1, 3), (1, 2, 3)], [(2, 1, 1)]],
    [[(0, 99, 100), (1, 1, 100)], [(0, 1, 100), (1, 99, 100)]],
]


def h_converged(m, cfg):
    """An analysis that stops before its last step reports a stationary distribution; from a stationary one it stays there."""
    chain, k = cfg
    n = len(chain)
    mat = m.np.zeros((n, n))
    for i, row in enumerate(chain):
        for j, p, q in row:
            mat[i, j] = sym.ratio(p, q)
    vs, d = a_distribution(m, n) if n == 2 or THOROUGH else on_two(m, n)
    want = [[(j, sym.ratio(p, q), {}) for j, p, q in row] for row in chain]
    dist, _ = crash(lambda: m.analyze_sparse(m.sp.csr_array(mat), {}, d, num_iterations=k))
    tot = 0
    for x in dist:
        check(le(0, x), "a probability is negative")
        tot = tot + x
    check(same(tot, 1), "the reported probabilities do not sum to one")
    last = vs
    for _ in range(k):
        last = step(last, want)
    if sym.native is None and all(same(x, y) is True for x, y in zip(dist, last)):
        return
    after = step(list(dist), want)
    tol = sym.ratio(1, 1000)
    ok = []
    for j in range(n):
        ok.append((le(after[j] - dist[j], tol), le(dist[j] - after[j], tol)))
    full = []
    for j in range(n):
        full.append((le(last[j] - dist[j], tol), le(dist[j] - last[j], tol)))
    if sym.native is not None:
        check(all(a and b for a, b in ok) or all(a and b for a, b in full), "the distribution reported is neither stationary nor the last one")
        return
    z = sym.z3
    conj = lambda l: z.And([z.BoolVal(x) if isinstance(x, bool) else x for p in l for x in p])
    check(z.Or(conj(ok), conj(full)), "the distribution reported is neither stationary nor the last one")


def converged_cfgs():
    for c in CHAINS:
        if len(c) > 2 and not THOROUGH:
            continue
        for k in ((2, 3) if not THOROUGH else (2, 3, 4)):
            yield c, k


HARNESSES = {"h_step": (h_step, step_cfgs), "h_run": (h_run, run_cfgs), "h_terminal": (h_terminal, terminal_cfgs),
             "h_calls": (h_calls, calls_cfgs), "h_converged": (h_converged, converged_cfgs)}

_mod = None


def symbolic():
    global _mod
    if _mod is None:
        import shim
        _mod = shim.load(SRC, "markov_chain", None)
        _mod.np, _mod.sp = shim.np, shim.sparse
    return _mod


_native = None


def native_module():
    """The code as it is; scipy is pinned to 1.12, where a vector given to a sparse format becomes a matrix of one row."""
    global _native
    if _native is None:
        import numpy
        import scipy.sparse
        import scipy.sparse.linalg
        for f in ("coo_array", "csr_array", "dok_array", "csc_array", "lil_array"):
            def wrap(x, *a, orig=getattr(scipy.sparse, f), **k):
                return orig(numpy.atleast_2d(x) if isinstance(x, numpy.ndarray) and x.ndim == 1 else x, *a, **k)
            setattr(scipy.sparse, f, wrap)
        _native = load_native()
    return _native


def load_native():
    spec = importlib.util.spec_from_file_location("markov_native", SRC)
    m = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(m)
    import numpy
    import scipy.sparse
    import scipy.sparse.linalg
    m.np, m.sp = numpy, scipy.sparse
    return m


def run_native(name, cfg, vals):
    """Replays inputs on the code as it is, with numpy and scipy."""
    fn = HARNESSES[name][0]
    sym.setup_native(vals)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            fn(native_module(), cfg)
        return "ok", ""
    except sym.Failed as f:
        return "assert", f.label
    except (sym.Infeasible, sym.Unsupported) as e:
        return "other", str(e)
    finally:
        sym.setup_native(None)


FUNCS = {}


def work(job):
    name, i, cfg, deadline = job
    fn = HARNESSES[name][0]
    stats = {k: 0 for k in "paths start done infeasible failed unsupported left queries unknown solver_s asserts asserts_solver forks".split()}
    stats["samples"] = []
    m = symbolic()
    seen = set()

    def trace(frame, event, arg):
        if event == "call" and frame.f_code.co_filename == SRC:
            seen.add(frame.f_code.co_name)
        return None

    if i % 16 == 0:
        sys.setprofile(trace)
    viol = sym.explore(lambda: fn(m, cfg), stats, deadline=deadline)
    sys.setprofile(None)
    res = []
    for label, vals in viol:
        res.append((label, vals, run_native(name, cfg, vals)))
    val = [run_native(name, cfg, v) for v in stats["samples"][:1]]
    return name, i, cfg, stats, res, val, seen


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "-replay":
        v = json.load(open(sys.argv[2]))
        r = run_native(v["harness"], v["config"], v["inputs"])
        print(r)
        return 1 if r[0] == "assert" else 0
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "2400" if THOROUGH else "240"))
    known = []
    for l in open(os.path.join(ROOT, "known_findings.jsonl")):
        if l.strip():
            d = json.loads(l)
            if d.get("property") == "C18":
                known.append((d["harness"], d["label"], d["what"]))
    jobs = []
    only = sys.argv[1:]
    for name, (_, cfgs) in HARNESSES.items():
        if only and name not in only:
            continue
        for i, c in enumerate(cfgs()):
            jobs.append((name, i, c, t0 + budget))
    symbolic()
    tot, per, funcs, samples = {}, {}, set(), []
    bad, seen_known, unconfirmed, validated, mismatch = {}, set(), [], 0, []
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        for name, i, cfg, stats, res, val, fs in pool.imap_unordered(work, jobs, chunksize=4):
            funcs |= fs
            h = per.setdefault(name, {"configurations": 0})
            h["configurations"] += 1
            for k, v in stats.items():
                if k in ("samples", "start"):
                    continue
                if k == "why":
                    w = h.setdefault("why", {})
                    for kk, vv in v.items():
                        w[kk] = w.get(kk, 0) + vv
                    continue
                h[k] = h.get(k, 0) + v
                tot[k] = tot.get(k, 0) + v
            for s in stats["samples"]:
                if len(samples) < 8 and s:
                    samples.append({"harness": name, "graph": cfg, "inputs": s})
            for st, label in val:
                if st == "ok":
                    validated += 1
                elif st == "assert":
                    mismatch.append((name, cfg, label))
            for label, vals, (st, nl) in res:
                if st != "assert":
                    unconfirmed.append((name, cfg, label, vals, st))
                    continue
                kn = [w for (h_, l_, w) in known if h_ == name and l_ == nl]
                if kn:
                    seen_known.add((kn[0]))
                    continue
                bad.setdefault((name, nl), (cfg, vals))
    # a sampled path whose inputs fail natively although the solver found no failure: the code, not the encoding, decides
    # (on several graphs: on one, it may be a number that rounding moved across a branch)
    for name, cfg, label in mismatch:
        if (name, label) not in bad and sum(1 for x in mismatch if x[0] == name and x[2] == label) > 2:
            bad.setdefault((name, label), (cfg, {}))
    for w in sorted(seen_known):
        print("KNOWN-FINDING: property=C18 " + w)
    rd = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for n, ((name, label), (cfg, vals)) in enumerate(sorted(bad.items(), key=lambda x: x[0])[:10]):
        p = os.path.join(rd, "C18-%d.json" % (n + 1))
        json.dump({"property": "C18", "harness": name, "label": label, "config": cfg, "inputs": vals}, open(p, "w"))
        print("VIOLATION property=C18 replay=" + p)
        print("  harness %s: %s\n  graph %s\n  inputs %s" % (name, label, cfg, vals))
    exhaustive = not (tot.get("left") or tot.get("unsupported") or unconfirmed)
    bounds, assume_ = read_bounds()
    ev = {"property": "C18", "tier": "thorough" if THOROUGH else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "model_checking", "wall_s": round(time.time() - t0, 1), "assumptions": assume_,
          "coverage": {"states": tot.get("done", 0), "transitions": tot.get("forks", 0), "traces_validated_against_impl": validated,
                       "paths": tot.get("paths", 0), "solver_queries": tot.get("queries", 0), "solver_time_s": round(tot.get("solver_s", 0), 1),
                       "assertions": tot.get("asserts", 0), "assertions_by_solver": tot.get("asserts_solver", 0),
                       "exhaustive": exhaustive, "unconfirmed": len(unconfirmed), "native_mismatches": len(mismatch), "bounds": bounds, "functions_encoded": sorted("performance/markov_chain.py " + f for f in funcs),
                       "harnesses": per, "samples": samples,
                       "explanation": "states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = solver-decided forks; numbers are exact reals"}}
    json.dump(ev, open(os.path.join(ROOT, "evidence", "C18.json"), "w"), indent=1)
    print("C18: %s, validated %d, unconfirmed %d, exhaustive %s, %.1f s" % (json.dumps({k: round(v, 1) for k, v in tot.items()}), validated, len(unconfirmed), exhaustive, time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in per.items():
            print(" ", k, v)
        for u in unconfirmed[:8]:
            print("  UNCONFIRMED", u)
    return 1 if bad else 0


def read_bounds():
    b, a, cur = [], [], None
    for l in open(os.path.join(ROOT, "pysym", "BOUNDS.md")):
        if l.startswith("# Bounds"):
            cur = b
        elif l.startswith("# Assumptions"):
            cur = a
        elif l.strip() and cur is not None:
            cur.append(l.strip().lstrip("- "))
    return b, a


if __name__ == "__main__":
    sys.exit(main())
