"""C17: KeyboardInterrupt injected at every line (thorough: every bytecode) of every optimiser, and every logger history."""
import contextlib
import io
import itertools
import os
import sys
import numpy as np
from ..core import Enum, Skip, require, Violation
from ..util import gen, gen_k, close, herm, raises
import tight_binding_redweasel as TB
from tight_binding_redweasel import Symmetry
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries
from tight_binding_redweasel.logger import OptimisationLogger

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["an interrupt arrives between two executed lines (thorough: between two bytecodes) of the library or inside a call it makes; array assignments of numpy are atomic",
               "interrupts before the first and after the last iteration may propagate as KeyboardInterrupt",
               "the logger is not one of an already aborted run (OptimisationLogger.abort documents re-aborting as an error)"]
SRC = os.path.dirname(os.path.abspath(TB.__file__))


class Injector:
    """raise KeyboardInterrupt at event number `at` inside of the library"""

    def __init__(self, at=None, opcodes=False, observe=None):
        self.at, self.opcodes, self.observe = at, opcodes, observe
        self.n, self.fired = 0, None

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.opcodes:
            frame.f_trace_opcodes, frame.f_trace_lines = True, False
        return self.loc

    def loc(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            i = self.n
            self.n += 1
            if self.observe is not None:
                self.observe(i)
            if i == self.at:
                self.fired = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} ({frame.f_code.co_name})"
                raise KeyboardInterrupt
        return self.loc

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def lattice(dim, full=False):
    nb = [[0] * dim] + np.eye(dim, dtype=int).tolist()
    return np.array(nb + ([[1] * dim] if dim > 1 else [[2]]))


def build(c):
    """returns model, call(model, log, iterations), params(model), k, ref, weights, offset"""
    dim, n, m, kind = c["dim"], c["n"], c["m"], c["kind"]
    R = lattice(dim)
    k = gen(3 + dim, (9, dim)) * 0.45
    k[0] = 0
    off = c.get("off", 0)
    H = np.array([herm(5 + i, n) if i == 0 else 0.3 * gen(6 * i + 1, (n, n)) for i in range(len(R))]) + 0j
    # a band structure that the model can not represent exactly
    ref = np.sort(gen(40, (len(k), m)) * 0.2 + np.arange(m) * 1.5 - 0.6 * np.cos(2 * np.pi * k).sum(-1)[:, None], axis=-1)
    w = np.arange(1, m + 1) * 0.5 if c.get("w") else 1.0
    if kind.startswith("asym"):
        if c.get("zeros"):
            H = H * np.eye(n)
            H[2][0, -1] = 0.0
        S = None
        if c.get("S"):
            S = HermitianFourierSeries(R[:2], np.array([np.eye(n), 0.1 * gen(9, (n, n)) * (np.eye(n) if c.get("zeros") else 1)]) + 0j)
        mod = AsymTightBindingModel(HermitianFourierSeries(R.astype(float), H), S) if S is not None else AsymTightBindingModel(HermitianFourierSeries(R.astype(float), H))
        get = lambda x: [x.H.H_r, x.S.H_r]
        if kind == "asym":
            call = lambda x, log, it: x.optimize(k, 1, ref, w, off, it, log=log, keep_zeros=bool(c.get("zeros")), **c["kw"])
        else:
            call = lambda x, log, it: x.optimize_cg(k, ref, w, off, it, log=log, keep_zeros=bool(c.get("zeros")), **c["kw"])
    else:
        sym = {"none": Symmetry.none(dim), "inv": Symmetry.inv(dim)}[c.get("sym", "none")]
        mod = BandStructureModel.init_tight_binding(sym, R.astype(float), n, cos_reduced=bool(c.get("cos")), exp=c.get("exp", True))
        P = np.array([herm(5 + i, n) if i == 0 else (0.3 * gen(6 * i + 1, (n, n)) if mod.exp and not sym.inversion else 0.3 * herm(6 * i + 1, n)) for i in range(len(mod.params))]) + 0j
        if c.get("zeros"):
            P = P * np.eye(n)
        mod.params[:] = P
        if c.get("symmetrizer"):
            perm = np.arange(n)[::-1]

            def symm(p):
                p = np.array(p)
                return (p + p[:, perm][:, :, perm]) / 2
            mod.symmetrizer = symm
            mod.params = symm(mod.params)
        get = lambda x: [x.params]
        if kind == "bsm":
            call = lambda x, log, it: x.optimize(k, c.get("kw_w", 1.0), ref, w, off, it, log=log, keep_zeros=bool(c.get("zeros")), **c["kw"])
        else:
            call = lambda x, log, it: x.optimize_cg(k, 1.0, ref, w, off, it, log=log, keep_zeros=bool(c.get("zeros")), **c["kw"])
    return mod, call, get, k, ref, w, off


def newlog(c):
    lg = OptimisationLogger(print_loss=bool(c.get("print")), verbose=bool(c.get("print")), update_line=c.get("print", 1) == 1)
    lg.count = bool(c.get("count"))
    if c.get("share"):
        # the log was already used by another run
        mod, call = build(c)[:2]
        with contextlib.redirect_stdout(io.StringIO()):
            call(mod, lg, 1)
    lg.used = len(lg.loss)
    return lg


def bands_close(a, b):
    return np.allclose(a, b, rtol=0, atol=1e-8 * (1 + np.max(np.abs(b))))


def final_checks(c, mod, log, get, k, ref, w, off, where, nb0, b_frozen):
    n = c["n"]
    kt = np.concatenate([gen_k(c["dim"], 3)])
    for p in get(mod):
        require(np.all(np.isfinite(p)), "parameters are not finite after an interrupt at %s", where)
    h = mod.H.f(kt) if c["kind"].startswith("asym") else mod.f(kt)
    close(h, np.conj(np.swapaxes(h, -1, -2)), f"Hamiltonian is not hermitian after an interrupt at {where}", 1e-10, 1 + np.max(np.abs(h)))
    require(mod.band_count() == n, "band count changed by an interrupt at %s", where)
    nbs = mod.H.neighbors if c["kind"].startswith("asym") else mod.neighbors
    require(np.array_equal(nbs, nb0), "neighbours changed by an interrupt at %s", where)
    if not c.get("symmetrizer"):
        if c["kind"].startswith("asym"):
            h0 = mod.H.f(np.zeros((1, c["dim"])))[0]
            s0 = mod.S.f(np.zeros((1, c["dim"])))[0]
            close(s0, np.eye(n), f"S(0) not normalised after an interrupt at {where}", 1e-8)
        else:
            h0 = mod.params[0]
        close(h0, np.diag(np.diag(h0)), f"model not normalised after an interrupt at {where}", 1e-8, 1 + np.max(np.abs(h0)))
    else:
        close(mod.params, mod.symmetrizer(mod.params), f"model not symmetric after an interrupt at {where}", 1e-10)
    if c.get("zeros") and not c.get("symmetrizer"):
        for p in get(mod)[:1]:
            o = np.abs(p * (1 - np.eye(n)))
            require(np.all(o < 1e-9), "requested zeros became %s after an interrupt at %s", np.max(o), where)
    require(len(log.loss) == len(log.iterations), "%s losses and %s iterations in the log after an interrupt at %s", len(log.loss), len(log.iterations), where)
    l = mod.loss(k, ref, np.broadcast_to(w, (c["m"],)), off)
    close(log.last_loss(), l, f"last logged loss after an interrupt at {where}", 1e-9, 1 + abs(l))
    dat = [x for x in log.stream if not isinstance(x, str)]
    require(len(dat) >= len(log.loss) and np.isfinite(log.loss).all(), "log data incomplete")
    require((c.get("share") and not c.get("count")) or list(log.iterations) == sorted(log.iterations), "iterations of the log are %s", log.iterations)


def run_cfg(c):
    T = c["T"]
    mod, call, get, k, ref, w, off = build(c)
    k0, ref0 = k.copy(), ref.copy()
    nb0 = (mod.H.neighbors if c["kind"].startswith("asym") else mod.neighbors).copy()
    kt = gen_k(c["dim"], 4)
    sink = io.StringIO()
    # states after whole iterations
    states = []
    for it in range(T + 1):
        m = mod.copy()
        with contextlib.redirect_stdout(sink):
            log = call(m, newlog(c), it)
        states.append(m(kt))
        final_checks(c, m, log, get, k, ref, w, off, "nowhere", nb0, None)
        require(not log.aborted, "log of a run without interrupt is flagged as aborted")
        if "converged" not in log.stream and not c.get("count"):
            require(log.iterations[-1] == it, "last logged iteration %s of %s", log.iterations[-1], it)
    # events of the uninterrupted run
    m = mod.copy()
    log = newlog(c)
    seen = dict(last=None, bands=None, change=[], data=None)

    def observe(i):
        key = b"".join(np.ascontiguousarray(p).tobytes() for p in get(m))
        if key != seen["last"]:
            seen["last"] = key
            x = m.copy()
            x.normalize()
            b = x(kt)
            j = len(seen["change"]) + 1
            if j <= T and bands_close(b, states[j]) and not bands_close(b, states[j - 1]):
                seen["change"].append(i)  # iteration j completed
        if seen["data"] is None and len(log.loss) > log.used:
            seen["data"] = i
    op = bool(c.get("op"))
    with contextlib.redirect_stdout(sink), Injector(None, op, observe) as inj:
        call(m, log, T)
    N = inj.n
    require(bands_close(m(kt), states[T]), "tracing changed the result")
    require(seen["change"] or bands_close(states[T], states[0]), "the states of the run are not reached")
    if not seen["change"]:
        raise Skip("the run does not change the model")
    first = min([seen["change"][0]] + ([seen["data"]] if seen["data"] is not None else []))
    last = seen["change"][-1]
    cnt = inside = 0
    for e in range(c["part"], N, c["parts"]):
        m = mod.copy()
        log = newlog(c)
        ret = None
        with contextlib.redirect_stdout(sink):
            try:
                with Injector(e, op) as inj:
                    ret = call(m, log, T)
            except KeyboardInterrupt:
                pass
        require(inj.fired is not None, "event %s was not reached", e)
        where = f"{inj.fired}, event {e} of {N}"
        cnt += 1
        if ret is None:
            require(not (first < e < last), "the interrupt was not caught at %s", where)
            continue
        inside += 1
        require(ret is log, "the logger given was not returned")
        require(log.aborted and log.stream.count("aborted") == 1, "log not flagged as aborted exactly once at %s", where)
        final_checks(c, m, log, get, k, ref, w, off, where, nb0, None)
        b = m(kt)
        done = sum(x <= e for x in seen["change"])
        if not c.get("partial"):
            ok = [i for i, s in enumerate(states) if bands_close(b, s)]
            require(ok, "bands after an interrupt at %s are not those of a whole number of iterations", where)
            require(any(i in (done, done + 1) for i in ok) or len(seen["change"]) != T, "state after %s iterations returned by an interrupt at %s in iteration %s", ok, where, done)
        require(np.array_equal(k, k0) and np.array_equal(ref, ref0), "the data was modified")
        if e % 16 == c["part"]:
            # the model is still usable
            with contextlib.redirect_stdout(sink):
                log2 = call(m, newlog(c), 1)
            final_checks(c, m, log2, get, k, ref, w, off, where + " and another run", nb0, None)
    if cnt > 30:
        require(inside > 0, "no interrupt was caught")
    return dict(n=cnt, nontrivial=inside > 0, outcome=(c["kind"], inside > 0))


def run_plain(c):
    """no interrupt: the log belongs to the returned model"""
    mod, call, get, k, ref, w, off = build(c)
    nb0 = (mod.H.neighbors if c["kind"].startswith("asym") else mod.neighbors).copy()
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        log = call(mod, {"T": True, "F": False}.get(c["log"]) if c["log"] in "TF" else newlog(c), c["T"])
    final_checks(c, mod, log, get, k, ref, w, off, "nowhere", nb0, None)
    require(not log.aborted and "aborted" not in log.stream, "log flagged as aborted")
    require(c["log"] == "O" or (c["log"] == "F") == (buf.getvalue() == ""), "output %r with log=%s", buf.getvalue()[:50], c["log"])
    # every logged loss is the loss after that many iterations (the logged iterations are reproducible)
    for it, l in [] if c.get("partial") or c.get("share") else list(zip([x[0] for x in log.stream if not isinstance(x, str)], log.loss))[:-1]:
        m2 = build(c)[0]
        with contextlib.redirect_stdout(buf):
            call(m2, False, it)
        close(m2.loss(k, ref, np.broadcast_to(w, (c["m"],)), off), l, f"loss logged for iteration {it}", 1e-7, 1 + l)
    return dict(n=3 + len(log.loss), nontrivial=True)


def run_exact(c):
    """exactly reproduced reference with every logging mode"""
    n, dim = c["n"], c["dim"]
    mod, call, get, k, ref, w, off = build(dict(c, m=n))
    for val in (0, 1):
        m = mod.copy()
        if c["kind"].startswith("asym"):
            m.H.H_r = m.H.H_r * 0
            m.H.H_r[0] = np.eye(n) * val
            run = (lambda log: m.optimize(k, 1, np.ones((len(k), n)) * val, w, 0, 3, log=log)) if c["kind"] == "asym" else (lambda log: m.optimize_cg(k, np.ones((len(k), n)) * val, w, 0, 3, log=log))
        else:
            m.params = m.params * 0
            m.params[0] = np.eye(n) * val
            run = (lambda log: m.optimize(k, 1.0, np.ones((len(k), n)) * val, w, 0, 3, log=log)) if c["kind"] == "bsm" else (lambda log: m.optimize_cg(k, 1.0, np.ones((len(k), n)) * val, w, 0, 3, log=log))
        for mode in ("T", "F", OptimisationLogger(True, True, True), OptimisationLogger(True, False, False)):
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                log = run({"T": True, "F": False}.get(mode, mode) if isinstance(mode, str) else mode)
            close(log.last_loss(), 0.0, "loss of the exact model", 1e-12)
            close(m(k), np.ones((len(k), n)) * val, "bands of the exact model", 1e-12)
    return dict(n=8, nontrivial=True)


ERR = [[1.0], [0.0], [0.0, 0.0], [1e-3, 2.0, 0.5], [1e-300, 0.0], [5e-324, 0.0], [1e300, 1.0], np.array([0.25, 1.0]), [0, 3]]
OPS = [("msg",), ("abort",)] + [("data", i) for i in range(len(ERR))]


def run_log(c):
    seq = c["seq"]
    cnt = 0
    for pl, ul, vb, count in itertools.product((False, True), repeat=4):
        lg = OptimisationLogger(print_loss=pl, update_line=ul, verbose=vb)
        lg.count = count
        stream, loss, its, ab = [], [], [], False
        buf = io.StringIO()
        require(lg.iteration_count() == -1, "iteration count of an empty log")
        with contextlib.redirect_stdout(buf):
            for step, j in enumerate(seq):
                op = OPS[j]
                if op[0] == "msg":
                    lg.add_message(f"m{step}")
                    stream.append(f"m{step}")
                elif op[0] == "abort":
                    try:
                        lg.abort()
                        if not ab:
                            stream.append("aborted")
                    except ValueError:
                        require(ab, "the first abort raised an error")
                    ab = True
                else:
                    e = ERR[op[1]]
                    lg.add_data(step * 2, 0.5 + step, e)
                    stream.append((step * 2, 0.5 + step, e))
                    loss.append(0.5 + step)
                    its.append((its[-1] if its else -1) + 1 if count else step * 2)
                    require(lg.iteration_count() == its[-1] and lg.last_loss() == loss[-1], "last logged data")
        require(len(lg.stream) == len(stream) and all((a == b) if isinstance(b, str) else (a[0] == b[0] and a[1] == b[1] and a[2] is b[2]) for a, b in zip(lg.stream, stream)), "stream %s of the operations %s", lg.stream, seq)
        require(list(lg.loss) == loss and list(lg.iterations) == its and lg.aborted == ab, "log state %s", vars(lg))
        out = buf.getvalue()
        if not pl and not vb:
            require(out == "", "a silent logger printed %r", out)
        if pl:
            require(out.count("loss") == len(loss), "printed %r", out)
        cnt += 1
    return dict(n=cnt, nontrivial=True)


def configs(tier):
    th = tier == "thorough"
    base = dict(convergence_threshold=0.0, loss_threshold=0.0)
    out = []
    for dim, n, m, off in [(1, 2, 2, 0), (1, 3, 1, 1), (2, 2, 1, 0)] + ([(1, 1, 1, 0), (2, 3, 2, 1), (3, 2, 2, 0)] if th else []):
        b = dict(dim=dim, n=n, m=m, off=off)
        out += [dict(b, kind="asym", kw=dict(base)), dict(b, kind="asym", kw=dict(base, use_pinv=False, batch_div=2), S=1),
                dict(b, kind="asym", kw=dict(base, use_lstsq_stepsize=True, max_accel_global=2.0), w=1, print=1),
                dict(b, kind="asym", kw=dict(base), zeros=1),
                dict(b, kind="asym", kw=dict(base, regularization=0.9), partial=1),
                dict(b, kind="asym_cg", kw=dict(base), print=2, share=1), dict(b, kind="asym_cg", kw=dict(base, precond=False), S=1, w=1),
                dict(b, kind="asym_cg", kw=dict(base), zeros=1), dict(b, kind="asym_cg", kw=dict(base, precond=False), zeros=1, S=1),
                dict(b, kind="asym_cg", kw=dict(convergence_threshold=0.3)), dict(b, kind="asym", kw=dict(convergence_threshold=0.3), share=1, count=1),
                dict(b, kind="bsm", kw=dict(base)), dict(b, kind="bsm", kw=dict(base, use_pinv=False, batch_div=3), exp=False),
                dict(b, kind="bsm", kw=dict(base, learning_rate=0.5), zeros=1, sym="inv", exp=False), dict(b, kind="bsm", kw=dict(base, max_accel_global=2.0), symmetrizer=1),
                dict(b, kind="bsm", kw=dict(base, regularization=0.9), partial=1, w=1, print=1, count=1),
                dict(b, kind="bsm", kw=dict(convergence_threshold=0.3), exp=False, cos=1),
                dict(b, kind="bsm_cg", kw=dict(base)), dict(b, kind="bsm_cg", kw=dict(base, precond=False), symmetrizer=1),
                dict(b, kind="bsm_cg", kw=dict(base, max_cg_iterations=2, precond=dim != 2), zeros=1, sym="inv", exp=False, w=1),
                dict(b, kind="bsm_cg", kw=dict(base, precond=False), zeros=1),
                dict(b, kind="bsm_cg", kw=dict(convergence_threshold=0.3), exp=False, print=1, count=1, share=1)]
    return out


def subs(tier):
    th = tier == "thorough"
    inj = [dict(c, T=T, part=p, parts=P, op=o) for c in configs(tier) for (T, o, P) in ([(3, 0, 2), (2, 1, 6)] if th else [(2, 0, 4)]) for p in range(P)]
    plain = [dict(c, T=T, log=l) for c in configs(tier) for T in (0, 1, 2, 4) for l in "TFO"]
    exact = [dict(kind=k, n=n, dim=d, m=n, kw={}) for k in ("asym", "asym_cg", "bsm", "bsm_cg") for n in (1, 2, 3) for d in (1, 2, 3)]
    D = 4 if th else 3
    logs = [dict(seq=list(s)) for d in range(D + 1) for s in itertools.product(range(len(OPS)), repeat=d)]
    return [
        Enum("interrupts", lambda t: inj, run_cfg, "every interruptible point of every optimiser configuration, all executed lines (thorough: also all bytecodes)"),
        Enum("no interrupt", lambda t: plain, run_plain, "optimiser configuration x iterations x logging mode"),
        Enum("exact", lambda t: exact, run_exact, "optimiser x model size, exactly reproduced constant bands, every logging mode"),
        Enum("logger", lambda t: logs, run_log, "every logger operation sequence to the depth x every logger setting"),
    ]
