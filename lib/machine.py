"""Reference machine for programs with measurements and conditions, and small statistics.

The machine does not predict outcomes: it keeps every hypothesis (state, bit values) that is
consistent with what was observed so far, and reports when none is left.
"""
import math

import numpy as np

import gen
import ref

TOL = 1e-7


class Inconsistent(Exception):
    pass


def replay(prog, n, bits0, records, final_state, final_bits, records_known=True, tol=TOL):
    """Replays ``prog`` (abstract ops) against observations.

    bits0: initial bit values (None / 0 / 1); records: for every Measurement in program order the
    recorded pre-measurement state, or None if it was not executed.  Raises Inconsistent.
    Returns (number of hypotheses at the end, max branching, blocked, executed).
    """
    hyps = [(ref.zero_state(n), tuple(bits0), 1.0)]

    def allowed(w):  # rounding grows when unlikely outcomes are scaled up
        return min(tol, max(1e-9, 1e-13 / w))
    width, blocked_n, executed_n = 1, 0, 0
    k = -1
    for pos, o in enumerate(prog):
        new = []
        if o.name == "Measurement":
            k += 1
            rec = records[k]
        any_blocked = any_exec = False
        for v, bits, w in hyps:
            blocked = any(bits[b] == 0 for b in o.cond)
            if o.name != "Measurement":
                if blocked:
                    any_blocked = True
                    new.append((v, bits, w))
                else:
                    any_exec = True
                    new.append((ref.apply(v, n, list(o.qubits), gen.op_matrix(o)), bits, w))
                continue
            if blocked:
                if rec is None:
                    any_blocked = True
                    new.append((v, bits, w))
                continue
            if rec is None or not ref.close(np.asarray(rec), v, allowed(w)):
                continue
            any_exec = True
            branch = [(v, bits, w)]
            for j, q in enumerate(o.qubits):
                nxt = []
                for s, bb, ww in branch:
                    p1 = ref.prob_of(s, n, q)
                    for out, p in ((0, 1 - p1), (1, p1)):
                        if p > 1e-12:
                            b2 = bb
                            if o.bits:
                                b2 = bb[:o.bits[j]] + (out,) + bb[o.bits[j] + 1:]
                            nxt.append((ref.project(s, n, q, out), b2, ww * p))
                branch = nxt
            new += branch
        if not new:
            raise Inconsistent(f"step {pos} ({o.name} on {o.qubits}, cond {o.cond}): no consistent "
                               f"execution; recorded {None if o.name != 'Measurement' or rec is None else np.round(rec, 4)[:8]}")
        blocked_n += any_blocked
        executed_n += any_exec
        # merge equal hypotheses
        seen = {}
        for v, bits, w in new:
            key = (np.round(v, 6).tobytes(), bits)
            if key not in seen or seen[key][2] < w:
                seen[key] = (v, bits, w)
        hyps = list(seen.values())
        width = max(width, len(hyps))
        if len(hyps) > 4096:
            raise MemoryError("too many hypotheses")
    if final_bits is not None:
        h2 = [h for h in hyps if h[1] == tuple(final_bits)]
        if not h2:
            raise Inconsistent(f"final bits {final_bits} not among {sorted(set(map(str, (h[1] for h in hyps))))[:8]}")
        hyps = h2
    if final_state is not None:
        h2 = [h for h in hyps if ref.close(np.asarray(final_state), h[0], allowed(h[2]))]
        if not h2:
            raise Inconsistent(f"final state {np.round(final_state, 4)[:8]} is not the projected state "
                               f"for the recorded bits {final_bits}: {np.round(hyps[0][0], 4)[:8]}")
        hyps = h2
    return len(hyps), width, blocked_n, executed_n


LOG_ALPHA = math.log(1e-11)


def implausible(k, n, p):
    """True when k successes in n trials have probability below 1e-11 under success rate p
    (Chernoff bound, so true implies the exact tail is even smaller)."""
    if n == 0:
        return False
    if p < 1e-9:
        return k > 0 and p * n < 1e-3 and (k > 2 or p < 1e-12)
    if p > 1 - 1e-9:
        return implausible(n - k, n, 1 - p)
    q = k / n
    kl = 0.0
    if q > 0:
        kl += q * math.log(q / p)
    if q < 1:
        kl += (1 - q) * math.log((1 - q) / (1 - p))
    return math.log(2) - n * kl < LOG_ALPHA


def joint_probs(v, n, qubits):
    """Probability of every joint outcome of the listed qubits, as a dict of tuples (distinct qubits)."""
    t = np.abs(v.reshape((2,) * n)) ** 2
    others = tuple(k for k in range(n) if k not in qubits)
    t = t.sum(axis=others)
    order = sorted(qubits)
    t = np.transpose(t, [order.index(q) for q in qubits])
    return {idx: float(p) for idx, p in np.ndenumerate(t)}
