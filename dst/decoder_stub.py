"""Stand-in for the (not public) external decoder process.

It is strict about what it is handed, and its prediction is a keyed function of the detection events, the
decoding mode and the error model, so that handing it the wrong shots, mode or model changes the answer.
"""
import shlex

import numpy as np
import stim

from .kernel import mix, outside, real_open

KNOWN_FLAGS = {"-ignore_distance_1_errors", "-cheap_corr", "-edge_corr", "-node_corr"}
CORR_FLAGS = {"-cheap_corr", "-edge_corr", "-node_corr"}


def predict(dets: np.ndarray, num_obs: int, correlated: bool) -> np.ndarray:
    """(shots, num_obs) bool; linear in the detection events with mode dependent coefficients."""
    shots, n = dets.shape
    out = np.zeros((shots, num_obs), dtype=np.bool_)
    for j in range(num_obs):
        coef = np.array([(mix("coef", i, j, int(correlated)) & 3) != 0 for i in range(n)], dtype=np.bool_)
        out[:, j] = (dets & coef).sum(axis=1) % 2 == 1 if n else False
        if mix("const", j, int(correlated)) & 4:
            out[:, j] ^= ((dets.sum(axis=1) % 3) == 1) if n else False
    return out


def _abs(sim, cwd, path):
    import os
    return path if os.path.isabs(path) else os.path.normpath(os.path.join(cwd, path))


def run(sim, p, args, shell, cwd, fault, on_call):
    """Returns (returncode, stdout, stderr).  on_call(p, info) is told what the decoder was given."""
    import os
    cwd = cwd or p.cwd
    kind, arg = fault if fault is not None else (None, None)
    a = int(arg or 0)
    if kind == "child_nostart":
        raise OSError(12, "Cannot allocate memory")
    argv = shlex.split(args) if isinstance(args, (str, bytes)) else [os.fspath(x) for x in args]
    info = {"argv": argv, "ok": False, "fault": kind}
    on_call(p, info)
    exe = argv[0]
    with outside():
        present = os.path.lexists(_abs(sim, cwd, exe))
    if not present:
        info["error"] = "decoder binary not found"
        if shell:
            return 127, b"", b"not found"
        raise FileNotFoundError(2, "No such file or directory", exe)
    opts, flags = {}, set()
    k = 1
    while k < len(argv):
        if argv[k] in KNOWN_FLAGS:
            flags.add(argv[k])
            k += 1
        elif argv[k] in ("-mode", "-dem_fname", "-dets_fname", "-out") and k + 1 < len(argv):
            opts[argv[k]] = argv[k + 1]
            k += 2
        else:
            info["error"] = f"bad argument {argv[k]!r}"
            return 2, b"", b"usage"
    sim.now += 0.001 + (mix(sim.seed, "decode", p.name, p.steps) % 1000) * 1e-3
    if kind == "child_slow":
        sim.now += float(arg or 30)
    if set(opts) != {"-mode", "-dem_fname", "-dets_fname", "-out"} or opts["-mode"] != "fi_match_from_dem":
        info["error"] = "missing argument"
        return 2, b"", b"usage"
    info["correlated"] = bool(flags & CORR_FLAGS)
    info["correlated_all"] = flags & CORR_FLAGS in (set(), CORR_FLAGS)
    info["ignore_d1"] = "-ignore_distance_1_errors" in flags
    info["paths"] = dict(opts)
    if kind == "child_exit":
        return 1 + a % 100, b"", b"failed"
    if kind == "child_signal":
        return (137 if shell and a % 2 else -9), b"", b""

    def load(key):
        with real_open(_abs(sim, cwd, opts[key]), "rb") as f:
            return f.read().decode()

    # The decoder runs beside the other processes: they may run between its steps.
    sim.syscall(p, "child", "decoder-start", 0)
    try:
        dem = stim.DetectorErrorModel(load("-dem_fname"))
    except (OSError, ValueError, IndexError) as e:
        info["error"] = f"unreadable error model: {type(e).__name__}"
        return 3, b"", b"bad dem"
    sim.syscall(p, "child", "decoder-dets", 0)
    try:
        text = load("-dets_fname")
    except (OSError, ValueError) as e:
        info["error"] = f"unreadable shots: {type(e).__name__}"
        return 3, b"", b"bad dets"
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    n = dem.num_detectors
    dets = np.zeros((len(lines), n), dtype=np.bool_)
    for i, line in enumerate(lines):
        words = line.split(" ")
        bad = words[0] != "shot"
        for w in words[1:]:
            if not (w[:1] == "D" and w[1:].isdigit() and int(w[1:]) < n):
                bad = True
                break
            dets[i, int(w[1:])] ^= True
        if bad:
            info["error"] = f"malformed shot line {i}: {line[:60]!r}"
            return 4, b"", b"bad shot line"
    info.update(dem=dem, dets=dets, num_obs=dem.num_observables)
    preds = predict(dets, dem.num_observables, info["correlated"])
    info["preds"] = preds
    out = "".join("".join("01"[int(b)] for b in row) + "\n" for row in preds)
    rc = 0
    if kind in ("child_trunc", "child_partial_exit"):
        # Loses at least one answer (the final newline alone does not count), unless it fails after answering.
        if kind == "child_trunc" or a % 3:
            out = out[:a % max(1, len(out) - 1)]
        if kind == "child_partial_exit":
            rc = 1
    elif kind == "child_garble":
        m = a % 5
        pos = (a // 5) % max(1, len(out))
        if m == 0:
            pos = next((q for q in range(pos, len(out)) if out[q] in "01"), None)
            if pos is None:
                pos = out.find("0") if "0" in out else out.find("1")
            out = out[:pos] + "?2 x"[(a // 7) % 4] + out[pos + 1:]
        elif m == 1:      # a missing column in one line
            pos = next((q for q in range(pos, len(out)) if out[q] in "01"), 0)
            out = out[:pos] + out[pos + 1:]
        elif m == 2:      # an extra column in one line
            out = out[:pos] + "1" + out[pos:]
        elif m == 3:      # an error text instead of an answer
            out = "error: no matching\n" * max(1, len(lines))
        else:             # a missing line
            k = out.find("\n")
            out = out[k + 1:] if k >= 0 else ""
    elif kind == "child_empty":
        out = ""
    info["out_text"] = out
    sim.syscall(p, "child", "decoder-answer", 0)
    if kind != "child_noout":
        try:
            with real_open(_abs(sim, cwd, opts["-out"]), "wb") as f:
                f.write(out.encode())
        except OSError as e:
            info["error"] = f"cannot write answer: {type(e).__name__}"
            return 5, b"", b"cannot write"
    info["ok"] = kind is None or kind == "child_slow"
    return rc, b"decoder done\n", b""
