#!/opt/venv/bin/python
"""check.py run <property> | replay <file> | digest <property> <n>   (deterministic simulation checks)"""
import os
import sys

WANT = {"PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}


def main():
    if any(os.environ.get(k) != v for k, v in WANT.items()):
        py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
        os.execve(py, [py, os.path.abspath(__file__), *sys.argv[1:]], {**os.environ, **WANT})
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from dst import runner
    cmd = sys.argv[1]
    if cmd == "run":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            tier = "thorough"
        return runner.run_check(sys.argv[2], tier, int(os.environ.get("VERIF_SEED", "1")))
    if cmd == "replay":
        return runner.replay(sys.argv[2])
    if cmd == "digest":
        from dst import loader
        loader.preload()
        eng = runner.engine_of(sys.argv[2])
        eng.prepare("quick")
        for s in eng.seeds("quick", int(os.environ.get("VERIF_SEED", "1")))[:int(sys.argv[3])]:
            print(s, *[r.digest for _, r in eng.runs(s, "quick")])
        return 0
    raise SystemExit(f"unknown command {cmd}")


if __name__ == "__main__":
    sys.exit(main())
