#!/opt/venv/bin/python
"""python run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

os.environ.setdefault("NUMBA_DISABLE_JIT", "1" if "--replay" not in sys.argv and "--batch" not in sys.argv else "0")
for k, v in {"MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
             "CUDA_VISIBLE_DEVICES": "", "TF_CPP_MIN_LOG_LEVEL": "3", "TF_ENABLE_ONEDNN_OPTS": "0",
             "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}.items():
    os.environ[k] = v
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class _Z3Finder:
    """only z3 comes from the tools venv; everything else from the project's venv"""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "z3":
            from importlib.machinery import PathFinder
            return PathFinder.find_spec(name, [VT])
        return None


sys.meta_path.append(_Z3Finder)

if __name__ == "__main__":
    from symx.runner import main
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
