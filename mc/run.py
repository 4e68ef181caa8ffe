"""``python -m mc.run C01 [--tier quick|thorough] [--replay FILE]``."""

import importlib
import os
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("CURVLINOPS_REPO", "/repo"))
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore", message="(?s).*")  # (unlike the filters that mc.world looks for)


def main():
    from mc import rng

    rng.install_numpy()  # before curvlinops is imported
    from mc import engine

    prop = sys.argv[1]
    import curvlinops

    repo = os.environ.get("CURVLINOPS_REPO", "/repo")
    assert os.path.realpath(curvlinops.__file__).startswith(os.path.realpath(repo) + "/"), curvlinops.__file__
    module = importlib.import_module(f"checks.{prop.lower()}")
    sys.exit(engine.main(prop, module, sys.argv[2:]))


if __name__ == "__main__":
    main()
