import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

from . import core  # noqa

core.setup_paths()


def main(argv):
    from . import runner

    cmd = argv[0]
    if cmd == "check":
        prop = argv[1]
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return runner.main_check(prop, tier, seed)
    if cmd == "replay":
        return runner.main_replay(argv[1])
    if cmd == "gen":  # print one generated case
        import json

        mod = runner.load(argv[1])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        i = int(argv[2])
        c = mod.gen(core.Rng("case", argv[1], seed, i), os.environ.get("VERIF_TIER", "quick"), i)
        c.update(prop=argv[1], index=i, seed=seed)
        print(json.dumps(c))
        return 0
    if cmd == "one":  # run one generated case in the foreground
        import json

        mod = runner.load(argv[1])
        if hasattr(mod, "prepare"):
            mod.prepare()
        seed = int(os.environ.get("VERIF_SEED", "1"))
        i = int(argv[2])
        c = mod.gen(core.Rng("case", argv[1], seed, i), os.environ.get("VERIF_TIER", "quick"), i)
        r = runner.run_case_here(mod, c)
        print(json.dumps(r, indent=1))
        if r.get("err"):
            print(r["err"][1])
        return 0
    if cmd == "c18child":
        from .props import c18

        return c18.child()
    print("usage: python -m sim check <ID> [tier] | replay <file>")
    return 2


if __name__ == "__main__":
    import torch

    torch.set_num_threads(1)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
