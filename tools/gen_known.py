"""Writes known_findings.json (maintained here; never written by a check)."""
import json, os, subprocess
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
v = lambda n, t, d, role, b, s, **k: dict(n=n, t=t, d=d, role=role, b=b, s=s, sc=1.0, **k)
spec = dict(dtype="float64", B=2, vars=[
    v("x1", "Vector", 2, "o", 2, 11), v("x2", "Vector", 2, "o", 2, 12), v("a5", "Vector", 2, "a", 2, 13), v("a9", "Vector", 2, "a", 2, 14),
    dict(n="s7", t="Wgt", role="w", b=1, s=15, sc=1.0, shape=[1], z="none"), dict(n="s12", t="Wgt", role="w", b=1, s=16, sc=1.0, shape=[1], z="none")],
    w=[dict(n="w1", k="scale", dim=2, v="s7"), dict(n="w2", k="scale", dim=2, v="s12")],
    c=[dict(n="c1", k="sim", v=["x1"], a=["a5"], dim=2, gain=0.6, w="w1"), dict(n="c2", k="sim", v=["x2"], a=["a9"], dim=2, gain=1.0, w="w2")])
known = [dict(id="KF1", property="C01",
              what="two user cost functions of one class that differ only in plain Python attributes are grouped by vectorization and both evaluated with the first one's attributes",
              match=dict(kind="error-vector-differs", where=dict(mixed_attr=True)),
              case=dict(prop="C01", index=-1, seed=0, start_grad=False, spec=spec, ops=[dict(op="err", g=False, s=1)]))]
known.append(dict(id="KF2", property="C08",
              what="Objective.add() refused with RuntimeError because the cost weight registers optimization variables leaves the cost function and its variables half registered (tests/theseus_tests/core/test_objective.py requires part of this, so it is recorded, not repaired)",
              match=dict(kind="refused-add-changed-objective", where=dict(reason="weight-optim-vars")),
              case=json.load(open(os.path.join(D, "tools", "kf2_case.json")))))
known.append(dict(id="KF3", property="C13",
              what="PoseGraphDataset.generate_synthetic_3D(generator=g) draws most of its values from the global torch and numpy streams (tests/theseus_tests/test_pgo_benchmark.py pins losses computed from the current values, so it is recorded, not repaired)",
              match=dict(kind=["global-state-touched", "depends-on-global", "differs-after-failure"], where=dict(k="pg")),
              case=dict(prop="C13", index=-1, seed=0, k="serial", gs=11, ps=12, dd="float32", share=True,
                        ops=[dict(k="pg", s=13, n=4, b=1, dt="float64", lc=0.2, out=0.05)])))
WHY = " (the file lies in an examples folder, which fixes must not touch, so it is recorded, not repaired)"
K15 = json.load(open(os.path.join(D, "tools", "kf15_cases.json")))
for i, (kind, what) in enumerate((
        ("empty-file-has-a-pose", "read_2D_g2o_file and read_3D_g2o_file report one pose for a g2o file without any record"),
        ("first-graph-weights", "PoseGraphDataset.write_3D_g2o writes the first graph's edge weights for every graph of a batch, and get_batch_dataset returns edges with the weights of all graphs instead of its own"),
        ("edges-2d-refused", "read_2D_g2o_file raises TypeError on every file with an edge (np.array(1, tokens[6:], ...))"),
        ("ground-truth-swapped", "BundleAdjustmentDataset.load_from_file with gt_path returns the ground-truth cameras as points and the points as cameras"),
        ("single-frame-episode-refused", "TactilePushingDataset._load_dataset_from_file raises TypeError when an episode has a single frame"))):
    known.append(dict(id=f"KF{4 + i}", property="C15", what=what + WHY, match=dict(kind=kind), case=K15[kind]))
fixed_by = [l.rstrip("\n").split("|") for l in open(os.path.join(D, "tools", "fixed.txt")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], text=True, capture_output=True).stdout.splitlines()
fixed = []
for prop, subj, what in fixed_by:
    h = [l.split()[0] for l in log if subj in l]
    assert len(h) == 1, (subj, h)
    fixed.append(f"fixed: property={prop} {h[0]} {what}")
json.dump(dict(known=known, fixed=fixed), open(os.path.join(D, "known_findings.json"), "w"), indent=1)
print(len(known), len(fixed))
