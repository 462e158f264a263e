"""Random robot trees, their URDF text, and an independent forward kinematics."""
import math
import os
import shutil
import tempfile

import numpy as np


def gen(rng, nmax=9, fixed=0.3):
    n = rng.randint(2, nmax)
    links = [f"l{i}_{rng.randrange(100)}" for i in range(n)]
    joints = []
    chain = rng.p(0.5)
    for i in range(1, n):
        par = i - 1 if chain and rng.p(0.8) else rng.randrange(i)
        t = "fixed" if rng.p(fixed) else rng.choice(["revolute", "revolute", "continuous", "prismatic"])
        j = dict(n=f"j{i}", t=t, p=links[par], c=links[i])
        if rng.p(0.9):
            j["xyz"] = [round(rng.uniform(-1, 1), 3) for _ in range(3)]
            j["rpy"] = [round(rng.uniform(-3, 3), 3) for _ in range(3)] if rng.p(0.7) else [0.0, 0.0, 0.0]
        if t != "fixed":
            if rng.p(0.6):
                a = [0.0, 0.0, 0.0]
                a[rng.randrange(3)] = rng.choice([1.0, -1.0])
            else:
                v = [rng.gauss(0, 1) for _ in range(3)]
                s = math.sqrt(sum(x * x for x in v))
                a = [round(x / s, 6) for x in v]
            j["axis"] = a
        joints.append(j)
    jo = list(range(len(joints)))
    lo = list(range(n))
    if rng.p(0.5):
        rng.shuffle(jo)
    if rng.p(0.3):
        rng.shuffle(lo)
    return dict(links=links, joints=joints, jorder=jo, lorder=lo)


def urdf(r, name="robot"):
    out = ['<?xml version="1.0"?>', f'<robot name="{name}">']
    for i in r["lorder"]:
        out.append(f'  <link name="{r["links"][i]}"/>')
    for i in r["jorder"]:
        j = r["joints"][i]
        out.append(f'  <joint name="{j["n"]}" type="{j["t"]}">')
        if "xyz" in j:
            out.append(f'    <origin rpy="{" ".join(map(repr, j["rpy"]))}" xyz="{" ".join(map(repr, j["xyz"]))}"/>')
        out.append(f'    <parent link="{j["p"]}"/>')
        out.append(f'    <child link="{j["c"]}"/>')
        if "axis" in j:
            out.append(f'    <axis xyz="{" ".join(map(repr, j["axis"]))}"/>')
        if j["t"] in ("revolute", "prismatic"):
            out.append('    <limit effort="10" lower="-3" upper="3" velocity="3"/>')
        out.append("  </joint>")
    out.append("</robot>")
    return "\n".join(out) + "\n"


def dof(r):
    return sum(j["t"] != "fixed" for j in r["joints"])


def _rpy(a):
    cx, cy, cz = map(math.cos, a)
    sx, sy, sz = map(math.sin, a)
    Rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    Ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    Rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return Rz @ Ry @ Rx


def _aa(axis, q):
    x, y, z = axis
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    s = math.sqrt(x * x + y * y + z * z)
    th = s * q
    if abs(th) < 1e-12:
        return np.eye(3) + K * q
    K = K / s
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * K @ K


def fk(r, qmap):
    """qmap: joint name -> value. Returns link -> 4x4"""
    T = {r["links"][0]: np.eye(4)}
    for j in r["joints"]:  # parents precede children by construction
        O = np.eye(4)
        if "xyz" in j:
            O[:3, :3] = _rpy(j["rpy"])
            O[:3, 3] = j["xyz"]
        M = np.eye(4)
        if j["t"] in ("revolute", "continuous"):
            M[:3, :3] = _aa(j["axis"], qmap[j["n"]])
        elif j["t"] == "prismatic":
            M[:3, 3] = np.array(j["axis"]) * qmap[j["n"]]
        T[j["c"]] = T[j["p"]] @ O @ M
    return T


def shrink(r):
    """drop leaf links"""
    n = len(r["links"])
    for k in reversed(range(1, n)):
        nm = r["links"][k]
        if any(j["p"] == nm for j in r["joints"]) or n <= 2:
            continue
        keep = [i for i in range(n) if i != k]
        yield dict(links=[r["links"][i] for i in keep], joints=[j for j in r["joints"] if j["c"] != nm],
                   jorder=list(range(n - 2)), lorder=list(range(n - 1)))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="simscratch")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def load(r, dtype, path=None):
    import torchkin

    with Scratch() as d:
        p = os.path.join(d, "r.urdf")
        with open(p, "w") as f:
            f.write(urdf(r))
        return torchkin.Robot.from_urdf_file(p, dtype=dtype)


def jmap(robot):
    """joint name by column of the joint vector"""
    return [j.name for j in robot.joints if j.dof > 0]


class parser:
    """the copy of the URDF parser that ships with torchkin, or the installed one that shadows it"""

    def __init__(self, vendored):
        self.v = vendored

    def __enter__(self):
        import sys

        import torchkin.third_party.urdf_parser_py.urdf as mine

        self.m = sys.modules["torchkin.robot"]
        self.old = getattr(self.m, "urdf", None)
        if self.v and self.old is not None:
            self.m.urdf = mine

    def __exit__(self, *a):
        if self.old is not None:
            self.m.urdf = self.old
