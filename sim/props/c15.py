"""C15 - damaged or interrupted dataset files are never silently wrong."""
import builtins
import contextlib
import errno
import io
import json
import os

import numpy as np
import torch

import theseus as th
import torchkin
from theseus.utils.examples.bundle_adjustment import data as bad
from theseus.utils.examples.pose_graph import dataset as pgd
from theseus.utils.examples.tactile_pose_estimation import misc as tac

from .. import robots
from ..core import Rng, SimInterrupt

RUNS = {"quick": 1200, "thorough": 100000}
RULE = ("a run is 1-3 problems (pose graphs 2D and 3D, bundle adjustment, robot descriptions, tactile recordings) and 4-14 operations on simulated storage: saves, "
        "loads, overwrites, retries, under short reads and writes, I/O errors at any operation, a disk that fills up, interrupts, crashes in the middle of a save, and lost or "
        "zero-filled tails at any byte; each load is compared with the problem that was saved, record by record; non-trivial if "
        "a load read a file that was damaged, or succeeded after a failed operation")
REAL = ["g2o readers and writer", "BAL reader and writer", "URDF loading (torchkin, its own copy of the parser and the installed one)", "tactile recording and distance-field loading",
        "Python text and buffer layers"]
STUB = ["raw files and directory operations (in-memory storage behind open)"]
ASSUMPTIONS = ["a number torn in its middle at the very end of a text file cannot be told from a shorter number: the last number of the last record is not compared then",
               "information matrices are diagonal (only the diagonal is kept by design)", "rotations are compared to the accuracy of quaternion extraction near half a turn"]
ROOT = "/simfs/"


class SimCrash(BaseException):
    """the process dies here; what was written so far is on the disk"""


# ------------------------------------------------------------------ simulated storage
class Raw(io.RawIOBase):
    def __init__(self, fs, name, mode):
        self.fs, self.nm, self.mode, self.pos = fs, name, mode, 0
        if "w" in mode:
            fs.files[name] = bytearray()
        elif "a" in mode:
            fs.files.setdefault(name, bytearray())
            self.pos = len(fs.files[name])
        elif "x" in mode:
            if name in fs.files:
                raise FileExistsError(errno.EEXIST, "exists", name)
            fs.files[name] = bytearray()
        elif name not in fs.files:
            raise FileNotFoundError(errno.ENOENT, "no such file", name)

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return any(c in self.mode for c in "wax+")

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off + (0 if whence == 0 else self.pos if whence == 1 else len(self.fs.files[self.nm]))
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.fs.files[self.nm][size:]
        return size

    def readinto(self, buf):
        fs = self.fs
        d = fs.files[self.nm]
        n = min(len(buf), len(d) - self.pos)
        n = fs.op("read", n)
        buf[:n] = d[self.pos : self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        fs = self.fs
        b = bytes(b)
        n = fs.op("write", len(b))
        d = fs.files[self.nm]
        if len(d) < self.pos:
            d.extend(bytes(self.pos - len(d)))
        d[self.pos : self.pos + n] = b[:n]
        self.pos += n
        return n


class FS:
    def __init__(self, ctx):
        self.files, self.ctx = {}, ctx
        self.arm(None)

    def arm(self, f):
        """faults of one operation: chunk (longest transfer), at/what (which raw transfer fails and how), room (bytes left on the disk)"""
        self.f, self.n, self.rng = f or {}, 0, Rng((f or {}).get("s", 0))
        self.room = self.f.get("room")
        self.fired = None

    def op(self, kind, n):
        f = self.f
        k = self.n
        self.n += 1
        if n > 0 and f.get("chunk"):
            m = min(n, self.rng.randint(1, f["chunk"]))
            if m < n:
                self.ctx.fault("short_" + kind)
            n = m
        if f.get("what") and k == f["at"]:
            self.fired = w = f["what"]
            self.ctx.fault(f"{w}_{kind}")
            if w == "eio":
                raise OSError(errno.EIO, "[sim] I/O error")
            if w == "interrupt":
                raise SimInterrupt()
            if w == "crash":
                raise SimCrash("[sim] power lost")
        if kind == "write" and self.room is not None:
            if n > 0 and self.room == 0:
                self.fired = "full"
                self.ctx.fault("disk_full")
                raise OSError(errno.ENOSPC, "[sim] no space left")
            n = min(n, self.room)
            self.room -= n
        return n

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        name = self.mine(file)
        if name is None:
            return self.real_open(file, mode, buffering, encoding, errors, newline, *a, **k)
        raw = Raw(self, name, mode.replace("b", "").replace("t", ""))
        size = self.f.get("buf", 8192)
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedReader(raw, size) if "r" in mode else io.BufferedWriter(raw, size)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def mine(self, p):
        if isinstance(p, int):
            return None
        p = os.fspath(p)
        return p if isinstance(p, str) and p.startswith(ROOT) else None

    @contextlib.contextmanager
    def mounted(self):
        self.real_open = builtins.open
        saved = [(builtins, "open", builtins.open), (io, "open", io.open)]

        def two(real):
            def mv(a, b, *r, **k):
                if self.mine(a) is None:
                    return real(a, b, *r, **k)
                self.files[self.mine(b)] = self.files.pop(self.mine(a))

            return mv

        def rm(real):
            return lambda a, *r, **k: real(a, *r, **k) if self.mine(a) is None else self.files.pop(self.mine(a)) and None

        for n, w in (("replace", two), ("rename", two), ("remove", rm), ("unlink", rm)):
            saved.append((os, n, getattr(os, n)))
            setattr(os, n, w(getattr(os, n)))
        for n in ("exists", "isfile"):
            saved.append((os.path, n, getattr(os.path, n)))
            setattr(os.path, n, (lambda real: lambda a: real(a) if self.mine(a) is None else self.mine(a) in self.files)(getattr(os.path, n)))
        builtins.open = io.open = self.open
        try:
            yield
        finally:
            for o, n, v in saved:
                setattr(o, n, v)


# ------------------------------------------------------------------ problems
def rot(v):
    a = np.linalg.norm(v)
    if a == 0:
        return np.eye(3)
    k = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]) / a
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * k @ k


def rpose(r, n):
    out = np.zeros((n, 3, 4))
    for b in range(n):
        v = np.array([r.gauss(0, 1) for _ in range(3)])
        v *= r.choice([0, 1e-9, 0.1, 1, 1, np.pi, np.pi - 1e-5, 3.1]) / (np.linalg.norm(v) or 1)
        out[b, :, :3] = rot(v)
        out[b, :, 3] = [r.gauss(0, 1) * r.choice([1, 1, 1e-7, 1e5]) for _ in range(3)]
    return out


class Tol:
    def __init__(self, *dts):
        lo = any(d == torch.float32 for d in dts)
        self.lin, self.rot = (2e-6, 3e-3) if lo else (1e-13, 1e-6)


def near(a, b, tol):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.maximum(np.abs(a), np.abs(b)) + 1e-12) + (tol if tol > 1e-9 else 0) * 1.0))


def num(x):
    return x.detach().to(torch.float64).numpy()


class Problem:
    soft = ()

    def refusal(self, exc):
        """name of the recorded defect (known_findings.json) that makes the library refuse this intact file, if that is what happened"""


class G2O3(Problem):
    """a pose graph in memory; a save of dataset item n goes to <name>_<n>.g2o"""

    def __init__(self, p):
        r = Rng(p["s"])
        self.dt = getattr(torch, p["dt"])
        n = self.n = p["n"]
        nv, ne = p["nv"], p["ne"]
        if p["synth"]:
            np.random.seed(r.randrange(2**31))
            torch.manual_seed(r.randrange(2**31))
            self.ds, _ = pgd.PoseGraphDataset.generate_synthetic_3D(max(nv, 2), dataset_size=n, dtype=self.dt, batch_size=p["bs"], generator=torch.Generator().manual_seed(1))
        else:
            mk = lambda nm: th.SE3(tensor=torch.as_tensor(rpose(r, n)).to(self.dt), name=nm, disable_checks=True)
            poses = [mk(f"VERTEX_SE3__{i}") for i in range(nv)]
            edges = []
            for e in range(ne):
                w = torch.tensor([[r.choice([0.5, 1.0, 30.0, 1e-3, 0.0, 7.3]) * (1 + r.random()) for _ in range(6)] for _ in range(n if p["wb"] else 1)], dtype=self.dt)
                edges.append(pgd.PoseGraphEdge(r.randrange(nv), r.randrange(nv), mk(f"EDGE__{e}"), th.DiagonalCostWeight(th.Variable(w), name=f"W__{e}")))
            self.ds = pgd.PoseGraphDataset(poses, edges, batch_size=p["bs"])
        self.bi = None
        if p["batch"]:
            self.bi = r.randrange(self.ds.num_batches)
        self.full = [(e.i, e.j, num(e.relative_pose.tensor), num(e.weight.diagonal.tensor)) for e in self.ds.edges], [num(q.tensor) for q in self.ds.poses]

    def items(self):
        n0, n1 = (0, self.n) if self.bi is None else (self.bi * self.ds.batch_size, min((self.bi + 1) * self.ds.batch_size, self.n))
        return list(range(n0, n1))

    def files(self, name):
        return [f"{ROOT}{name}_{k}.g2o" for k in range(len(self.items()))]

    def save(self, fs, name):
        ds = self.ds if self.bi is None else self.ds.get_batch_dataset(self.bi)
        ds.write_3D_g2o(ROOT + name)

    def snap(self):
        return [q.tensor.clone() for q in self.ds.poses] + [e.relative_pose.tensor.clone() for e in self.ds.edges] + [e.weight.diagonal.tensor.clone() for e in self.ds.edges]

    def load(self, path, dt):
        return pgd.read_3D_g2o_file(path, dt)

    def lines(self, k):
        """(records before the end of the text, what each must be)"""
        b = self.items()[k]
        E, V = self.full
        return [("e", i, j, z[b], w[b if len(w) > 1 else 0], w[0]) for i, j, z, w in E] + [("v", i, q[b]) for i, q in enumerate(V)]

    def compare(self, got, recs, part, dt):
        nv, verts, edges = got
        t = Tol(self.dt, dt)
        E, V = [r for r in recs if r[0] == "e"], [r for r in recs if r[0] == "v"]
        opt = len(edges) - len(E), len(verts) - len(V)
        if part is not None and opt == (1, 0) and part[0] == "e" and not V:
            E = E + [part]
        elif part is not None and opt == (0, 1) and part[0] == "v":
            V = V + [part]
        elif opt != (0, 0):
            return f"{len(edges)} edges and {len(verts)} poses instead of {len(E)} and {len(V)}"
        last = part is not None and opt != (0, 0)
        ids = [x for r in E for x in (r[1], r[2])] + [r[1] for r in V]
        if nv == 1 and not ids:
            self.soft.append(("empty-file-has-a-pose", "a file without records has one pose"))
        elif nv != (max(ids) + 1 if ids else 0):
            return f"number of poses {nv}, largest id {max(ids) if ids else None}"
        for k, (e, r) in enumerate(zip(edges, E)):
            lst = last and opt == (1, 0) and k == len(E) - 1
            z, w = num(e.relative_pose.tensor)[0], num(e.weight.diagonal.tensor)[0]
            if (e.i, e.j) != (r[1], r[2]):
                return f"edge {k} joins {(e.i, e.j)} instead of {(r[1], r[2])}"
            if not near(z[:, :3], r[3][:, :3], t.rot) or not near(z[:, 3], r[3][:, 3], max(t.lin, 1e-12)):
                return f"edge {k} measures {z.tolist()} instead of {r[3].tolist()}"
            m = 5 if lst else 6
            wtol = max(10 * t.lin, 1e-12)
            if near(w[:m] ** 2, r[5][:m] ** 2, wtol) and not near(w[:m] ** 2, r[4][:m] ** 2, wtol):
                self.soft.append(("first-graph-weights", f"edge {k} has the weight of the first graph of its batch"))
            elif not near(w[:m] ** 2, r[4][:m] ** 2, wtol):
                return f"edge {k} weighs {w.tolist()} instead of {r[4].tolist()}"
        for k, (v, r) in enumerate(zip(verts, V)):
            z = num(v.tensor)[0]
            lst = last and opt == (0, 1) and k == len(V) - 1
            if not (lst or near(z[:, :3], r[2][:, :3], t.rot)) or not near(z[:, 3], r[2][:, 3], max(t.lin, 1e-12)):
                return f"pose {k} is {z.tolist()} instead of {r[2].tolist()}"
        dts = {v.tensor.dtype for v in verts} | {e.relative_pose.tensor.dtype for e in edges}
        if dts - {dt or torch.float64}:
            return f"dtypes {dts}, asked for {dt}"


class G2O2(G2O3):
    """2D pose graphs have no writer in the library; the harness writes the published format"""

    def __init__(self, p):
        r = Rng(p["s"])
        self.dt, self.n, self.bi = torch.float64, 1, None
        P = lambda: np.array([r.gauss(0, 1) * r.choice([1, 1e4]), r.gauss(0, 1), r.choice([r.uniform(-3.1, 3.1), 0.0, 3.14159])])
        self.E = [(r.randrange(p["nv"]), r.randrange(p["nv"]), P(), np.array([r.uniform(0.1, 50) for _ in range(3)])) for _ in range(p["ne"])]
        self.V = [(i, P()) for i in range(p["nv"])] if p["synth"] else []

    def files(self, name):
        return [f"{ROOT}{name}.g2o"]

    def snap(self):
        return []

    def save(self, fs, name):
        with open(self.files(name)[0], "w") as f:
            for i, j, z, w in self.E:
                f.write(f"EDGE_SE2 {i} {j} {z[0]!r} {z[1]!r} {z[2]!r} {w[0] ** 2!r} 0 0 {w[1] ** 2!r} 0 {w[2] ** 2!r}\n".replace("np.float64(", "").replace(")", ""))
            for i, z in self.V:
                f.write(f"VERTEX_SE2 {i} {z[0]!r} {z[1]!r} {z[2]!r}\n".replace("np.float64(", "").replace(")", ""))

    def refusal(self, exc):
        return "edges-2d-refused" if self.E and isinstance(exc, TypeError) else None

    def load(self, path, dt):
        return pgd.read_2D_g2o_file(path, dt)

    def lines(self, k):
        return [("e", i, j, z, w) for i, j, z, w in self.E] + [("v", i, z) for i, z in self.V]

    def compare(self, got, recs, part, dt):
        # as 3D poses (rotation about z), the torn last number of a record then being its angle or last weight
        nv, verts, edges = got
        up = lambda p: np.concatenate([np.array([[p[2], -p[3], 0], [p[3], p[2], 0], [0, 0, 1]]), np.array([[p[0]], [p[1]], [0]])], 1)
        ang = lambda z: np.array([z[0], z[1], np.cos(z[2]), np.sin(z[2])])
        w6 = lambda w: np.concatenate([[1, 1, 1], w])

        class O:
            pass

        def obj(**k):
            o = O()
            o.__dict__.update(k)
            return o

        var = lambda x, like: obj(tensor=torch.as_tensor(x)[None].to(like.dtype))
        E = [obj(i=e.i, j=e.j, relative_pose=var(up(num(e.relative_pose.tensor)[0]), e.relative_pose.tensor),
                 weight=obj(diagonal=var(w6(num(e.weight.diagonal.tensor)[0]), e.weight.diagonal.tensor))) for e in edges]
        V = [var(up(num(v.tensor)[0]), v.tensor) for v in verts]
        R = lambda r: ("e", r[1], r[2], up(ang(r[3])), w6(r[4]), w6(r[4])) if r[0] == "e" else ("v", r[1], up(ang(r[2])))
        return super().compare((nv, V, E), [R(r) for r in recs], part and R(part), dt)


class BAL(Problem):
    def __init__(self, p):
        r = Rng(p["s"])
        self.gt = p["synth"]
        nc, npt = p["nv"], max(p["ne"], 1)
        if p["synth"]:
            torch.manual_seed(r.randrange(2**31))
            nc = max(nc, 2)
            self.ds = bad.BundleAdjustmentDataset.generate_synthetic(nc, npt + 3, average_track_length=3)
        else:
            P = lambda n: [r.gauss(0, 1) * r.choice([1, 1e-5, 1e3]) for _ in range(n)]
            rv = lambda: [r.choice([0.0, 1e-3, 1.0, 1.7]) * r.uniform(-1, 1) for _ in range(3)]
            cams = [bad.Camera.from_params(rv() + P(3) + [r.uniform(500, 1500)] + P(2), name=f"Cam{i}") for i in range(nc)]
            pts = [th.Point3(tensor=torch.tensor([P(3)], dtype=torch.float64), name=f"Pt{i}") for i in range(npt)]
            obs = [bad.Observation(r.randrange(nc), r.randrange(npt), th.Point2(tensor=torch.tensor([P(2)], dtype=torch.float64), name=f"F{k}")) for k in range(p["nobs"])]
            self.ds = bad.BundleAdjustmentDataset(cams, pts, obs)
        self.view = self.flat(self.ds.cameras, self.ds.points, self.ds.observations)
        self.gtview = self.flat(self.ds.gt_cameras, self.ds.gt_points, self.ds.observations) if self.gt else None

    def flat(self, cams, pts, obs):
        o = [np.array([int(x.camera_index), int(x.point_index)] + list(num(x.image_feature_point.tensor)[0])) for x in obs]
        c = [(num(c.pose.tensor)[0], num(c.focal_length.tensor)[0, 0], num(c.calib_k1.tensor)[0, 0], num(c.calib_k2.tensor)[0, 0]) for c in cams]
        return o, c, [num(x.tensor)[0] for x in pts]

    def files(self, name):
        return [f"{ROOT}{name}.bal"] + ([f"{ROOT}{name}_gt.bal"] if self.gt else [])

    def save(self, fs, name):
        self.ds.save_to_file(*self.files(name))

    def snap(self):
        f = self.flat(self.ds.cameras, self.ds.points, self.ds.observations)
        return [torch.as_tensor(x) for x in f[0] + f[2] + [c[0] for c in f[1]]]

    def load(self, path, dt):
        if path.endswith("_gt.bal"):
            ds = bad.BundleAdjustmentDataset.load_from_file(path.replace("_gt.bal", ".bal"), path)
            return ds
        if self.gt:
            return bad.BundleAdjustmentDataset.load_from_file(path)
        return bad.BundleAdjustmentDataset(*bad.BundleAdjustmentDataset.load_bal_dataset(path))

    def cmp1(self, got, want, last, what):
        for nm, a, b in zip(("observations", "cameras", "points"), got, want):
            if len(a) != len(b):
                return f"{what}: {len(a)} {nm} instead of {len(b)}"
        for k, (a, b) in enumerate(zip(got[0], want[0])):
            if not near(a, b, 1e-13):
                return f"{what}: observation {k} is {a} instead of {b}"
        for k, (a, b) in enumerate(zip(got[1], want[1])):
            if not near(a[0], b[0], 1e-7) or not near(a[1:], b[1:], 1e-13) or not near(a[0][:, 3], b[0][:, 3], 1e-13):
                return f"{what}: camera {k} is {a} instead of {b}"
        for k, (a, b) in enumerate(zip(got[2], want[2])):
            m = 2 if last and k == len(want[2]) - 1 else 3
            if not near(a[:m], b[:m], 1e-13):
                return f"{what}: point {k} is {a} instead of {b}"

    def judge(self, got, k, torn, whole):
        """whole: every record is there (perhaps with its last number torn)"""
        if not whole:
            return "a file with records missing was accepted"
        last = torn
        if k == 1:
            a, b = got.gt_cameras, got.gt_points
            if a and isinstance(a[0], th.Point3) or b and not isinstance(b[0], th.Point3):
                self.soft.append(("ground-truth-swapped", "ground-truth cameras and points have changed places"))
                a, b = b, a
            return self.cmp1(self.flat(a, b, got.observations), self.gtview, last, "ground truth") or \
                self.cmp1(self.flat(got.cameras, got.points, got.observations), self.view, self.other_torn, "data")
        return self.cmp1(self.flat(got.cameras, got.points, got.observations), self.view, last, "data")


class URDF(Problem):
    def __init__(self, p):
        self.r = robots.gen(Rng(p["s"]), 6)
        self.vend = p["synth"]

    def files(self, name):
        return [f"{ROOT}{name}.urdf"]

    def snap(self):
        return []

    def save(self, fs, name):
        with open(self.files(name)[0], "w") as f:
            f.write(robots.urdf(self.r, name))

    def load(self, path, dt):
        with robots.parser(self.vend):
            return torchkin.Robot.from_urdf_file(path, dtype=dt)

    def judge(self, got, k, torn, whole):
        if not whole:
            return "a torn robot description was accepted"
        r = self.r
        if {j.name for j in got.joints} != {j["n"] for j in r["joints"]} or {x.name for x in got.links} != set(r["links"]):
            return f"joints {[j.name for j in got.joints]} and links {[x.name for x in got.links]} instead of {r}"
        names = robots.jmap(got)
        qv = {n: Rng(7 + i).uniform(-2, 2) for i, n in enumerate(sorted(names))}
        fk, *_ = torchkin.get_forward_kinematics_fns(got, list(r["links"]))
        dt = got.dtype
        poses = fk(torch.tensor([[qv[n] for n in names]], dtype=dt)) if names else fk(torch.zeros(1, 0, dtype=dt))
        want = robots.fk(r, qv)
        for nm, x in zip(r["links"], poses):
            if not near(num(x)[0], np.asarray(want[nm])[:3], 1e-4 if dt == torch.float32 else 1e-7):
                return f"link {nm} at {num(x)[0].tolist()} instead of {np.asarray(want[nm])[:3].tolist()}"


class TAC(Problem):
    def __init__(self, p):
        r = Rng(p["s"])
        self.sdf = p["synth"]
        if self.sdf:
            gx, gy = r.randint(1, 5), r.randint(1, 5)
            self.d = dict(grid_data=[[r.gauss(0, 1) for _ in range(gx)] for _ in range(gy)], grid_size_x=gx, grid_size_y=gy, grid_res=r.random(), grid_origin_x=r.gauss(0, 1), grid_origin_y=r.gauss(0, 1))
        else:
            self.L = r.randint(2, 3)
            ep = []
            for e in range(r.randint(1, 3)):
                ep += [e * 10] * r.randint(max(1, self.L - (e > 0)), self.L + 3)
            n = len(ep)
            self.d = dict(obj_poses_2d=[[r.gauss(0, 1) for _ in range(3)] for _ in range(n)], ee_poses_2d=[[r.gauss(0, 1) for _ in range(3)] for _ in range(n)],
                          img_feats=[[r.gauss(0, 1) for _ in range(4)] for _ in range(n)], contact_episode=ep, contact_flag=[r.randrange(2) for _ in range(n)])

    def files(self, name):
        return [f"{ROOT}{name}.json"]

    def snap(self):
        return []

    def save(self, fs, name):
        with open(self.files(name)[0], "w") as f:
            json.dump(self.d, f)

    def load(self, path, dt):
        with contextlib.redirect_stdout(io.StringIO()):
            if self.sdf:
                return tac.TactilePushingDataset._load_tactile_sdf_from_file(path, torch.device("cpu"))
            return tac.TactilePushingDataset._load_dataset_from_file(path, self.L, 5, torch.device("cpu"))

    def refusal(self, exc):
        if not self.sdf and isinstance(exc, TypeError) and any(self.d["contact_episode"].count(x) == 1 for x in self.d["contact_episode"]):
            return "single-frame-episode-refused"

    def judge(self, got, k, torn, whole):
        if not whole:
            return "a torn JSON file was accepted"
        d = self.d
        if self.sdf:
            a, b, c = got
            if not (near(num(a)[0], d["grid_data"], 1e-13) and near(num(b).ravel(), [d["grid_res"]], 1e-6) and near(num(c).ravel(), [d["grid_origin_x"], d["grid_origin_y"]], 1e-6)):
                return f"{got} instead of {d}"
            return
        eps = [[i for i, x in enumerate(d["contact_episode"]) if x == e][: self.L] for e in sorted(set(d["contact_episode"]))]
        eps = [e for e in eps if len(e) == self.L]
        for key, src in (("obj_poses", "obj_poses_2d"), ("eff_poses", "ee_poses_2d"), ("img_feats", "img_feats"), ("contact_flag", "contact_flag"), ("contact_episode", "contact_episode")):
            if not near(num(got[key]), [[d[src][i] for i in e] for e in eps], 1e-6):
                return f"{key} is {got[key].tolist()}"


KINDS = dict(g2o3=G2O3, g2o2=G2O2, bal=BAL, urdf=URDF, tac=TAC)


# ------------------------------------------------------------------ generation
def gen_fault(rng, save):
    f = dict(s=rng.seed_int(), buf=rng.choice([1, 16, 100, 512, 8192]))
    if rng.p(0.5):
        f["chunk"] = rng.choice([1, 3, 17, 100, 1000])
    if rng.p(0.45):
        f["what"] = rng.choice(["eio", "eio", "interrupt"] + (["crash", "crash"] if save else []))
        f["at"] = rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 20, 50])
    if save and rng.p(0.25):
        f["room"] = rng.choice([0, 1, 10, 50, 200, 500, 1000, 3000])
    return f


def gen(rng, tier, i):
    probs = []
    for _ in range(rng.randint(1, 3)):
        probs.append(dict(k=rng.wchoice([("g2o3", 4), ("g2o2", 2), ("bal", 3), ("urdf", 2), ("tac", 1)]), s=rng.seed_int(), dt=rng.choice(["float64", "float64", "float32"]),
                          n=rng.choice([1, 1, 2, 3]), nv=rng.choice([1, 2, 3, 5, 5, 25]), ne=rng.choice([0, 1, 3, 6, 6, 60]), nobs=rng.choice([0, 1, 3, 6, 100]), synth=rng.p(0.4), wb=rng.p(0.3), batch=rng.p(0.3), bs=rng.choice([1, 1, 2])))
    ev = []
    for _ in range(rng.randint(4, 14)):
        o = rng.wchoice([("save", 4), ("load", 6), ("tear", 2.5), ("zero", 1)])
        e = dict(o=o, p=rng.randrange(len(probs)), f=rng.randrange(2), w=rng.randrange(4), dt=rng.choice([None, None, "float64", "float32"]), at=round(rng.random(), 5), edge=rng.choice([None, None, "line", "line-1", "end-1", "line+1"]))
        if o in ("save", "load") and rng.p(0.5):
            e["fault"] = gen_fault(rng, o == "save")
        ev.append(e)
    # a save first (without it there is nothing to read), a clean load last
    ev.insert(0, dict(o="save", p=ev[0]["p"], f=0, w=0, dt=None, at=0.0, edge=None))
    ev.append(dict(o="load", p=rng.randrange(len(probs)), f=rng.randrange(2), w=rng.randrange(4), dt=None, at=0.0, edge=None))
    return dict(probs=probs, ev=ev)


# ------------------------------------------------------------------ run
def run(case, ctx):
    fs = FS(ctx)
    with fs.mounted():
        _run(case, ctx, fs)


def fresh(P, name):
    """what a save of the problem leaves on a disk without faults"""
    class N:
        def fault(self, *a):
            pass

    f2 = FS(N())
    with f2.mounted():
        P.save(f2, name)
    return {k: bytes(v) for k, v in f2.files.items()}


def _run(case, ctx, fs):
    cls = [KINDS[p["k"]] for p in case["probs"]]
    probs = [c(p) for c, p in zip(cls, case["probs"])]
    text = {}  # (problem, name) -> {path: bytes of an undisturbed save}
    failed = False
    for n, e in enumerate(case["ev"]):
        ctx.step()
        P = probs[e["p"]]
        kind = case["probs"][e["p"]]["k"]
        name = f"p{e['p']}f{e['f']}"
        paths = P.files(name)
        path = paths[e["w"] % len(paths)]
        if (e["p"], name) not in text:
            text[e["p"], name] = fresh(P, name)
            if set(text[e["p"], name]) != set(paths):
                ctx.violate("files-differ", f"a save wrote {sorted(text[e['p'], name])} instead of {sorted(paths)}", problem=kind)
                return
        T = text[e["p"], name]
        exc = None
        fs.arm(e.get("fault"))
        if e["o"] == "save":
            before = P.snap()
            try:
                P.save(fs, name)
            except (Exception, SimInterrupt, SimCrash) as x:
                exc = x
            fired = fs.fired
            fs.arm(None)
            ctx.ev(n, "save", kind, type(exc).__name__, [len(fs.files.get(q, b"")) for q in paths])
            ctx.state("save", kind, fired, exc is not None)
            if any(not torch.equal(a, b) for a, b in zip(before, P.snap())):
                ctx.violate("save-changes-problem", f"event {n}: the saved problem was changed by the save", problem=kind)
                return
            if exc is None:
                for q in paths:
                    if bytes(fs.files.get(q, b"")) != T[q]:
                        ctx.violate("save-silently-incomplete", f"event {n}: save returned normally, but {q} holds {len(fs.files.get(q, b''))} of {len(T[q])} bytes (fault: {fired})", problem=kind, fault=fired)
                        return
                if fired:
                    ctx.violate("save-hides-failure", f"event {n}: a save during which storage failed ({fired}) returned normally", problem=kind, fault=fired)
                    return
            else:
                failed = True
                if not fired:
                    ctx.violate("save-refused", f"event {n}: a save on good storage raised {type(exc).__name__}: {exc}", problem=kind)
                    return
            continue
        if e["o"] in ("tear", "zero"):
            if path not in fs.files:
                continue
            d = fs.files[path]
            if not d:
                continue
            k = int(e["at"] * (len(d) + 1))
            if e["edge"] and e["edge"].startswith("line"):
                nl = [i + 1 for i, c in enumerate(d) if c == 10]
                if nl:
                    k = nl[int(e["at"] * len(nl))] + dict(line=0).get(e["edge"], -1 if e["edge"] == "line-1" else 1)
            elif e["edge"] == "end-1":
                k = len(d) - 1
            k = max(0, min(len(d), k))
            tail = len(d) - k
            del d[k:]
            if e["o"] == "zero":
                d.extend(bytes(tail))
            ctx.fault("torn_file" if e["o"] == "tear" else "zero_filled_tail")
            ctx.ev(n, e["o"], kind, k)
            continue
        # load
        if path not in fs.files:
            exists = False
        else:
            exists = True
        dt = e["dt"] and getattr(torch, e["dt"])
        got = None
        try:
            got = P.load(path, dt)
        except (Exception, SimInterrupt, SimCrash) as x:
            exc = x
        fired = fs.fired
        fs.arm(None)
        cur = {q: bytes(fs.files[q]) if q in fs.files else None for q in paths}
        ctx.ev(n, "load", kind, type(exc).__name__ if exc else "ok", len(cur[path] or b""))
        used = [path] + ([paths[0]] if kind == "bal" and path.endswith("_gt.bal") else [])
        intact = all(cur[q] == T[q] for q in used)
        ctx.state("load", kind, fired, intact, exc is not None)
        if not intact and exists:
            ctx.nontriv = True
        if exc is not None:
            failed = True
            if intact and not fired:
                known = P.refusal(exc)
                if known:
                    ctx.violate(known, f"event {n}: {type(exc).__name__}: {exc}", problem=kind)
                    continue
                ctx.violate("intact-file-refused", f"event {n}: loading an intact file raised {type(exc).__name__}: {exc}", problem=kind)
                return
            continue
        if fired:
            ctx.violate("load-hides-failure", f"event {n}: a load during which storage failed ({fired}) returned normally", problem=kind, fault=fired)
            return
        if any(cur[q] is None for q in used):
            ctx.violate("missing-file-loaded", f"event {n}: a missing file was loaded", problem=kind)
            return
        if failed:
            ctx.nontriv = True

        def damage(q):
            """(length of the good part, torn inside a token, garbage follows)"""
            d, t = cur[q], T[q]
            good = d.rstrip(b"\0")
            if not t.startswith(good):
                return None
            k = len(good)
            return k, 0 < k < len(t) and not t[k - 1 : k].isspace() and not t[k : k + 1].isspace(), k < len(d)

        D = {q: damage(q) for q in used}
        if any(x is None for x in D.values()):
            raise AssertionError("harness: the file is not a prefix of a save")
        k, torn, nul = D[path]
        P.soft = []
        t = T[path]
        if kind in ("g2o3", "g2o2"):
            recs = P.lines(paths.index(path))
            full = t[:k].count(b"\n")
            part = None
            if full < len(recs) and k > 0 and t[k - 1 : k] != b"\n":
                line = t.split(b"\n")[full]
                done = t[:k].split(b"\n")[-1]
                if len(done.split()) == len(line.split()):
                    part = recs[full]
                    if done.split() == line.split() and not nul:
                        recs, part, full = recs, None, full + 1
            msg = P.compare(got, recs[:full], part, dt)
        else:
            if kind == "bal":
                P.other_torn = D[paths[0]][1]
                whole = all(len(T[q][: D[q][0]].split()) == len(T[q].split()) and not D[q][2] for q in used)
            else:
                whole = t[:k].rstrip() == t.rstrip() and not nul
            msg = P.judge(got, paths.index(path), torn, whole)
        for what, m in P.soft[:1]:
            ctx.violate(what, f"event {n}: {m}", problem=kind)
        if msg:
            ctx.violate("silently-wrong" if not intact else "roundtrip-differs", f"event {n}: {kind} file with {k} of {len(t)} bytes{' and a zero-filled tail' if nul else ''}: {msg}", problem=kind)
            return


def shrink(case):
    for i in range(len(case["ev"])):
        if len(case["ev"]) > 1:
            yield dict(case, ev=case["ev"][:i] + case["ev"][i + 1 :])
    for i, e in enumerate(case["ev"]):
        if e.get("fault"):
            yield dict(case, ev=case["ev"][:i] + [{k: v for k, v in e.items() if k != "fault"}] + case["ev"][i + 1 :])
            for k in ("chunk", "what", "room"):
                if k in e["fault"]:
                    yield dict(case, ev=case["ev"][:i] + [dict(e, fault={a: b for a, b in e["fault"].items() if a != k})] + case["ev"][i + 1 :])
    for i, p in enumerate(case["probs"]):
        for k, v in (("nv", 1), ("ne", 0), ("ne", 1), ("nobs", 0), ("n", 1), ("batch", False), ("wb", False)):
            if p[k] != v and (not isinstance(v, int) or isinstance(v, bool) or p[k] > v):
                yield dict(case, probs=case["probs"][:i] + [dict(p, **{k: v})] + case["probs"][i + 1 :])
