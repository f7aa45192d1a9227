"""C35: a multibody moves, weighs and is shaped as its URDF says."""
import importlib.util
import os

import numpy as np
import pinocchio as pin
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import arr, hom, inst, member_probes, moved, near, oracle, require, vec_of
from ..harness import Prop, Sub, Violation
from ..sdp import vec_matrices

_mod = None


def module():
    global _mod
    if _mod is None:
        root = os.path.dirname(os.path.abspath(rg.__file__))
        for p in (os.path.join(root, "multibody.py"), os.path.join(root, "unused", "multibody.py")):
            if os.path.exists(p):
                break
        spec = importlib.util.spec_from_file_location("rigeo.multibody", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mod = m
    return _mod


# ---- an independent model of the mechanism --------------------------------------

def rpy(a):
    (r, p, y) = a
    cr, sr, cp, sp, cy, sy = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    return np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]]) @ np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]) @ np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])


def skew(a):
    return np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])


def expm(axis, q):
    K = skew(axis)
    return np.eye(3) + np.sin(q) * K + (1 - np.cos(q)) * K @ K


AXES = {"x": [1, 0, 0], "y": [0, 1, 0], "z": [0, 0, 1], "-x": [-1, 0, 0], "-z": [0, 0, -1], "d": [0.6, 0, 0.8], "e": [2 / 3, -1 / 3, 2 / 3]}


class Mech:
    """The kinematic tree of a case, without pinocchio."""

    def __init__(self, case):
        self.case = case
        L = self.links = case["links"]
        rng = np.random.default_rng(case["seed"])
        self.parent = [0] + [L[i]["parent"] % i for i in range(1, len(L))]
        self.name = [f"l{x}" for x in rng.permutation(len(L))]
        self.jname = [None] + [f"j{x}" for x in rng.permutation(len(L))[1:]]
        self.J = []
        self.text = ['<robot name="r">']
        for i, l in enumerate(L):
            s = f'<link name="{self.name[i]}">'
            J = np.zeros((4, 4))
            if l["m"]:
                X = rng.normal(size=(3, 3)) * 0.4
                H = l["m"] * (X @ X.T + 0.01 * np.eye(3))
                I = np.trace(H) * np.eye(3) - H
                c, a = np.round(rng.normal(size=3) * 0.5, 3), np.array(l["rpy"]) / 3 + 0.1
                T = hom(rpy(a), c)
                G = np.zeros((4, 4))
                G[:3, :3], G[3, 3] = H, l["m"]
                J = T @ G @ T.T
                s += f'<inertial><origin xyz="{v(c)}" rpy="{v(a)}"/><mass value="{float(l["m"])!r}"/><inertia ixx="{n(I[0, 0])}" ixy="{n(I[0, 1])}" ixz="{n(I[0, 2])}" iyy="{n(I[1, 1])}" iyz="{n(I[1, 2])}" izz="{n(I[2, 2])}"/></inertial>'
            self.J.append(J)
            for g in l["geoms"]:
                k = {"box": lambda: f'<box size="{v(2 * np.array(g["s"]))}"/>', "sphere": lambda: f'<sphere radius="{n(g["s"][0])}"/>', "cylinder": lambda: f'<cylinder radius="{n(g["s"][0])}" length="{n(2 * g["s"][1])}"/>'}[g["k"]]()
                s += f'<collision><origin xyz="{v(g["xyz"])}" rpy="{v(g["rpy"])}"/><geometry>{k}</geometry></collision>'
            self.text.append(s + "</link>")
        order = rng.permutation(np.arange(1, len(L)))
        for i in order:
            l = L[i]
            lim = '<limit effort="100" velocity="100" lower="-50" upper="50"/>' if l["j"] in ("revolute", "prismatic") else ""
            self.text.append(f'<joint name="{self.jname[i]}" type="{l["j"]}"><parent link="{self.name[self.parent[i]]}"/><child link="{self.name[i]}"/><origin xyz="{v(l["xyz"])}" rpy="{v(l["rpy"])}"/>'
                             + (f'<axis xyz="{v(AXES[l["axis"]])}"/>' if l["j"] != "fixed" else "") + lim + "</joint>")
        self.text.append("</robot>")
        self.urdf = "\n".join(self.text)
        # link that carries the joint frame of each link, and the fixed transform to it
        self.lead, self.T = [0], [np.eye(4)]
        for i in range(1, len(L)):
            if L[i]["j"] == "fixed":
                p = self.parent[i]
                self.lead.append(self.lead[p])
                self.T.append(self.T[p] @ hom(rpy(L[i]["rpy"]), np.array(L[i]["xyz"], float)))
            else:
                self.lead.append(i)
                self.T.append(np.eye(4))

    def motion(self, mb, q, qd, qdd):
        """Pose, Jacobians and classical accelerations of every link, in the world."""
        nv = mb.nv
        out = []
        for i, l in enumerate(self.links):
            if i == 0:
                z = np.zeros(3)
                if self.case["root"]:
                    x, y, w_, s = q[3:7]
                    R = np.array([[1 - 2 * (y * y + w_ * w_), 2 * (x * y - w_ * s), 2 * (x * w_ + y * s)],
                                  [2 * (x * y + w_ * s), 1 - 2 * (x * x + w_ * w_), 2 * (y * w_ - x * s)],
                                  [2 * (x * w_ - y * s), 2 * (y * w_ + x * s), 1 - 2 * (x * x + y * y)]])
                    Jv, Jw = np.zeros((3, nv)), np.zeros((3, nv))
                    Jv[:, :3], Jw[:, 3:6] = R, R
                    a = R @ (qdd[:3] + np.cross(qd[3:6], qd[:3]))
                    out.append((R, q[:3].copy(), Jv, Jw, a, R @ qdd[3:6]))
                else:
                    out.append((np.eye(3), z, np.zeros((3, nv)), np.zeros((3, nv)), z, z))
                continue
            R, p, Jv, Jw, a, al = out[self.parent[i]]
            Rj = R @ rpy(l["rpy"])
            r = R @ np.array(l["xyz"], float)
            ax = Rj @ np.array(AXES[l["axis"]], float)
            w = Jw @ qd
            Rn, Jwn, aln = Rj, Jw.copy(), al
            slide, acc = np.zeros((3, nv)), np.zeros(3)
            if l["j"] != "fixed":
                j = mb.model.joints[mb.get_joint_index(self.jname[i])]
                k = j.idx_v
                if l["j"] == "prismatic":
                    r = r + ax * q[j.idx_q]
                    slide[:, k] = ax
                    acc = 2 * np.cross(w, ax) * qd[k] + ax * qdd[k]
                else:
                    t = q[j.idx_q] if l["j"] == "revolute" else np.arctan2(q[j.idx_q + 1], q[j.idx_q])
                    Rn = Rj @ expm(np.array(AXES[l["axis"]], float), t)
                    Jwn[:, k] += ax
                    aln = al + ax * qdd[k] + np.cross(w, ax) * qd[k]
            out.append((Rn, p + r, Jv - skew(r) @ Jw + slide, Jwn, a + np.cross(al, r) + np.cross(w, np.cross(w, r)) + acc, aln))
        return out

    def lumped(self, lead):
        return sum((self.T[i] @ self.J[i] @ self.T[i].T for i in range(len(self.links)) if self.lead[i] == lead), np.zeros((4, 4)))

    def shapes(self, lead):
        out = []
        for i, l in enumerate(self.links):
            if self.lead[i] != lead:
                continue
            for g in l["geoms"]:
                s = {"box": {"k": "box", "h": g["s"]}, "sphere": {"k": "ell", "h": [g["s"][0]] * 3}, "cylinder": {"k": "cyl", "L": 2 * g["s"][1], "r": g["s"][0]}}[g["k"]]
                T = self.T[i] @ hom(rpy(g["rpy"]), np.array(g["xyz"], float))
                out.append((g["k"], moved(oracle({**s, "R": None, "c": None}), T[:3, :3], T[:3, 3])))
        return out


def n(x):
    return repr(float(x))


def v(x):
    return " ".join(n(y) for y in x)


def wrench(J, R, a, al, w, g):
    """Force and moment about the frame's origin that move a body with matrix J."""
    m, h, H = J[3, 3], R @ J[:3, 3], R @ J[:3, :3] @ R.T
    I = np.trace(H) * np.eye(3) - H
    F = m * (a - g) + np.cross(al, h) + np.cross(w, np.cross(w, h))
    return F, np.cross(h, a - g) + I @ al + np.cross(w, I @ w)


def make(case, ctx):
    me = Mech(case)
    kinds = [l["j"] for l in case["links"][1:]]
    ctx.label(f"{len(kinds)} joints", "floating base" if case["root"] else "fixed base", *sorted(set(kinds)))
    if not case["root"] and all(k == "fixed" for k in kinds):
        ctx.trivial("no movable joint")
        return me, None
    g = case["g"]
    mb = module().MultiBody.from_urdf_string(me.urdf, root_joint=pin.JointModelFreeFlyer() if case["root"] else None,
                                             tool_link_name=me.name[-1] if case["tool"] else None, gravity=g)
    return me, mb


def state(mb, case, rng, rest=False):
    q = pin.randomConfiguration(mb.model, -np.ones(mb.nq), np.ones(mb.nq)) if False else pin.integrate(mb.model, pin.neutral(mb.model), rng.normal(size=mb.nv))
    return q, rng.normal(size=mb.nv) * (not rest), rng.normal(size=mb.nv) * (not rest)


def lead_index(mb, me, i):
    return (1 if me.case["root"] else 0) if i == 0 else mb.get_joint_index(me.jname[i])


def kinematics(case, ctx):
    me, mb = make(case, ctx)
    if mb is None:
        return
    RF = pin.ReferenceFrame
    rng = np.random.default_rng(case["seed"] + 1)
    held = []
    for step in range(2):
        old = q if step else None
        q, qd, qdd = state(mb, case, rng)
        if step and case.get("same"):
            q = old.copy()
        if step and case["partial"] == "q":
            qd, qdd = 0 * qd, 0 * qdd
            mb.compute_forward_kinematics(q)
        elif step and case["partial"] == "v":
            qdd = 0 * qdd
            mb.compute_forward_kinematics(q, v=qd)
        else:
            mb.compute_forward_kinematics(q, qd, qdd)
        M = me.motion(mb, q, qd, qdd)
        for i in range(len(me.links)):
            f = [me.name[i], mb.get_frame_index(me.name[i])][i % 2]
            if case["tool"] and i == len(me.links) - 1:
                f = None
            R, p, Jv, Jw, a, al = M[i]
            sc = 1 + np.abs(p).max() + np.abs(a).max() + np.abs(Jv).max() * (1 + np.abs(qd).max())
            what = f"link {i} of\n{me.urdf}\nat q={q.tolist()}: "
            pose = mb.get_frame_pose(f)
            require(isinstance(pose, tuple) and len(pose) == 2, "pose is not a pair")
            # the code returns the rotation first (the docstring names them the other way round)
            R1, p1 = (pose if np.ndim(pose[0]) == 2 else pose[::-1])
            near(arr(R1, (3, 3)), R, 0, 1e-9, what + "orientation")
            near(arr(p1, (3,)), p, 0, 1e-9 * sc, what + "position")
            held.append((R1, R, p1, p, sc))
            lin, ang = Jv @ qd, Jw @ qd
            V = [mb.get_frame_velocity(f)] + [mb.get_frame_velocity(f, expressed_in=e) for e in (RF.LOCAL, RF.LOCAL_WORLD_ALIGNED, RF.WORLD)]
            for (l, w), (l0, w0), e in zip(V, [(R.T @ lin, R.T @ ang)] * 2 + [(lin, ang), (lin - np.cross(ang, p), ang)], ("default", "local", "aligned", "world")):
                near(arr(l, (3,)), l0, 0, 1e-8 * sc, what + f"linear velocity ({e})")
                near(arr(w, (3,)), w0, 0, 1e-8 * sc, what + f"angular velocity ({e})")
            A = [mb.get_frame_classical_acceleration(f)] + [mb.get_frame_classical_acceleration(f, expressed_in=e) for e in (RF.LOCAL, RF.LOCAL_WORLD_ALIGNED)]
            for (l, w), (l0, w0), e in zip(A, [(R.T @ a, R.T @ al)] * 2 + [(a, al)], ("default", "local", "aligned")):
                near(arr(l, (3,)), l0, 0, 1e-8 * sc, what + f"linear classical acceleration ({e})")
                near(arr(w, (3,)), w0, 0, 1e-8 * sc, what + f"angular acceleration ({e})")
            sp = a - np.cross(ang, lin)
            A = [mb.get_frame_spatial_acceleration(f)] + [mb.get_frame_spatial_acceleration(f, expressed_in=e) for e in (RF.LOCAL, RF.LOCAL_WORLD_ALIGNED)]
            for (l, w), (l0, w0), e in zip(A, [(R.T @ sp, R.T @ al)] * 2 + [(sp, al)], ("default", "local", "aligned")):
                near(arr(l, (3,)), l0, 0, 1e-8 * sc, what + f"linear spatial acceleration ({e})")
                near(arr(w, (3,)), w0, 0, 1e-8 * sc, what + f"angular acceleration ({e})")
        for i in range(len(me.links)):
            R, p, Jv, Jw, a, al = M[i]
            f = me.name[i]
            if case["tool"] and i == len(me.links) - 1:
                f = None
            K = [mb.compute_frame_jacobian(q, f)] + [mb.compute_frame_jacobian(q, frame=f, expressed_in=e) for e in (RF.LOCAL, RF.LOCAL_WORLD_ALIGNED, RF.WORLD)]
            for k, (l0, w0), e in zip(K, [(R.T @ Jv, R.T @ Jw)] * 2 + [(Jv, Jw), (Jv - skew(p).T @ Jw, Jw)], ("default", "local", "aligned", "world")):
                near(arr(k).reshape(6, mb.nv), np.vstack((l0, w0)), 0, 1e-8 * sc, f"link {i} of\n{me.urdf}\nat q={q.tolist()}: Jacobian ({e})")
        # the world itself, by number and by name
        for f in (0, "universe"):
            R1, p1 = mb.get_frame_pose(f)
            require(np.allclose(arr(R1, (3, 3)), np.eye(3)) and np.allclose(arr(p1, (3,)), 0), f"pose of frame {f!r} is {R1.tolist()}, {p1.tolist()}")
            for l, w in (mb.get_frame_velocity(f), mb.get_frame_classical_acceleration(f), mb.get_frame_spatial_acceleration(f)):
                require(not np.any(l) and not np.any(w), f"frame {f!r} moves: {l.tolist()}, {w.tolist()}")
            require(not np.any(mb.compute_frame_jacobian(q, f)), f"Jacobian of frame {f!r} is not zero")
    for R1, R, p1, p, sc in held:
        require(np.allclose(R1, R, 0, 1e-9) and np.allclose(p1, p, 0, 1e-9 * sc), f"a pose returned before was changed by later calls\n{me.urdf}")


def dynamics(case, ctx):
    me, mb = make(case, ctx)
    if mb is None:
        return
    g = np.array([0, 0, -9.81] if case["g"] is None else case["g"], float)
    rng = np.random.default_rng(case["seed"] + 1)
    q, qd, qdd = state(mb, case, rng, rest=case["partial"] == "q")
    M = me.motion(mb, q, qd, qdd)
    nl = mb.nj - 1
    Y0 = np.zeros((mb.nv, 10 * nl))
    th = np.zeros(10 * nl)
    for i in range(len(me.links)):
        if me.lead[i] != i:
            continue
        j = lead_index(mb, me, i)
        if j == 0:
            continue
        R, p, Jv, Jw, a, al = M[i]
        for k, E in enumerate(vec_matrices()):
            F, N = wrench(E, R, a, al, Jw @ qd, g)
            Y0[:, 10 * (j - 1) + k] = Jv.T @ F + Jw.T @ N
        th[10 * (j - 1):10 * j] = vec_of(me.lumped(i))
    want = Y0 @ th
    sc = 1 + np.abs(Y0).max() * (1 + np.abs(th).sum())
    args = (q.copy(), qd.copy(), qdd.copy())
    tau = arr(mb.compute_joint_torques(q, qd, qdd), (mb.nv,), "joint torques").copy()
    near(tau, want, 0, 1e-9 * sc, f"joint torques of\n{me.urdf}\nat q={q.tolist()}, v={qd.tolist()}, a={qdd.tolist()}")
    Y = arr(mb.compute_joint_torque_regressor(q, qd, qdd), (mb.nv, 10 * nl), "joint torque regressor")
    near(Y, Y0, 0, 1e-9 * (1 + np.abs(Y0).max()), f"joint torque regressor of\n{me.urdf}\nat q={q.tolist()}, v={qd.tolist()}, a={qdd.tolist()}")
    Y2 = mb.compute_joint_torque_regressor(q, qd, qdd)
    require(np.array_equal(Y, Y2), "regressor differs when computed again")
    require(all(np.array_equal(x, y) for x, y in zip(args, (q, qd, qdd))), "arguments were changed")
    # the parameters of the bodies fit the regressor
    if all(j in mb.bodies for j in range(1, mb.nj)):
        ctx.label("all links have shapes")
        x = np.concatenate([b.params.vec for b in mb.get_bodies(range(1, mb.nj))])
        near(Y @ x, want, 0, 1e-9 * sc, f"regressor times the parameters of the bodies of\n{me.urdf}")


def history(case, ctx):
    """Queries answer for the state of the last compute_forward_kinematics, whatever was computed in between."""
    me, mb = make(case, ctx)
    if mb is None:
        return
    mbs = [mb, make(case, ctx)[1]]
    g = np.array([0, 0, -9.81] if case["g"] is None else case["g"], float)
    rng = np.random.default_rng(case["seed"] + 1)
    S = [state(mb, case, rng) for _ in range(3)]
    M = [me.motion(mb, *s) for s in S]
    RF = pin.ReferenceFrame
    at = [None, None]
    tau, done = {}, 0
    for op, k, b, i in case["ops"]:
        x, s, i = mbs[b], S[k], i % len(me.links)
        what = f"link {i} after {case['ops']} in\n{me.urdf}\n"
        f = [me.name[i], x.get_frame_index(me.name[i])][k % 2]
        if op == "fk":
            x.compute_forward_kinematics(*s)
            at[b] = k
        elif op == "torque":
            t = arr(x.compute_joint_torques(*s), (x.nv,))
            near(t, tau.setdefault(k, t.copy()), 1e-9, 1e-9 * (1 + np.abs(t).max()), "joint torques depend on what was computed before: " + what)
        elif op == "regressor":
            x.compute_joint_torque_regressor(*s)
        elif op == "jacobian":
            R, p, Jv, Jw, a, al = M[k][i]
            K = arr(x.compute_frame_jacobian(s[0], f)).reshape(6, x.nv)
            near(K, np.vstack((R.T @ Jv, R.T @ Jw)), 0, 1e-8 * (1 + np.abs(Jv).max()), what + "Jacobian")
        elif at[b] is not None:
            R, p, Jv, Jw, a, al = M[at[b]][i]
            qd = S[at[b]][1]
            done += 1
            sc = 1 + np.abs(p).max() + np.abs(a).max() + np.abs(Jv).max() * (1 + np.abs(qd).max())
            pose = x.get_frame_pose(f)
            R1, p1 = (pose if np.ndim(pose[0]) == 2 else pose[::-1])
            near(R1, R, 0, 1e-9, what + "orientation")
            near(p1, p, 0, 1e-9 * sc, what + "position")
            lin, ang = Jv @ qd, Jw @ qd
            for l, l0, n_ in zip(x.get_frame_velocity(f, expressed_in=RF.LOCAL_WORLD_ALIGNED) + x.get_frame_classical_acceleration(f, expressed_in=RF.LOCAL_WORLD_ALIGNED)
                                 + x.get_frame_spatial_acceleration(f, expressed_in=RF.LOCAL_WORLD_ALIGNED),
                                 (lin, ang, a, al, a - np.cross(ang, lin), al), ("linear velocity", "angular velocity", "classical acceleration", "angular acceleration", "spatial acceleration", "angular acceleration")):
                near(l, l0, 0, 1e-8 * sc, what + n_)
    ctx.label(f"{min(done, 4)} queries")
    if not done:
        ctx.trivial("no query")


def shared(case, ctx):
    """Multibodies built from one model (each with its gravity) do not disturb each other or the model."""
    me, mb = make(case, ctx)
    if mb is None:
        return
    rng = np.random.default_rng(case["seed"] + 1)
    model, gm = mb.model, mb.geom_model
    g0 = model.gravity.linear.copy()
    M = module().MultiBody
    all_ = [(mb, g0)]
    for g in case["gs"]:
        x = M(model, gm, gravity=None if g is None else (g if case["seed"] % 2 else np.array(g, float)))
        all_.append((x, g0 if g is None else np.array(g, float)))
        require(np.array_equal(model.gravity.linear, g0), f"building a multibody with gravity {g} changed the gravity of the model given from {g0.tolist()} to {model.gravity.linear.tolist()}")
    q, qd, qdd = state(mb, case, rng)
    mo = me.motion(mb, q, qd, qdd)
    own = {k: (x, [(b.params.vec.copy(), b.params.com.copy(), b.params.H.copy()) for b in x.bodies.values()]) for k, (x, _) in enumerate(all_)}

    def judge(when):
        for k in rng.permutation(len(all_)):
            x, g = all_[k]
            want = np.zeros(x.nv)
            mag = 1.0
            for i in range(len(me.links)):
                if me.lead[i] != i or not lead_index(x, me, i):
                    continue
                R, p, Jv, Jw, a, al = mo[i]
                F, N = wrench(me.lumped(i), R, a, al, Jw @ qd, g)
                want += Jv.T @ F + Jw.T @ N
                mag += (np.abs(Jv).max() + np.abs(Jw).max()) * (np.abs(F).max() + np.abs(N).max())
            near(arr(x.compute_joint_torques(q, qd, qdd), (x.nv,)), want, 0, 1e-9 * mag, f"{when}: joint torques of multibody {k} (gravities {[y[1].tolist() for y in all_]}) of\n{me.urdf}\nat q={q.tolist()}")
    judge("after building all")
    if case["edit"]:
        # the bodies are the user's, the model is the multibody's
        ctx.label("bodies edited")
        for x, _ in all_[1:]:
            for b in x.bodies.values():
                b.params.com += 1.0
                b.params.H *= 2.0
        judge("after editing the parameters of the bodies")
        require(all(np.array_equal(b.params.vec, o[0]) for b, o in zip(mb.bodies.values(), own[0][1])), "editing the bodies of one multibody changed those of another")
    else:
        ctx.label("model edited")
        for j in range(1, model.njoints):
            I = model.inertias[j]
            I.lever = I.lever + 1.0
            model.inertias[j] = I
        for k, (x, o) in own.items():
            for b, (v_, c_, H_) in zip(x.bodies.values(), o):
                require(np.array_equal(b.params.com, c_) and np.array_equal(b.params.H, H_) and np.array_equal(b.params.vec, v_), f"editing the model changed the parameters of a body of multibody {k} that was built before")
    if all(g is None for g in case["gs"]):
        ctx.trivial("no gravity given")


def bodies(case, ctx):
    me, mb = make(case, ctx)
    if mb is None:
        return
    with_shapes = {}
    for i in range(len(me.links)):
        if me.lead[i] == i and me.shapes(i):
            with_shapes[lead_index(mb, me, i)] = i
    require(set(mb.bodies) == set(with_shapes), f"bodies for joints {sorted(mb.bodies)}, shapes are on {sorted(with_shapes)} in\n{me.urdf}")
    for j, i in with_shapes.items():
        name = "root_joint" if i == 0 else me.jname[i]
        b = mb.bodies[j]
        for r in ([j], [name]) if j else ([j],):
            require(mb.get_bodies(r)[0] is b, f"get_bodies({r}) is another body")
        inst(b, rg.RigidBody, "body")
        what = f"body of joint {j} in\n{me.urdf}\n"
        want = me.shapes(i)
        require(len(b.shapes) == len(want), what + f"has {len(b.shapes)} shapes, not {len(want)}")
        left = list(b.shapes)
        for k, o in want:
            P, inside = member_probes(o, case["seed"])
            cls = {"box": rg.Box, "sphere": rg.Ellipsoid, "cylinder": rg.Cylinder}[k]
            fit = [s for s in left if isinstance(s, cls) and np.array_equal(np.asarray(s.contains(P), bool), inside)]
            require(fit, what + f"has no shape for the {k} at {o.c.tolist()}")
            left.remove(fit[0])
        if j or case["root"]:
            J = me.lumped(i)
            sc = 1 + np.abs(J).max()
            near(arr(b.params.vec, (10,)), vec_of(J), 0, 1e-9 * sc, what + "parameters")
            near(arr(b.params.J, (4, 4)), J, 0, 1e-9 * sc, what + "pseudo-inertia")
    order = [j for j in with_shapes]
    np.random.default_rng(case["seed"]).shuffle(order)
    got = mb.get_bodies(order)
    require(len(got) == len(order) and all(x is mb.bodies[j] for x, j in zip(got, order)), "get_bodies returns another order")
    for f, known in ((mb.get_joint_index, me.jname[1:]), (mb.get_frame_index, me.name)):
        for x in known:
            if f == mb.get_joint_index and me.links[me.jname.index(x)]["j"] == "fixed":
                continue
            y = f(x)
            require(isinstance(y, int) and (mb.model.names[y] if f == mb.get_joint_index else mb.model.frames[y].name) == x, f"index of {x} is {y}")
        try:
            y = f("nobody")
        except ValueError:
            continue
        raise Violation(f"an unknown name has index {y}")


_a = st.integers(-12, 12).map(lambda k: k / 8)
_ang = st.one_of(st.just(0.0), st.integers(-12, 12).map(lambda k: k / 4))
_xyz = st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(_a, min_size=3, max_size=3))
_rpy = st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(_ang, min_size=3, max_size=3))
_geom = gen.fd(k=st.sampled_from(["box", "sphere", "cylinder"]), s=st.lists(st.integers(1, 12).map(lambda k: k / 8), min_size=3, max_size=3), xyz=_xyz, rpy=_rpy)
_link = gen.fd(parent=st.integers(0, 7), j=st.sampled_from(["revolute", "revolute", "prismatic", "continuous", "fixed"]), xyz=_xyz, rpy=_rpy, axis=st.sampled_from(sorted(AXES)),
               m=st.sampled_from([0, 0.5, 1, 2.5]), geoms=st.lists(_geom, min_size=0, max_size=2))
_g = st.one_of(st.none(), st.sampled_from([[0.0, 0.0, 0.0], [0, 0, -10]]), st.lists(_a, min_size=3, max_size=3))


def _case():
    return gen.fd(links=st.lists(_link, min_size=2, max_size=7), root=st.booleans(), tool=st.booleans(), g=_g, partial=st.sampled_from(["all", "all", "q", "v"]), same=st.booleans(), seed=gen.seeds)


def _hist():
    op = st.tuples(st.sampled_from(["fk", "torque", "regressor", "jacobian", "query", "query"]), st.integers(0, 2), st.integers(0, 1), st.integers(0, 6)).map(list)
    return gen.fd(links=st.lists(_link, min_size=2, max_size=5), root=st.booleans(), tool=st.booleans(), g=_g, seed=gen.seeds,
                  ops=st.lists(op, min_size=3, max_size=10).map(lambda o: [["fk", 0, 0, 0]] + o))


def _shared():
    return gen.fd(links=st.lists(_link, min_size=2, max_size=5), root=st.booleans(), tool=st.booleans(), g=_g, gs=st.lists(_g, min_size=1, max_size=3), edit=st.booleans(), seed=gen.seeds)


PROP = Prop("C35", [
    Sub("kinematics", _case, kinematics, 600, 10000, rule="random trees of revolute, prismatic, continuous and fixed joints, fixed or floating base, two states in a row"),
    Sub("dynamics", _case, dynamics, 1000, 16000, rule="joint torques and every column of the regressor from Newton-Euler equations of each link"),
    Sub("history", _hist, history, 500, 8000, rule="kinematics, torques, regressors and Jacobians of three states on two multibodies in any order; non-trivial with a query after kinematics"),
    Sub("shared", _shared, shared, 300, 5000, rule="two or three multibodies of one model, at least one with its own gravity"),
    Sub("bodies", _case, bodies, 600, 10000, rule="shapes and lumped parameters of every joint"),
], assumptions=["pinocchio parses the URDF and orders joints and coordinates; its numbers are checked against an independent model",
                "parameters of links fixed to the world are not judged", "the module is loaded from src/rigeo/unused/multibody.py"])
