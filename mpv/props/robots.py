"""Random robot descriptions and their forward kinematics."""
import os
import xml.etree.ElementTree as ET

import numpy as np

UR5 = "/repo/examples/data/urdf/ur5.urdf"
UR5_JOINTS = ["ur5_shoulder_pan_joint", "ur5_shoulder_lift_joint",
              "ur5_elbow_joint", "ur5_wrist_1_joint", "ur5_wrist_2_joint",
              "ur5_wrist_3_joint"]


def numbers(x):
    return " ".join("%.17g" % v for v in x)


def rpy(r, p, y):
    """Rotation about fixed x, then y, then z."""
    cr, sr, cp, sp, cy, sy = (np.cos(r), np.sin(r), np.cos(p), np.sin(p),
                              np.cos(y), np.sin(y))
    X = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
    Y = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    Z = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
    return Z.dot(Y).dot(X)


def rotation(axis, angle):
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]],
                  [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * K.dot(K)


def pose(R, p):
    H = np.eye(4)
    H[:3, :3], H[:3, 3] = R, p
    return H


def angle_between(A, B):
    """Angle of the rotation from A to B, accurate everywhere."""
    R = A.T.dot(B)
    s = 0.5 * np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0],
                              R[1, 0] - R[0, 1]])
    return np.arctan2(s, 0.5 * (np.trace(R) - 1.0))


class Robot:
    """A tree of links, read from its own XML text."""
    def __init__(self, text):
        self.text = text
        root = ET.fromstring(text.strip())
        self.name = root.attrib["name"]
        self.links = [e.attrib["name"] for e in root.findall("link")]
        self.joints = {}
        for e in root.findall("joint"):
            o = e.find("origin")
            o = {} if o is None else o.attrib
            xyz = np.array([float(v) for v in o.get("xyz", "0 0 0").split()])
            ang = [float(v) for v in o.get("rpy", "0 0 0").split()]
            axis = e.find("axis")
            axis = np.array([1.0, 0, 0]) if axis is None else np.array(
                [float(v) for v in axis.attrib["xyz"].split()])
            lim = e.find("limit")
            lim = {} if lim is None else lim.attrib
            self.joints[e.attrib["name"]] = dict(
                type=e.attrib["type"], parent=e.find("parent").attrib["link"],
                child=e.find("child").attrib["link"],
                origin=pose(rpy(*ang), xyz),
                axis=axis / max(np.linalg.norm(axis), 1e-300),
                limits=(float(lim.get("lower", -np.inf)),
                        float(lim.get("upper", np.inf))))
        self.up = {j["child"]: n for n, j in self.joints.items()}

    def movable(self):
        return [n for n, j in self.joints.items() if j["type"] != "fixed"]

    def ancestors(self, link):
        """Joints from the link up to the root."""
        out = []
        while link in self.up:
            n = self.up[link]
            out.append(n)
            link = self.joints[n]["parent"]
        return out

    def path(self, a, b):
        """Joints between two links."""
        if a == self.name:
            a = self.root()
        if b == self.name:
            b = self.root()
        return set(self.ancestors(a)) ^ set(self.ancestors(b))

    def root(self):
        return [k for k in self.links if k not in self.up][0]

    def to_root(self, link, values):
        H = np.eye(4)
        for n in self.ancestors(link):
            j = self.joints[n]
            J = np.eye(4)
            if j["type"] != "fixed":
                v = min(max(values[n], j["limits"][0]), j["limits"][1])
                if j["type"] == "prismatic":
                    J[:3, 3] = v * j["axis"]
                else:
                    J[:3, :3] = rotation(j["axis"], v)
            H = j["origin"].dot(J).dot(H)
        return H

    def forward(self, ee, base, values):
        """Transformation from ee to base frame."""
        A = self.to_root(ee, values)
        B = self.to_root(base, values)
        R = B[:3, :3].T
        inv = pose(R, -R.dot(B[:3, 3]))
        return inv.dot(A)

    def limits(self, names):
        out = np.array([self.joints[n]["limits"] for n in names], dtype=float)
        out = out.reshape(-1, 2)
        out[np.isneginf(out[:, 0]), 0] = -np.pi
        out[np.isposinf(out[:, 1]), 1] = np.pi
        return out


def random_robot(rng, chain=False, limits=True):
    n = int(rng.integers(1, 9))
    links = ["link_%d" % i for i in rng.permutation(n + 1)]
    names = ["joint_%d" % i for i in rng.permutation(n)]
    joints = []
    for i in range(n):
        k = i if chain or rng.random() < 0.6 else int(rng.integers(i + 1))
        t = rng.choice(["revolute", "continuous", "prismatic", "fixed"],
                       p=[0.4, 0.2, 0.25, 0.15])
        s = '<joint name="%s" type="%s">' % (names[i], t)
        if rng.random() < 0.9:
            o = ""
            if rng.random() < 0.9:
                o += ' xyz="%s"' % numbers(rng.normal(size=3) * 0.5)
            if rng.random() < 0.8:
                o += ' rpy="%s"' % numbers(rng.uniform(-np.pi, np.pi, 3))
            s += "<origin%s/>" % o
        s += '<parent link="%s"/><child link="%s"/>' % (links[k],
                                                        links[i + 1])
        if t != "fixed" and rng.random() < 0.9:
            axis = rng.normal(size=3)
            if rng.random() < 0.4:
                axis = np.eye(3)[rng.integers(3)] * rng.choice([-1.0, 1.0])
            elif rng.random() < 0.5:
                axis /= np.linalg.norm(axis)
            s += '<axis xyz="%s"/>' % numbers(axis)
        if t in ("revolute", "prismatic") and limits \
                and rng.random() < 0.8:
            f = 2.5 if t == "revolute" else 0.5
            lo, hi = -rng.uniform(-0.2, 1.0) * f, rng.uniform(0.3, 1.0) * f
            a = 'effort="1" velocity="1"'
            if rng.random() < 0.9:
                a += ' lower="%.17g"' % lo
            if rng.random() < 0.9:
                a += ' upper="%.17g"' % hi
            s += "<limit %s/>" % a
        joints.append(s + "</joint>")
    order = rng.permutation(n)
    text = '<?xml version="1.0"?><robot name="robot">'
    for i in rng.permutation(n + 1):
        text += '<link name="%s"/>' % links[i]
    text += "".join(joints[i] for i in order) + "</robot>"
    return Robot(text)


def ur5():
    with open(UR5) as f:
        return Robot(f.read())


def random_values(rng, robot, names, inside=False):
    L = robot.limits(names)
    q = rng.uniform(L[:, 0], L[:, 1])
    if not inside:
        r = rng.random(len(names))
        q = np.where(r < 0.1, L[:, 0], q)
        q = np.where((0.1 < r) & (r < 0.2), L[:, 1], q)
        q = np.where((0.2 < r) & (r < 0.4), q + rng.normal(size=len(q)) * 3,
                     q)
        q = np.where((0.4 < r) & (r < 0.5), 0.0, q)
    return q


def random_chain(rng, robot, extra=0.3):
    """Base and end-effector frames and joint names in random order."""
    frames = robot.links
    a, b = rng.choice(frames, 2)
    need = [n for n in robot.path(a, b) if n in robot.movable()]
    need += [n for n in robot.movable()
             if n not in need and rng.random() < extra]
    need = sorted(need)
    return str(a), str(b), [need[i] for i in rng.permutation(len(need))]
