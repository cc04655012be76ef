"""A plain 12-state Kalman filter for the motion of a vehicle (reference arithmetic only:
the order of its steps and the acceptance of its measurements are judged by the specification)."""
import math
import numpy as np

NED, ATT, VEL, RATE = slice(0, 3), slice(3, 6), slice(6, 9), slice(9, 12)


def rot(a):
    r, p, y = a
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return np.array([[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
                     [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
                     [-sp, cp * sr, cp * cr]])


def rates(a):
    r, p, _ = a
    return np.array([[1, math.sin(r) * math.tan(p), math.cos(r) * math.tan(p)],
                     [0, math.cos(r), -math.sin(r)],
                     [0, math.sin(r) / math.cos(p), math.cos(r) / math.cos(p)]])


def wrap(x):
    return (x + math.pi) % (2 * math.pi) - math.pi


def move(x, dt):
    y = x.copy()
    y[NED] += rot(x[ATT]) @ x[VEL] * dt
    y[ATT] += rates(x[ATT]) @ x[RATE] * dt
    return y


def jacobian(x, dt):
    """derivative of move, by complex-free central differences refined analytically where linear"""
    J = np.eye(12)
    J[NED, VEL] = rot(x[ATT]) * dt
    J[ATT, RATE] = rates(x[ATT]) * dt
    for k in range(3):
        d = _drot(x[ATT], k) @ x[VEL] * dt
        J[NED, 3 + k] = d
        J[ATT, 3 + k] += _drates(x[ATT], k) @ x[RATE] * dt
    return J


def _drot(a, k):
    r, p, y = a
    X = lambda t: np.array([[1, 0, 0], [0, math.cos(t), -math.sin(t)], [0, math.sin(t), math.cos(t)]])
    Y = lambda t: np.array([[math.cos(t), 0, math.sin(t)], [0, 1, 0], [-math.sin(t), 0, math.cos(t)]])
    Z = lambda t: np.array([[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1]])
    q = math.pi / 2
    d = [lambda: Z(y) @ Y(p) @ (X(r + q) - np.diag([1, 0, 0])),
         lambda: Z(y) @ (Y(p + q) - np.diag([0, 1, 0])) @ X(r),
         lambda: (Z(y + q) - np.diag([0, 0, 1])) @ Y(p) @ X(r)]
    return d[k]()


def _drates(a, k):
    r, p, _ = a
    cr, sr, cp, sp = math.cos(r), math.sin(r), math.cos(p), math.sin(p)
    if k == 0:
        return np.array([[0, cr * sp / cp, -sr * sp / cp], [0, -sr, -cr], [0, cr / cp, -sr / cp]])
    if k == 1:
        return np.array([[0, sr / cp ** 2, cr / cp ** 2], [0, 0, 0], [0, sr * sp / cp ** 2, cr * sp / cp ** 2]])
    return np.zeros((3, 3))


class Filter:
    def __init__(self, t, x, P, Q, thr):
        self.x, self.P, self.Q, self.thr = np.array(x, float), np.array(P, float), np.array(Q, float), thr
        self.t = t
        self.states = [[t, self.x.copy(), self.P.copy()]]

    def predict(self, t):
        dt = t - self.t
        A = jacobian(self.x, dt)
        self.x = move(self.x, dt)
        self.x[ATT] = [wrap(a) for a in self.x[ATT]]
        self.P = A @ self.P @ A.T + self.Q * dt
        self.t = t
        self.states.append([t, self.x.copy(), self.P.copy()])

    def correct(self, idx, z, var):
        """returns the squared Mahalanobis distance and whether the measurement was used"""
        H = np.zeros((len(idx), 12))
        for k, i in enumerate(idx):
            H[k, i] = 1
        R = np.diag([max(abs(v), 1e-9) for v in var])
        inn = np.array(z) - self.x[idx]
        for k, i in enumerate(idx):
            if 3 <= i < 6:
                inn[k] = wrap(inn[k])
        S = H @ self.P @ H.T + R
        d2 = float(inn @ np.linalg.solve(S, inn))
        use = d2 < self.thr ** 2
        if use:
            K = self.P @ H.T @ np.linalg.inv(S)
            self.x = self.x + K @ inn
            self.x[ATT] = [wrap(a) for a in self.x[ATT]]
            G = np.eye(12) - K @ H
            self.P = G @ self.P @ G.T + K @ R @ K.T
            self.states[-1][1:] = [self.x.copy(), self.P.copy()]
        return d2, use

    def smooth(self):
        res = [[t, x.copy(), P.copy()] for t, x, P in self.states]
        for k in range(len(res) - 2, -1, -1):
            t, x, P = self.states[k]
            dt = res[k + 1][0] - t
            A = jacobian(x, dt)
            Pp = A @ P @ A.T + self.Q * dt
            J = P @ A.T @ np.linalg.inv(Pp)
            inn = res[k + 1][1] - move(x, dt)
            for i in (3, 4, 5):
                inn[i] = wrap(inn[i])
            res[k][1] = x + J @ inn
            res[k][2] = P + J @ (res[k + 1][2] - Pp) @ J.T
        return res
