"""Synthetic calibration campaigns for auv_cal: rendered boards and laser lines seen by cameras of known geometry."""
import os, shutil
from pathlib import Path
import cv2, numpy as np, yaml

W, H = 360, 280
ROWS, COLS, SIZE = 5, 6, 0.1          # inner corners of the chessboard, side of a square [m]


def rot(rx, ry, rz):
    return cv2.Rodrigues(np.array([rx, 0., 0.]))[0] @ cv2.Rodrigues(np.array([0., ry, 0.]))[0] @ cv2.Rodrigues(np.array([0., 0., rz]))[0]


class Camera:
    """x_cam = R x_rig + t ; the rig frame is that of the first camera"""

    def __init__(self, name, f=400., c=(W / 2, H / 2), R=np.eye(3), t=(0, 0, 0), size=(W, H)):
        self.name, self.size = name, size
        self.K = np.array([[f, 0, c[0]], [0, f, c[1]], [0, 0, 1.]])
        self.R, self.t = np.asarray(R, float), np.asarray(t, float).reshape(3)

    def project(self, X):
        p = (self.R @ np.asarray(X, float).T).T + self.t
        return (p[:, :2] / p[:, 2:]) @ self.K[:2, :2].T + self.K[:2, 2]


_tex = {}


def texture(circles=False, px=48):
    if circles not in _tex:
        if circles:
            n = np.full(((ROWS + 2) * px, (ROWS + 2) * px), 255, np.uint8)
            for i in range(ROWS):
                for j in range(ROWS):
                    cv2.circle(n, (int((j + 1.5) * px), int((i + 1.5) * px)), int(px * .3), 0, -1, cv2.LINE_AA)
        else:
            n = np.full(((ROWS + 3) * px, (COLS + 3) * px), 255, np.uint8)
            for i in range(ROWS + 1):
                for j in range(COLS + 1):
                    if (i + j) % 2 == 0:
                        n[(i + 1) * px:(i + 2) * px, (j + 1) * px:(j + 2) * px] = 0
        _tex[circles] = n
    return _tex[circles]


def board_image(cam, Rb, tb):
    """Rb, tb: board frame -> rig frame; origin of the board frame at its centre"""
    px, n = 48, texture()
    h, w = n.shape
    s = SIZE / px
    # board plane coordinates of texture pixel (u, v): ((u - w/2) s, (v - h/2) s, 0)
    M = np.column_stack([cam.R @ Rb[:, 0], cam.R @ Rb[:, 1], cam.R @ tb + cam.t])
    A = np.array([[s, 0, (.5 - w / 2) * s], [0, s, (.5 - h / 2) * s], [0, 0, 1]])
    k = 3                                            # supersampling
    S = np.array([[k, 0, (k - 1) / 2], [0, k, (k - 1) / 2], [0, 0, 1.]])
    big = cv2.warpPerspective(n, S @ cam.K @ M @ A, (cam.size[0] * k, cam.size[1] * k), flags=cv2.INTER_AREA, borderValue=110)
    return cv2.GaussianBlur(cv2.resize(big, cam.size, interpolation=cv2.INTER_AREA), (3, 3), .6)


def board_poses(rng, n, cams, z=(1.6, 2.6)):
    """poses whose boards are inside all images"""
    out = []
    while len(out) < n:
        Rb = rot(*rng.uniform(-.45, .45, 2), rng.uniform(-.2, .2))
        d = rng.uniform(*z)
        tb = np.array([rng.uniform(-.28, .28) * d, rng.uniform(-.2, .2) * d, d])
        pts = np.array([[x, y, 0] for x in (-.5, .5) for y in (-.5, .5)]) * np.array([COLS + 1, ROWS + 1, 0]) * SIZE
        X = pts @ Rb.T + tb
        if all((c.project(X) > 10).all() and (c.project(X)[:, 0] < c.size[0] - 10).all() and (c.project(X)[:, 1] < c.size[1] - 10).all() for c in cams):
            out.append((Rb, tb))
    return out


def laser_image(cam, planes, floor, bits=8):
    """planes: laser planes (a,b,c,d) in the x-forward frame (x = -Y, y = X, z = Z of the first camera); floor: (n, d) n.X = d in the rig frame"""
    img = np.zeros((cam.size[1], cam.size[0]), np.float64)
    v = np.arange(cam.size[1])
    Kc, Rc = np.linalg.inv(cam.K), cam.R.T
    C = -Rc @ cam.t                                   # camera centre in the rig frame
    for p in planes:
        a, b, c, d = p
        L = np.array([b, -a, c, d])                   # a(-Y) + bX + cZ + d = 0
        # intersection line of laser and floor planes, seen in the image: line l = K^-T R n for planes through the camera centre
        n1, d1, n2, d2 = L[:3], -L[3], floor[0], floor[1]
        u = np.cross(n1, n2)
        P0 = np.linalg.solve(np.array([n1, n2, u]), np.array([d1, d2, 0.]))
        nn = np.cross(P0 - C, u)
        l = np.linalg.inv(cam.K).T @ (cam.R @ nn)
        for x in range(cam.size[0]):
            y = -(l[0] * x + l[2]) / l[1]
            if -5 < y < cam.size[1] + 5:
                img[:, x] += np.exp(-.5 * ((v - y) / .9) ** 2)
    img = np.clip(img, 0, 1) * (200 if bits == 8 else 50000)
    return img.astype(np.uint8 if bits == 8 else np.uint16)


def sx_name(k):                    # seaxerocks-like: same name in both cameras
    return "%08d" % (1000 + k)


def bio_name(k, cam, pc=0, cs=0):   # biocam: pc and camera stamps in the name
    import datetime
    t = datetime.datetime(2020, 1, 1, 12) + datetime.timedelta(milliseconds=k * 1000 + pc)
    u = datetime.datetime(2020, 1, 1, 12) + datetime.timedelta(milliseconds=k * 1000 + cs)
    return t.strftime("%Y%m%d_%H%M%S_") + "%06d" % t.microsecond + u.strftime("_%Y%m%d_%H%M%S_") + "%06d_%s_pcap_cs" % (u.microsecond, cam)


class Campaign:
    def __init__(self, root, cams, suffix=""):
        self.root, self.cams = Path(root), cams
        self.dive = "20200101_100000_auv_calib"
        self.branch = {c.name: "processed" for c in cams}
        self.conf = None

    def folder(self, cam, kind="camera"):
        return self.root / self.branch[cam.name] / "cruise" / self.dive / ("image/%s/%s" % (kind, cam.name))
    @property
    def out(self): return self.root / "processed/cruise/calibration"
    @property
    def cfg(self): return self.root / "configuration/cruise/calibration/calibration.yaml"

    def put(self, cam, kind, name, img):
        f = self.folder(cam, kind)
        f.mkdir(parents=True, exist_ok=True)
        cv2.imwrite(str(f / (name + ".png")), img)

    def write_conf(self, laser=True, detection=None, stratify=None, **kw):
        cams = []
        for c in self.cams:
            d = dict(name=c.name, camera_calibration=dict(path="../%s/image/camera/%s" % (self.dive, c.name), glob_pattern="*.png"))
            if laser:
                d["laser_calibration"] = dict(path="../%s/image/laser/%s" % (self.dive, c.name), glob_pattern="*.png")
            cams.append(d)
        y = dict(cameras=cams, camera_calibration=dict(pattern="Chessboard", cols=COLS, rows=ROWS, size=SIZE, invert=False),
                 laser_calibration=dict(laser_camera=self.cams[0].name, detection=dict(dict(window_size=5, min_greenness_ratio=.1, num_columns=24, remap=True,
                     start_row=0, end_row=-1, start_row_b=0, end_row_b=-1, two_lasers=False), **(detection or {})),
                     stratify=dict(dict(min_z_m=1, max_z_m=20, number_of_bins=5, max_points_per_bin=300), **(stratify or {})),
                     ransac=dict(max_cloud_size=10000, min_distance_threshold=.05, sample_size_ratio=.8, goal_inliers_ratio=.999, max_iterations=5000)), **kw)
        self.cfg.parent.mkdir(parents=True, exist_ok=True)
        self.cfg.write_text(yaml.safe_dump(y))

    def calibrator(self, **kw):
        from auv_cal.calibration import Calibrator
        self.out.mkdir(parents=True, exist_ok=True)
        (self.root / "raw/cruise/calibration").mkdir(parents=True, exist_ok=True)
        return Calibrator(str(self.out), **kw)


def clean(names):
    for n in names:
        for p in (Path("/tmp") / (n + "_corners.png"), Path("/tmp") / ("resized_" + n + "_corners.png")):
            p.unlink(missing_ok=True)
        shutil.rmtree("/tmp/" + n, ignore_errors=True)


def fs_mats(path, *nodes):
    fs = cv2.FileStorage(str(path), cv2.FILE_STORAGE_READ)
    out = []
    for n in nodes:
        f = fs
        for part in n.split("/"):
            f = f.getNode(part)
        out.append(f.mat())
    fs.release()
    return out
