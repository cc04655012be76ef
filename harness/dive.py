"""Scratch dives: raw/processed/configuration trees for the real pipeline."""
import json
from pathlib import Path
import yaml

DIVE = "20200101_000000_test_dive"


def mission_dict(**over):
    m = {
        "version": 2,
        "origin": {"latitude": 26.0, "longitude": 127.0,
                   "coordinate_reference_system": "wgs84", "date": "2020/01/01"},
        "velocity": {"format": "phins", "filepath": "nav/phins/", "filename": "20200101_phins.txt",
                     "timezone": "utc", "timeoffset": 0.0, "std_factor": 0.001, "std_offset": 0.2},
        "orientation": {"format": "phins", "filepath": "nav/phins/", "filename": "20200101_phins.txt",
                        "timezone": "utc", "timeoffset": 0.0},
        "depth": {"format": "phins", "filepath": "nav/phins/", "filename": "20200101_phins.txt",
                  "timezone": "utc", "timeoffset": 0.0, "std_factor": 0.001, "std_offset": 0.0},
        "altitude": {"format": "phins", "filepath": "nav/phins/", "filename": "20200101_phins.txt",
                     "timezone": "utc", "timeoffset": 0.0, "std_factor": 0.01, "std_offset": 0.0},
        "usbl": {"format": "gaps", "filepath": "nav/gaps/", "timezone": "utc", "timeoffset": 0.0,
                 "label": 2, "std_factor": 0.01, "std_offset": 2.0},
        "image": {"format": "acfr_standard", "timezone": "utc", "timeoffset": 0.0,
                  "cameras": [
                      {"name": "LC", "origin": "cam1", "path": "image/i1"},
                      {"name": "RC", "origin": "cam2", "path": "image/i1"}]},
    }
    for k, v in over.items():
        if v is None:
            m.pop(k, None)
        else:
            m[k] = v
    return m


ZERO = dict(surge_m=0.0, sway_m=0.0, heave_m=0.0, roll_deg=0.0, pitch_deg=0.0, yaw_deg=0.0)


def frame(surge=0.0, sway=0.0, heave=0.0, roll=0.0, pitch=0.0, yaw=0.0):
    return dict(surge_m=surge, sway_m=sway, heave_m=heave, roll_deg=roll, pitch_deg=pitch, yaw_deg=yaw)


def vehicle_dict(**over):
    v = {"origin": dict(ZERO), "ins": dict(ZERO), "dvl": dict(ZERO), "depth": dict(ZERO),
         "usbl": dict(ZERO), "cam1": dict(ZERO), "cam2": dict(ZERO)}
    for k, val in over.items():
        if val is None:
            v.pop(k, None)
        else:
            v[k] = val
    return v


def camera_dict():
    return {"camera_system": "acfr_standard", "cameras": [
        {"name": n, "type": "rggb", "bit_depth": 16, "path": "image/i1/*%s*" % n, "extension": "tif",
         "filename_to_date": "xxxYYYYMMDDxhhmmssxfffxxxxx.xxx"} for n in ("LC", "RC")]}


def build(root, dive=DIVE, mission=None, vehicle=None, camera=None, nav=None, auv_nav=None, base="cruise"):
    """Lay out raw/<base>/<dive> etc. Returns (raw, processed, config) dive folders."""
    root = Path(root)
    raw, proc, conf = (root / d / base / dive for d in ("raw", "processed", "configuration"))
    raw.mkdir(parents=True, exist_ok=True)
    (raw / "mission.yaml").write_text(yaml.safe_dump(mission or mission_dict(), sort_keys=False))
    (raw / "vehicle.yaml").write_text(yaml.safe_dump(vehicle or vehicle_dict(), sort_keys=False))
    (raw / "camera.yaml").write_text(yaml.safe_dump(camera or camera_dict(), sort_keys=False))
    if nav is not None:
        (proc / "nav").mkdir(parents=True, exist_ok=True)
        (proc / "nav" / "nav_standard.json").write_text(json.dumps(nav, indent=1))
    if auv_nav is not None:
        conf.mkdir(parents=True, exist_ok=True)
        (conf / "auv_nav.yaml").write_text(yaml.safe_dump(auv_nav, sort_keys=False))
    return raw, proc, conf


# ------------------------------------------------------------- nav_standard records
def origin_rec(lat=26.0, lon=127.0):
    return {"epoch_timestamp": 0.0, "class": "origin", "category": "origin",
            "data": [{"latitude": lat, "longitude": lon, "crs": "wgs84", "date": "2020/01/01"}]}


def vel_rec(t, x, y, z, sx=0.01, sy=0.01, sz=0.01, tdvl=None):
    return {"epoch_timestamp": t, "epoch_timestamp_dvl": t if tdvl is None else tdvl, "class": "measurement",
            "sensor": "phins", "frame": "body", "category": "velocity",
            "data": [{"x_velocity": x, "x_velocity_std": sx}, {"y_velocity": y, "y_velocity_std": sy},
                     {"z_velocity": z, "z_velocity_std": sz}]}


def ivel_rec(t, n, e, d, s=0.01):
    return {"epoch_timestamp": t, "class": "measurement", "sensor": "phins", "frame": "inertial",
            "category": "velocity",
            "data": [{"north_velocity": n, "north_velocity_std": s}, {"east_velocity": e, "east_velocity_std": s},
                     {"down_velocity": d, "down_velocity_std": s}]}


def ori_rec(t, roll, pitch, yaw, s=0.01):
    return {"epoch_timestamp": t, "class": "measurement", "sensor": "phins", "frame": "body",
            "category": "orientation",
            "data": [{"heading": yaw, "heading_std": s}, {"roll": roll, "roll_std": s},
                     {"pitch": pitch, "pitch_std": s}]}


def dep_rec(t, d, s=0.01):
    return {"epoch_timestamp": t, "epoch_timestamp_depth": t, "class": "measurement", "sensor": "phins",
            "frame": "inertial", "category": "depth", "data": [{"depth": d, "depth_std": s}]}


def alt_rec(t, a, s=0.01):
    return {"epoch_timestamp": t, "epoch_timestamp_dvl": t, "class": "measurement", "sensor": "phins",
            "frame": "body", "category": "altitude",
            "data": [{"altitude": a, "altitude_std": s},
                     {"sound_velocity": 1500.0, "sound_velocity_correction": 0.0}]}


def usbl_rec(t, n, e, d, dist=10.0, s=1.0, lat=None, lon=None, sne=None, sd=None):
    return {"epoch_timestamp": t, "class": "measurement", "sensor": "gaps", "frame": "inertial",
            "category": "usbl",
            "data_ship": [{"latitude": 26.0, "longitude": 127.0}, {"northings": 0.0, "eastings": 0.0},
                          {"heading": 0.0}],
            "data_target": [
                {"latitude": 26.0 + n / 111000.0 if lat is None else lat, "latitude_std": 1e-5},
                {"longitude": 127.0 + e / 100000.0 if lon is None else lon, "longitude_std": 1e-5},
                {"northings": n, "northings_std": s if sne is None else sne[0]}, {"eastings": e, "eastings_std": s if sne is None else sne[1]},
                {"depth": d, "depth_std": s if sd is None else sd}, {"distance_to_ship": dist}]}


def img_rec(t, f1, f2=None, t2=None):
    r = {"epoch_timestamp": t, "class": "measurement", "sensor": "acfr_standard", "frame": "body",
         "category": "image", "camera1": [{"epoch_timestamp": t, "filename": f1}]}
    if f2 is not None:
        r["camera2"] = [{"epoch_timestamp": t if t2 is None else t2, "filename": f2}]
    return r


def laser_rec(t, f):
    return {"epoch_timestamp": t, "class": "measurement", "sensor": "seaxerocks_3", "frame": "body",
            "category": "laser", "serial": "laser", "filename": f}


def _diag(v, n=12):
    return [v[i] if i == j else 0.0 for i in range(n) for j in range(n)]


def auv_nav_dict(ekf=False, usbl_filter=False, pf=False, csv=True, spp=False, plot=False, smoother=True,
                 maha=3.0, std=None, max_speed=2.0, sigma=2.0, q=None, p0=None, csv_flags=None):
    T = csv_flags or {}
    f = lambda g, k: T.get((g, k), True)
    return {
        "std": std or {k: {"offset": 0.0, "factor": 0.0, "model": "sensor"} for k in
                       ("position_xy", "position_z", "speed", "orientation")},
        "usbl_filter": {"activate": usbl_filter, "max_auv_speed": max_speed, "sigma_factor": sigma},
        "ekf": {"activate": ekf, "activate_smoother": smoother, "mahalanobis_distance_threshold": maha,
                "process_noise_covariance": _diag(q or [0.05, .05, .06, .03, .03, .06, .025, .025, .04, .01, .01, .02]),
                "initial_estimate_covariance": _diag(p0 or [1e-9] * 12)},
        "particle_filter": {"activate": pf, "mode": "usbl", "dvl_noise_sigma_factor": 2,
                            "imu_noise_sigma_factor": 2, "usbl_noise_sigma_factor": 1,
                            "particles_number": 20, "particles_plot_time_interval": 600},
        "csv_output": {"activate": csv, "usbl": f("usbl", "usbl"),
                       "dead_reckoning": {k: f("dr", k) for k in ("auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload")},
                       "particle_filter": {k: f("pf", k) for k in ("auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload")},
                       "ekf": {k: f("ekf", k) for k in ("auv_centre", "camera_1", "camera_2", "camera_3", "payload")}},
        "spp_output": {"activate": spp, "ekf": {"auv_centre": True, "camera_1": True, "camera_2": True, "camera_3": True}},
        "plot_output": {"activate": plot, "html_plot": plot},
    }
