"""Building polar diagrams from plain cases, and reading them back out."""
import numpy as np

import hrosailing.core.modelfunctions as mf
from hrosailing import polardiagram as hp


def table(c):
    return hp.PolarDiagramTable(
        ws_resolution=list(c["ws"]),
        wa_resolution=list(c["wa"]),
        bsps=[list(r) for r in c["bsp"]],
    )


def cloud(pts):
    return hp.PolarDiagramPointcloud(np.array(pts, float).reshape(-1, 3))


def curve(c):
    return hp.PolarDiagramCurve(
        getattr(mf, c["f"]), *c["params"], radians=c["radians"]
    )


def build(c):
    kind = c["kind"]
    if kind == "table":
        return table(c)
    if kind == "cloud":
        return cloud(c["pts"])
    if kind == "curve":
        return curve(c)
    return hp.PolarDiagramMultiSails([build(d) for d in c["pds"]], c["sails"])


def table_dict(pd):
    """{(ws, wa): bsp} as the table reports it."""
    ws = np.asarray(pd.wind_speeds, float)
    wa = np.asarray(pd.wind_angles, float)
    b = np.asarray(pd.boat_speeds, float)
    return {
        (float(ws[j]), float(wa[i])): float(b[i, j])
        for i in range(len(wa))
        for j in range(len(ws))
    }


def describe(pd):
    """Everything a diagram holds, as comparable plain data."""
    if isinstance(pd, hp.PolarDiagramTable):
        return (
            "table",
            np.asarray(pd.wind_speeds, float).tobytes(),
            np.asarray(pd.wind_angles, float).tobytes(),
            np.asarray(pd.boat_speeds, float).shape,
            np.asarray(pd.boat_speeds, float).tobytes(),
        )
    if isinstance(pd, hp.PolarDiagramPointcloud):
        p = np.asarray(pd.points, float)
        return ("cloud", p.shape, p.tobytes())
    if isinstance(pd, hp.PolarDiagramCurve):
        return (
            "curve",
            pd.curve.__name__,
            tuple(float(x).hex() for x in pd.parameters),
            bool(pd.radians),
        )
    return (
        "multisails",
        tuple(str(s) for s in pd.sails),
        tuple(describe(d) for d in pd.diagrams),
    )


# positions of the variances: a model with a variance of zero is not defined
VARIANCES = {
    "gaussian_model": (2,),
    "gmm_model": (2, 5),
    "ws_s_dt_wa_gauss": (6, 9),
    "ws_s_s_dt_wa_gauss_comb": (6, 10),
    "ws_s_wa_gauss": (5, 8),
    "ws_s_wa_gauss_and_square": (6, 9),
}


def defined(f, params):
    """The parameters, such that the model can be evaluated with them: no
    variance is zero, and squares do not overflow."""
    params = [p / 1e160 if abs(p) > 1e150 else p for p in params]
    for i in VARIANCES.get(f, ()):
        if i < len(params) and params[i] == 0:
            params[i] = 1
    return params
