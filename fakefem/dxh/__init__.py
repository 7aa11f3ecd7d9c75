"""Stand-in for UCL/dxh."""
import numpy as np


def evaluate_function_at_points(function, points):
    V = function.function_space
    fe = V.mesh._fe
    points = np.asarray(points, dtype=float)
    if points.ndim == 1:
        points = points.reshape(-1, 1)
    if points.shape[1] == 3:
        pts = points
    else:
        pts = np.zeros((len(points), 3))
        pts[:, : points.shape[1]] = points
    cells = []
    for p in pts:
        c, _ = fe.locate(p[: fe.gdim])
        if c < 0:
            raise ValueError("One or more points not within domain")
        cells.append(c)
    v = function.eval(pts, cells)
    return v[:, 0] if v.shape[1] == 1 else v
