import numpy as np


def perm_gmsh(cell_type, n):
    name = cell_type.name
    if name == "triangle":
        return np.array({3: [0, 1, 2], 6: [0, 1, 2, 4, 5, 3], 10: [0, 1, 2, 5, 6, 8, 7, 3, 4, 9]}[n])
    if name == "quadrilateral":
        return np.array({4: [0, 1, 3, 2]}[n])
    if name == "tetrahedron":
        return np.array({4: [0, 1, 2, 3]}[n])
    return np.arange(n)
