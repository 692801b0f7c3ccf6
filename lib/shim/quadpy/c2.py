import numpy as np


def rectangle_points(x, y):
    out = np.empty((2, 2, 2))
    out[0, 0] = [x[0], y[0]]
    out[1, 0] = [x[1], y[0]]
    out[0, 1] = [x[0], y[1]]
    out[1, 1] = [x[1], y[1]]
    return out


class C2Scheme(object):
    def __init__(self, degree):
        self.degree = degree
        degree = int(degree)
        if 2 <= degree <= 3:
            # the rule quadpy itself hands out for this degree (Stroud C2 3-1):
            # with it the displacements in tests/test_core/test_elm_quad are met
            r = np.sqrt(2.0 / 3.0)
            self.points = np.array([[r, -r, 0.0, 0.0], [0.0, 0.0, r, -r]])
            self.weights = np.full(4, 0.25)
            return
        n = max(1, (degree + 2) // 2)
        g, w = np.polynomial.legendre.leggauss(n)
        gx, gy = np.meshgrid(g, g, indexing="ij")
        self.points = np.array([gx.ravel(), gy.ravel()])
        self.weights = np.outer(w, w).ravel() / 4.0

    def integrate(self, f, quad, dot=np.dot):
        q = np.asarray(quad, dtype=float)
        xi, et = self.points
        shp = np.array([(1 - xi) * (1 - et), (1 + xi) * (1 - et),
                        (1 - xi) * (1 + et), (1 + xi) * (1 + et)]) / 4.0
        corners = np.array([q[0, 0], q[1, 0], q[0, 1], q[1, 1]])
        x = corners.T @ shp
        dxi = np.array([-(1 - et), (1 - et), -(1 + et), (1 + et)]) / 4.0
        det_ = np.array([-(1 - xi), -(1 + xi), (1 - xi), (1 + xi)]) / 4.0
        a, b = corners.T @ dxi, corners.T @ det_
        jac = np.abs(a[0] * b[1] - a[1] * b[0])
        return np.dot(np.asarray(f(x)), self.weights * 4.0 * jac)


def get_good_scheme(degree):
    return C2Scheme(degree)
