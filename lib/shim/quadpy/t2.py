import numpy as np


class T2Scheme(object):
    def __init__(self, degree):
        self.degree = degree
        # as many points as the degree takes, one more across for the factor 1 - u
        (gu, wu), (gv, wv) = [np.polynomial.legendre.leggauss(max(1, int(n))) for n in ((degree + 3) // 2, (degree + 2) // 2)]
        u, v = np.meshgrid((gu + 1) / 2, (gv + 1) / 2, indexing="ij")
        wu, wv = np.meshgrid(wu / 2, wv / 2, indexing="ij")
        xi, eta = u, v * (1 - u)
        self.points = np.array([(1 - xi - eta).ravel(), xi.ravel(), eta.ravel()])
        self.weights = 2 * (wu * wv * (1 - u)).ravel()

    def integrate(self, f, simplex, dot=np.dot):
        s = np.asarray(simplex, dtype=float)
        x = s.T @ self.points
        a, b = s[1] - s[0], s[2] - s[0]
        vol = 0.5 * abs(a[0] * b[1] - a[1] * b[0])
        return vol * np.dot(np.asarray(f(x)), self.weights)


def get_good_scheme(degree):
    return T2Scheme(degree)
