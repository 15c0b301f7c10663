"""Independent planar geometry in numpy (no code of lcp_physics is used here)."""
import math

import numpy as np


def rot(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s], [s, c]])


def cross(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def area(vs):
    w = np.roll(vs, -1, axis=0)
    return 0.5 * float(np.sum(cross(vs, w)))


def centroid(vs):
    """Area centroid by triangle fan from vertex 0."""
    a = vs[0]
    tot, acc = 0.0, np.zeros(2)
    for i in range(1, len(vs) - 1):
        t = 0.5 * float(cross(vs[i] - a, vs[i + 1] - a))
        tot += t
        acc = acc + t * (a + vs[i] + vs[i + 1]) / 3
    return acc / tot


def inertia_per_mass(vs):
    """Second moment about the centroid over area, by triangle fan: for a triangle the
    moment about its own centroid per mass is (a^2+b^2+c^2)/36."""
    c = centroid(vs)
    a = vs[0]
    tot, acc = 0.0, 0.0
    for i in range(1, len(vs) - 1):
        p, q, r = a, vs[i], vs[i + 1]
        t = 0.5 * float(cross(q - p, r - p))
        g = (p + q + r) / 3
        own = (np.dot(p - q, p - q) + np.dot(q - r, q - r) + np.dot(r - p, r - p)) / 36
        acc += t * (own + float(np.dot(g - c, g - c)))
        tot += t
    return acc / tot


def seg_dist(p, a, b):
    d = b - a
    t = np.dot(p - a, d) / np.dot(d, d)
    t = min(1.0, max(0.0, t))
    return float(np.linalg.norm(p - (a + t * d)))


def edge_normals(vs):
    """Outward unit normals of a convex polygon with positive area (counter-clockwise)."""
    e = np.roll(vs, -1, axis=0) - vs
    n = np.stack([e[:, 1], -e[:, 0]], axis=1)
    return n / np.linalg.norm(n, axis=1, keepdims=True)


def ccw(vs):
    return vs if area(vs) > 0 else vs[::-1]


def sat_each(v1, v2):
    """Separation of v2 from each edge line of v1 (positive: outside)."""
    n = edge_normals(v1)
    return np.array([np.min((v2 - v1[i]) @ n[i]) for i in range(len(v1))]), n


def sat(v1, v2):
    """Largest separation over the edge normals of both polygons; its negative is the
    penetration depth (minimum translation) when they overlap."""
    s1, _ = sat_each(v1, v2)
    s2, _ = sat_each(v2, v1)
    return float(max(s1.max(), s2.max()))


def poly_dist(v1, v2):
    """Euclidean distance of convex polygons (0 when they touch or overlap)."""
    if sat(v1, v2) <= 0:
        return 0.0
    best = float('inf')
    for a, b in ((v1, v2), (v2, v1)):
        n = len(b)
        for p in a:
            for i in range(n):
                best = min(best, seg_dist(p, b[i], b[(i + 1) % n]))
    return best


def point_poly(p, vs):
    """Signed distance of a point to a convex polygon (negative inside)."""
    n = edge_normals(vs)
    s = np.array([(p - vs[i]) @ n[i] for i in range(len(vs))])
    if s.max() <= 0:
        return float(s.max())
    m = len(vs)
    return min(seg_dist(p, vs[i], vs[(i + 1) % m]) for i in range(m))


def shape_at(shape, p):
    """World shape of a local shape at pose p = (rot, x, y)."""
    if shape[0] == 'c':
        return ('c', np.array(p[1:], float), shape[1])
    return ('p', shape[1] @ rot(p[0]).T + np.array(p[1:], float))


def signed_gap(s1, s2):
    """Gap of two world shapes: Euclidean distance if apart; if overlapping minus the
    penetration depth."""
    if s1[0] == 'c' and s2[0] == 'c':
        return float(np.linalg.norm(s1[1] - s2[1])) - s1[2] - s2[2]
    if s1[0] == 'c':
        return point_poly(s1[1], s2[1]) - s1[2]
    if s2[0] == 'c':
        return point_poly(s2[1], s1[1]) - s2[2]
    s = sat(s1[1], s2[1])
    return s if s <= 0 else poly_dist(s1[1], s2[1])


def depth(s1, s2):
    """Penetration depth (positive when overlapping)."""
    if s1[0] == 'p' and s2[0] == 'p':
        return -sat(s1[1], s2[1])
    return -signed_gap(s1, s2)


def boundary_dist(s, p):
    """Distance of a point from the boundary of a shape."""
    if s[0] == 'c':
        return abs(float(np.linalg.norm(p - s[1])) - s[2])
    vs = s[1]
    m = len(vs)
    return min(seg_dist(p, vs[i], vs[(i + 1) % m]) for i in range(m))


def radius(shape):
    if shape[0] == 'c':
        return shape[1]
    return float(np.max(np.linalg.norm(shape[1], axis=1)))


def ambiguous(ws, eps, skip=(), tol=1e-6, edge=1e-6):
    """Some decision of the detection among these world shapes is close to a tie."""
    for i in range(len(ws)):
        for j in range(i):
            if frozenset((i, j)) in skip:
                continue
            a, b = ws[i], ws[j]
            # hulls are detected by their separation, which may be less than their distance
            g = sat(a[1], b[1]) if a[0] == b[0] == 'p' else signed_gap(a, b)
            if abs(g - eps) < edge:
                return True
            if g > eps:
                continue
            seps = []
            for s, t in ((a, b), (b, a)):
                if s[0] == 'p':
                    nr = edge_normals(s[1])
                    for k in range(len(nr)):
                        if t[0] == 'p':
                            seps.append(((t[1] - s[1][k]) @ nr[k]).min())
                        else:
                            seps.append((t[1] - s[1][k]) @ nr[k] - t[2])
            if a[0] == 'p' and b[0] == 'p':
                # the edge that meets the reference edge
                na, nb = edge_normals(a[1]), edge_normals(b[1])
                k = int(np.argmax(seps))
                dots = np.sort(nb @ na[k] if k < len(na) else na @ nb[k - len(na)])
                if dots[1] - dots[0] < 1e-6:
                    return True
            seps.sort()
            if len(seps) > 1 and seps[-1] - seps[-2] < tol:
                return True
            if 'c' in (a[0], b[0]):
                c, h = (a, b) if a[0] == 'c' else (b, a)
                if h[0] == 'p' and abs(point_poly(c[1], h[1])) < 1e-5:
                    return True
                if h[0] == 'c' and np.linalg.norm(c[1] - h[1]) < 1e-5:
                    return True
    return False
