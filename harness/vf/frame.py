"""Integer points placed in space by a similarity; answers are read back in the integer frame."""
import numpy as np

UNIT = 10000


class Frame:
    """x = o + s * Q p  with Q orthogonal (identity unless rotated), s a power of two"""

    def __init__(self, rng, scales=(0, 0, -4, -8, 3), rotate=0.3, offsets=(0, 0, 0, 16, -3), planar=False):
        self.s = 2.0 ** rng.choice(scales)
        self.Q = np.eye(3)
        self.o = np.zeros(3)
        if rng.random() < rotate:
            if planar:
                t = rng.uniform(0, 6.28)
                self.Q = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.0]])
            else:
                a = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)])
                self.Q = np.linalg.qr(a)[0]
        o = rng.choice(offsets)
        if o:
            self.o = np.array([o, rng.choice(offsets), 0 if planar else rng.choice(offsets)], dtype=float)

    def put(self, p):
        return self.o + self.s * (self.Q @ np.asarray(p, dtype=float))

    def puts(self, ps):
        return np.array([self.put(p) for p in ps])

    def back(self, x, unit=UNIT):
        """integer recording of an observed point"""
        y = (self.Q.T @ (np.asarray(x, dtype=float) - self.o)) / self.s * unit
        if not np.all(np.isfinite(y)) or np.max(np.abs(y)) > 2e8:
            return [10 ** 8] * 3
        return [int(round(v)) for v in y]

    def backs(self, xs):
        return [self.back(x) for x in np.asarray(xs, dtype=float).reshape(-1, 3)]
