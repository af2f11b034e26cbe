"""Contract of a grid object, interpreted together with the real code: points and a weighted sum (C10, C11)."""
import numpy as np


class AnyGrid:
    def __init__(self, points, weights):
        self._points = points
        self.weights = weights

    @property
    def points(self):
        return self._points

    def __len__(self):
        return self._points.shape[0]

    def integrate(self, arr):
        if arr.shape != self.weights.shape:
            raise ValueError("shape")
        return np.sum(self.weights * arr)
