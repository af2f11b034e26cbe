"""Objects that are not grids: one without points, one without a method integrate."""


class NoPoints:
    def __init__(self, points):
        self.pts = points

    def integrate(self, arr):
        return 0.0


class NoIntegrate:
    def __init__(self, points):
        self.points = points
        self.integrate = 1.0
