"""What scipy.optimize.minimize returns: fields by key or by attribute."""


class Result:
    def __init__(self, x, fun, success, message, jac, nit):
        self.x = x
        self.fun = fun
        self.success = success
        self.message = message
        self.jac = jac
        self.nit = nit
        self.status = nit

    def __getitem__(self, key):
        if key == "x":
            return self.x
        if key == "fun":
            return self.fun
        if key == "success":
            return self.success
        if key == "message":
            return self.message
        if key == "jac":
            return self.jac
        if key == "nit":
            return self.nit
        if key == "status":
            return self.status
        raise KeyError(key)
