B = BUNDLES = {}

# ---- bundle a: helpers extracted, statements reordered, vectorisations undone / done
B["a"] = [
 # model: loops over functions, reordered
 ("model.py", """        matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])

        # compute linear combination of Gaussian basis
""", """        matrix = self._gaussians(expons)

        # compute linear combination of Gaussian basis
"""),
 ("model.py", """    def _eval_s(self, matrix, coeffs, expons, deriv):
""", """    def _gaussians(self, expons):
        squares = self.radii ** 2
        return np.exp(-np.outer(squares, expons))

    def _eval_s(self, matrix, coeffs, expons, deriv):
"""),
 ("model.py", """                total_g += g
                total_dg[:, count: count + center.nbasis] = dg_c
                total_dg[:, self.nbasis + count: self.nbasis + count + center.nbasis] = dg_e
""", """                first, last = count, count + center.nbasis
                total_dg[:, self.nbasis + first: self.nbasis + last] = dg_e
                total_dg[:, first: last] = dg_c
                total_g = total_g + g
"""),
 # measure
 ("measure.py", """        # compute residual
        residual = density - model
        # compute squared residual
        value = np.power(residual, 2)
        # compute derivative of squared residual w.r.t. model
        if deriv:
            return value, -2 * residual
        return value
""", """        residual = model - density
        if not deriv:
            return residual * residual
        return residual ** 2, 2.0 * residual
"""),
 ("measure.py", """        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=1.0)
""", """        # compute ratio & replace masked values by 1.0
        keep = ~(model <= self.mask_value)
        ratio = np.ones(density.shape)
        with np.errstate(all="ignore"):
            ratio[keep] = density[keep] / model[keep]
        ratio[~np.isfinite(ratio)] = 1.0
"""),
 ("measure.py", """        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
        integrand = value / (self.alpha - 1.0)
        if deriv:
            return integrand, -np.power(ratio, self.alpha)
        return integrand
""", """        order = self.alpha - 1.0
        integrand = density * (ratio ** order - 1.0) / order
        return (integrand, -ratio ** self.alpha) if deriv else integrand
"""),
 # grid
 ("grid.py", """            for i in range(atcorenums.shape[0]):
                xyz = atcoords[i] - com
                r = np.linalg.norm(xyz) ** 2.0
                tempitens = np.diag([r, r, r])
                tempitens -= np.outer(xyz.T, xyz)
                itensor += atcorenums[i] * tempitens
""", """            for charge, position in zip(atcorenums, atcoords):
                xyz = position - com
                itensor += charge * (np.sum(xyz ** 2) * np.eye(3) - np.outer(xyz, xyz))
"""),
 ("grid.py", """        value = np.sum(self._weights * arr)
        return value
""", """        return np.dot(self._weights, arr)
"""),
 ("grid.py", """        shape = (max_coordinate - min_coordinate + 2.0 * extension) / spacing
        # Add one to include the upper-bound as well.
        shape = np.ceil(shape)
        shape = np.array(shape, int)
""", """        lengths = max_coordinate - min_coordinate
        shape = np.ceil((lengths + 2.0 * extension) / spacing).astype(int)
"""),
 # density
 ("density.py", """            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()
        return phi_matrix
""", """            phi_matrix[:, index] = (slater @ self.orbitals_coeff[orbital])[:, 0]
        return phi_matrix
"""),
 ("density.py", """        orb_occs = self.orbitals_occupation
        if mode == "valence":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
        elif mode == "core":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
""", """        orb_occs = self.orbitals_occupation
        if mode != "total":
            gap = self.orbitals_energy - self.orbitals_energy.max()
            weight = np.exp(-gap * gap)
            orb_occs = orb_occs * (weight if mode == "valence" else 1. - weight)
"""),
 # fit
 ("fit.py", """        for index in range(len(x)):
            d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
        return obj, d_obj
""", """        slope = self.weights * dk
        for index, column in enumerate(dm.T):
            d_obj[index] = self.integrate(slope * column)
        return obj, d_obj
"""),
 ("fit.py", """        for index in range(self.model.nbasis):
            integrand = -dk * dm[:, index]
            avrg1[index] = self.integrate(integrand)
            if update_expons:
""", """        ratio = -dk
        for index in range(self.model.nbasis):
            integrand = ratio * dm[:, index]
            avrg1[index] = self.integrate(integrand)
            if update_expons:
"""),
 ("fit.py", """        approx = self.model.evaluate(coeffs, expons)
        diff = np.abs(self.density - approx)
        return [
            self.integrate(approx),
            self.integrate(diff),
            np.max(diff),
            self.integrate(self.ls_error.evaluate(self.density, approx, deriv=False)),
            self.integrate(self.kl_error.evaluate(self.density, approx, deriv=False))
        ]
""", """        approx = self.model.evaluate(coeffs, expons)
        errors = [self.integrate(approx)]
        diff = np.abs(approx - self.density)
        errors += [self.integrate(diff), diff.max()]
        for measure in (self.ls_error, self.kl_error):
            errors.append(self.integrate(measure.evaluate(self.density, approx)))
        return errors
"""),
 # greedy
 ("greedy.py", """        model = self.model.evaluate(params[:len(params)//2], params[len(params)//2:])
        integrand = self.measure.evaluate(self.density, model)
        return self.fitting_obj.integrate(integrand)
""", """        half = len(params) // 2
        coeffs, exps = params[:half], params[half:]
        model = self.model.evaluate(coeffs, exps)
        return self.fitting_obj.integrate(self.measure.evaluate(self.density, model))
"""),
 ("greedy.py", """                best_local_value = self.eval_obj_function(local_param)
                best_local_param = local_param
""", """                best_local_value, best_local_param = cost_func, local_param
"""),
 ("greedy.py", """            # Update model for the new number of S-type and P-type functions.
            if is_s_optimal:
                # If adding s-type was optimal then increase number of s-type.
                self.num_s += self.numb_func_increase
            else:
                self.num_p += self.numb_func_increase
            self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
            numb_funcs += self.numb_func_increase
""", """            # Update model for the new number of S-type and P-type functions.
            self._grow(is_s_optimal, self.numb_func_increase)
            numb_funcs += self.numb_func_increase
"""),
 ("greedy.py", """                if is_s_optimal:
                    self.num_s -= self.numb_func_increase
                else:
                    self.num_p -= self.numb_func_increase
                self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
                numb_funcs -= self.numb_func_increase
""", """                numb_funcs -= self.numb_func_increase
                self._grow(is_s_optimal, -self.numb_func_increase)
"""),
 ("greedy.py", """    def _split_parameters(self, params):
""", """    def _grow(self, s_type, number):
        if s_type:
            self.num_s += number
        else:
            self.num_p += number
        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)

    def _split_parameters(self, params):
"""),
 ("greedy.py", """        a = 2.0 * np.sum(weight)
        sum_of_grid_squared = np.sum(weight * np.power(self.grid.points, 2))
""", """        squares = self.grid.points ** 2
        a = 2.0 * weight.sum()
        sum_of_grid_squared = np.sum(weight * squares)
"""),
 ("greedy.py", """        return np.array([coefficient, exponent])
""", """        solution = np.zeros(2)
        solution[0] = coefficient
        solution[1] = exponent
        return solution
"""),
 ("parse_ugbs.py", """            if len(split_words) > 0 and split_words[0].lower() == element.lower():
                next_line = f.readline().strip().split()
                output[split_words[1]].append(float(next_line[0]))
""", """            if not split_words or split_words[0].lower() != element.lower():
                continue
            value = f.readline().split()[0]
            output[split_words[1]].append(float(value))
"""),
]

# ---- bundle b: other shapes of the same code
B["b"] = [
 ("model.py", """        # normalize Gaussian basis
        if self.normalized:
            matrix = matrix * (expons[None, :] / np.pi) ** 1.5
        # make linear""", """        # normalize Gaussian basis
        if self.normalized:
            norms = np.power(expons / np.pi, 1.5)
            matrix = matrix * norms
        # make linear"""),
 ("model.py", """            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            if self.normalized:
                matrix = np.exp(""", """            number = coeffs.size
            for i in range(number):
                dg[:, number + i] = - matrix[:, i] * self.radii ** 2 * coeffs[i]
            if self.normalized:
                matrix = np.exp("""),
 ("model.py", """        # compute contribution of each center
        count = 0
        for center in self.center:
            # get coeffs & expons of center
""", """        # compute contribution of each center
        count = 0
        for i in range(self.natoms):
            center = self.center[i]
            # get coeffs & expons of center
"""),
 ("model.py", """        # compute the number of basis on each center
        nbasis = np.sum(self._basis, axis=1)
        # get the center to which the basis function belongs
        index = np.where(np.cumsum(nbasis) >= index + 1)[0][0]
        return index
""", """        # last function of each center
        last = np.cumsum(self._basis.sum(axis=1))
        return np.argmax(last > index)
"""),
 ("model.py", """        return np.array([1.5] * self.ns + [2.5] * self.np)
""", """        return np.concatenate((np.full(self.ns, 1.5), np.full(self.np, 2.5)))
"""),
 ("model.py", """        return np.concatenate([center.prefactor for center in self.center])
""", """        factors = []
        for center in self.center:
            factors.append(center.prefactor)
        return np.hstack(factors)
"""),
 ("measure.py", """        if np.any(model < 0.):
            if deriv:
                # Add an incredibly large derivative
                return np.array([self.negative_val] * model.shape[0]), \\
                       np.array([self.negative_val] * model.shape[0])
            return np.array([self.negative_val] * model.shape[0])
""", """        if (model < 0.).any():
            penalty = np.full(model.shape, self.negative_val)
            if deriv:
                # Add an incredibly large derivative
                return penalty, penalty.copy()
            return penalty
"""),
 ("measure.py", """        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
""", """        # compute ratio & replace masked values by 1.0
        ratio = np.zeros_like(density)
        np.divide(density, model, out=ratio, where=model > self.mask_value)
"""),
 ("grid.py", """        # Project the coordinates of atoms centered at the center of mass to the eigenvectors
            new_coordinates = np.dot((atcoords - com), v)
            axes = spacing * v.T
""", """        # Project the coordinates of atoms centered at the center of mass to the eigenvectors
            new_coordinates = (atcoords - com) @ v
            axes = v.T * spacing
"""),
 ("grid.py", """        middle = 0.5 * (max_coordinate + min_coordinate)
        if rotate:
            middle = com + np.dot(v, middle)
        origin = middle - np.dot((0.5 * shape), axes)
        return cls(origin, axes, shape)
""", """        center = (max_coordinate + min_coordinate) / 2.0
        if rotate:
            center = np.dot(v, center) + com
        half = np.zeros(3)
        for size, axis in zip(shape, axes):
            half += 0.5 * size * axis
        return cls(center - half, axes, shape)
"""),
 ("grid.py", """        volume = self._calculate_volume(shape)
        numpnt = 1.0 * np.prod(shape)
        weights = np.full(np.prod(shape), volume / numpnt)
        return weights
""", """        number = np.prod(shape)
        return np.ones(number) * self._calculate_volume(shape) / number
"""),
 ("grid.py", """        coords = np.array(
            np.meshgrid(
                np.arange(shape[0]), np.arange(shape[1]), np.arange(shape[2])
            )
        )
        coords = np.swapaxes(coords, 1, 2)
        coords = coords.reshape(3, -1)
""", """        coords = np.array(
            np.meshgrid(
                np.arange(shape[0]), np.arange(shape[1]), np.arange(shape[2]), indexing="ij"
            )
        ).reshape(3, -1)
"""),
 ("grid.py", """        return np.trapz(y=arr, x=self.points)
""", """        steps = np.diff(self.points)
        return np.sum(0.5 * steps * (arr[1:] + arr[:-1]))
"""),
 ("density.py", """        norm = np.power(2. * exponent, number) * np.sqrt((2. * exponent) / factorial(2. * number))
        pref = np.power(points, number - 1).T
        # compute slater orbitals
        slater = norm.T * pref * np.exp(-exponent * points).T
        return slater
""", """        norm = (2. * exponent) ** (number + 0.5) / np.sqrt(factorial(2. * number))
        radial = np.power(points, number - 1) * np.exp(-exponent * points)
        return (norm * radial).T
"""),
 ("density.py", """            deriv_pref = (number.T - 1.) / np.reshape(points, (points.shape[0], 1)) - exponent.T
            deriv_pref[np.abs(points) < 1e-10, :] = 0.0
        deriv = deriv_pref * slater
        return deriv
""", """            deriv_pref = (number.T - 1.) / points[:, None] - exponent.T
        return np.where(np.abs(points)[:, None] < 1e-10, 0.0, deriv_pref * slater)
"""),
 ("density.py", """        factor = self.phi_matrix(points) * self.phi_matrix(points, deriv=True)
        derivative = np.dot(2. * factor, self.orbitals_occupation).ravel() / (4 * np.pi)
        return derivative
""", """        orbitals = self.phi_matrix(points)
        slopes = self.phi_matrix(points, deriv=True)
        return ((orbitals * slopes) @ self.orbitals_occupation)[:, 0] / (2 * np.pi)
"""),
 ("fit.py", """        for index in range(len(x)):
            d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
        return obj, d_obj
""", """        d_obj[:] = [self.integrate(self.weights * dk * dm[:, i]) for i in range(len(x))]
        return obj, d_obj
"""),
 ("fit.py", """        if len(args) != 0:
            if args[0] == "fixed_coeffs":
                coeffs = args[1]
                expons = x
                start, end = self.model.nbasis, 2 * self.model.nbasis
            elif args[0] == "fixed_expons":
                coeffs = x
                expons = args[1]
                start, end = 0, self.model.nbasis
            else:
                raise ValueError("Argument args is not understandable!")
        else:
            coeffs, expons = x[:self.model.nbasis], x[self.model.nbasis:]
            start, end = 0, 2 * self.model.nbasis
        # compute model density & its derivative
        m, dm = self.model.evaluate(coeffs, expons, deriv=True)
        return m, dm[:, start: end]
""", """        number = self.model.nbasis
        if not args:
            coeffs, expons = np.split(x, 2)
            m, dm = self.model.evaluate(coeffs, expons, deriv=True)
            return m, dm
        name, fixed = args
        if name == "fixed_coeffs":
            m, dm = self.model.evaluate(fixed, x, deriv=True)
            return m, dm[:, number:]
        if name == "fixed_expons":
            m, dm = self.model.evaluate(x, fixed, deriv=True)
            return m, dm[:, :number]
        raise ValueError("Argument args is not understandable!")
"""),
 ("fit.py", """                    radii = self.model.radii[center_index]
                avrg2[index] = self.integrate(integrand * radii**2)
""", """                    radii = self.model.radii[center_index, :]
                weighted = integrand * radii * radii
                avrg2[index] = self.integrate(weighted)
"""),
 ("fit.py", """        while ((max_diff_expons > e_threshold or max_diff_coeffs > c_threshold) and
               diff_divergence > d_threshold) and maxiter > niter:
""", """        while niter < maxiter:
            moving = max_diff_expons > e_threshold or max_diff_coeffs > c_threshold
            if not moving or not diff_divergence > d_threshold:
                break
"""),
 ("greedy.py", """        if len(self.err_arr) == 0:
            self.err_arr = [err]
        else:
            self.err_arr.append(err)
""", """        self.err_arr.append(err)
"""),
 ("greedy.py", """        s_coeffs = params[:self.num_s]
        p_coeffs = params[self.num_s:self.num_s + self.num_p]
        s_exps = params[self.num_s + self.num_p:2 * self.num_s + self.num_p]
        p_exps = params[2 * self.num_s + self.num_p:]
        return s_coeffs, s_exps, p_coeffs, p_exps
""", """        half = self.num_s + self.num_p
        coeffs, exps = params[:half], params[half:]
        return coeffs[:self.num_s], exps[:self.num_s], coeffs[self.num_s:], exps[self.num_s:]
"""),
 ("greedy.py", """        for i in range(0, num_s_choices + num_p_choices):
            # Get the function parameter guess.
            param = param_list[i]

            # Update""", """        for i, param in enumerate(param_list[:num_s_choices + num_p_choices]):
            # Update"""),
 ("greedy.py", """        p_min = min(
            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
        )
        return p_min[1]
""", """        best, best_cost = p1, cost_func1
        for cost, param in ((cost_func2, p2), (cost_func3, p3)):
            if cost < best_cost:
                best, best_cost = param, cost
        return best
"""),
 ("greedy.py", """    for i, c in enumerate(choices_coeff):
        all_choices_params.append(np.append(c, choices_fparams[i]))
    return all_choices_params
""", """    for c, e in zip(choices_coeff, choices_fparams):
        all_choices_params.append(np.hstack((c, e)))
    return all_choices_params
"""),
 ("greedy.py", """        for j in range(0, len(p) // 2):
            new_coeff = np.delete(coeff, j)
            new_exp = np.delete(exp, j)
            all_choices.append(np.append(new_coeff, new_exp))
    return all_choices
""", """        for j in range(len(coeff)):
            new_coeff = np.concatenate((coeff[:j], coeff[j + 1:]))
            new_exp = np.concatenate((exp[:j], exp[j + 1:]))
            all_choices.append(np.concatenate((new_coeff, new_exp)))
    return all_choices
"""),
]
