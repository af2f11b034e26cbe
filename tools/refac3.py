"""Behaviour-preserving bundles, third set: other idioms for the same computations."""
B = BUNDLES = {}

B["e"] = [
 ("model.py", """        # evaluate all Gaussian basis on the grid, i.e., exp(-a * r**2)
        matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])

        # compute linear combination of Gaussian basis
        if self.np == 0:
            # only s-type Gaussian basis functions
            return self._eval_s(matrix, coeffs, expons, deriv)
        elif self.ns == 0:
            # only p-type Gaussian basis functions
            return self._eval_p(matrix, coeffs, expons, deriv)
        else:
            # both s-type & p-type Gaussian basis functions
            gs = self._eval_s(matrix[:, :self.ns], coeffs[:self.ns], expons[:self.ns], deriv)
            gp = self._eval_p(matrix[:, self.ns:], coeffs[self.ns:], expons[self.ns:], deriv)
            if deriv:
                # split derivatives w.r.t. coeffs & expons
                d_coeffs = np.concatenate((gs[1][:, :self.ns], gp[1][:, :self.np]), axis=1)
                d_expons = np.concatenate((gs[1][:, self.ns:], gp[1][:, self.np:]), axis=1)
                return gs[0] + gp[0], np.concatenate((d_coeffs, d_expons), axis=1)
            return gs + gp
""", """        r_squared = np.square(self.radii).reshape(-1, 1)
        matrix = np.exp(-(r_squared * expons))
        if self.ns == 0:
            return self._eval_p(matrix, coeffs, expons, deriv)
        if self.np == 0:
            return self._eval_s(matrix, coeffs, expons, deriv)
        n = self.ns
        parts = (
            self._eval_s(matrix[:, :n], coeffs[:n], expons[:n], deriv),
            self._eval_p(matrix[:, n:], coeffs[n:], expons[n:], deriv),
        )
        if not deriv:
            return parts[0] + parts[1]
        (g_s, dg_s), (g_p, dg_p) = parts
        columns = [dg_s[:, :n], dg_p[:, :self.np], dg_s[:, n:], dg_p[:, self.np:]]
        return g_s + g_p, np.hstack(columns)
"""),
 ("model.py", """        # make linear combination of Gaussian basis on the grid
        g = np.dot(matrix, coeffs)

        # compute derivatives
        if deriv:
            dg = np.zeros((len(self.radii), 2 * coeffs.size))
            # derivative w.r.t. coefficients
            dg[:, :coeffs.size] = matrix
            # derivative w.r.t. exponents
            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            if self.normalized:
                matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])
                dg[:, coeffs.size:] += 1.5 * matrix * (coeffs * expons**0.5)[None, :] / np.pi**1.5
            return g, dg
        return g
""", """        g = matrix @ coeffs
        if not deriv:
            return g
        r_squared = (self.radii * self.radii)[:, np.newaxis]
        d_expons = -coeffs * matrix * r_squared
        if self.normalized:
            bare = np.exp(-expons * r_squared)
            d_expons = d_expons + bare * (1.5 * coeffs * np.sqrt(expons)) / np.pi**1.5
        return g, np.concatenate((matrix, d_expons), axis=1)
"""),
 ("model.py", """        count = 0
        for center in self.center:
            # get coeffs & expons of center
            cs = coeffs[count: count + center.nbasis]
            es = expons[count: count + center.nbasis]
            if deriv:
                # compute linear combination of gaussian placed on center & its derivatives
                g, dg = center.evaluate(cs, es, deriv)
                # split derivatives w.r.t. coeffs & expons
                dg_c = dg[:, :center.nbasis]
                dg_e = dg[:, center.nbasis:]
                # add contributions to the total array
                total_g += g
                total_dg[:, count: count + center.nbasis] = dg_c
                total_dg[:, self.nbasis + count: self.nbasis + count + center.nbasis] = dg_e
            else:
                # compute linear combination of gaussian placed on center
                total_g += center.evaluate(cs, es, deriv)
            count += center.nbasis
        if deriv:
            return total_g, total_dg
        return total_g
""", """        stop = 0
        for center in self.center:
            start, stop = stop, stop + center.nbasis
            block = slice(start, stop)
            if not deriv:
                total_g += center.evaluate(coeffs[block], expons[block])
                continue
            g, dg = center.evaluate(coeffs[block], expons[block], True)
            total_g += g
            total_dg[:, block] = dg[:, :center.nbasis]
            total_dg[:, self.nbasis + start:self.nbasis + stop] = dg[:, center.nbasis:]
        return (total_g, total_dg) if deriv else total_g
"""),
 ("measure.py", """        # compute residual
        residual = density - model
        # compute squared residual
        value = np.power(residual, 2)
        # compute derivative of squared residual w.r.t. model
        if deriv:
            return value, -2 * residual
        return value
""", """        residual = np.subtract(density, model)
        value = np.square(residual)
        return (value, -(residual + residual)) if deriv else value
"""),
 ("measure.py", """        if np.any(model < 0.):
            if deriv:
                # Add an incredibly large derivative
                return np.array([self.negative_val] * model.shape[0]), \\
                       np.array([self.negative_val] * model.shape[0])
            return np.array([self.negative_val] * model.shape[0])
""", """        if model.size > 0 and model.min() < 0.:
            penalty = np.full(model.shape, self.negative_val)
            return (penalty, penalty.copy()) if deriv else penalty
"""),
 ("measure.py", """        value = np.where(ratio == 0., 0., value)
""", """        value[ratio == 0.] = 0.
"""),
 ("density.py", """        # compute orbital composed of a linear combination of Slater
        phi_matrix = np.zeros((len(points), len(self.orbitals)))
        for index, orbital in enumerate(self.orbitals):
            exps, number = self.orbitals_exp[orbital[1]], self.basis_numbers[orbital[1]]
            if deriv:
                slater = self.derivative_radial_slater_type_orbital(exps, number, points)
            else:
                slater = self.radial_slater_orbital(exps, number, points)
            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()
        return phi_matrix
""", """        radial = self.derivative_radial_slater_type_orbital if deriv else self.radial_slater_orbital
        columns = []
        for orbital in self.orbitals:
            shell = orbital[1]
            slater = radial(self.orbitals_exp[shell], self.basis_numbers[shell], points)
            columns.append((slater @ self.orbitals_coeff[orbital]).ravel())
        return np.array(columns).T
"""),
 ("density.py", """        orb_occs = self.orbitals_occupation
        if mode == "valence":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
        elif mode == "core":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
        # compute density
        dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
        return dens
""", """        weights = np.array(self.orbitals_occupation, dtype=float)
        if mode != "total":
            gap = self.orbitals_energy - self.orbitals_energy.max()
            share = np.exp(-gap * gap)
            weights *= share if mode == "valence" else 1. - share
        squares = np.square(self.phi_matrix(points))
        return (squares @ weights).ravel() / (4. * np.pi)
"""),
 ("density.py", """        factor = self.phi_matrix(points) * self.phi_matrix(points, deriv=True)
        derivative = np.dot(2. * factor, self.orbitals_occupation).ravel() / (4 * np.pi)
        return derivative
""", """        phi, d_phi = (self.phi_matrix(points, deriv=flag) for flag in (False, True))
        return np.ravel((phi * d_phi) @ self.orbitals_occupation) / (2 * np.pi)
"""),
 ("grid.py", """        # calculate center of mass of the nuclear charges:
        totz = np.sum(atcorenums)
        com = np.dot(atcorenums, atcoords) / totz
""", """        com = (atcorenums[:, None] * atcoords).sum(axis=0) / atcorenums.sum()
"""),
 ("grid.py", """        max_coordinate = np.amax(new_coordinates, axis=0)
        min_coordinate = np.amin(new_coordinates, axis=0)

        # Compute the required number of points along x, y, and z axis
        shape = (max_coordinate - min_coordinate + 2.0 * extension) / spacing
        # Add one to include the upper-bound as well.
        shape = np.ceil(shape)
        shape = np.array(shape, int)
""", """        max_coordinate = new_coordinates.max(axis=0)
        min_coordinate = new_coordinates.min(axis=0)
        length = 2.0 * extension + (max_coordinate - min_coordinate)
        shape = np.ceil(length / spacing).astype(int)
"""),
 ("grid.py", """            points = np.concatenate((core_points, diff_points, extra_pts))
        else:
            points = np.concatenate((core_points, diff_points))
        super().__init__(np.sort(points))
""", """            pieces = [extra_pts, diff_points, core_points]
        else:
            pieces = [diff_points, core_points]
        points = np.hstack(pieces)
        points.sort()
        super().__init__(points)
"""),
 ("fit.py", """        avrg1, avrg2 = np.zeros(self.model.nbasis), np.zeros(self.model.nbasis)
        for index in range(self.model.nbasis):
            integrand = -dk * dm[:, index]
            avrg1[index] = self.integrate(integrand)
            if update_expons:
                if self.model.natoms == 1:
                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = np.ravel(self.model.radii)
                else:
                    # case of MolecularGaussianDensity model with more than 1 atom
                    center_index = self.model.assign_basis_to_center(index)
                    radii = self.model.radii[center_index]
                avrg2[index] = self.integrate(integrand * radii**2)
        # compute updated coeffs & expons
        if update_coeffs:
            coeffs = coeffs * avrg1 / self._lm
        if update_expons:
            expons = self.model.prefactor * avrg1 / avrg2
        return coeffs, expons
""", """        nbasis = self.model.nbasis
        weighted = [-dk * dm[:, i] for i in range(nbasis)]
        avrg1 = np.array([self.integrate(w) for w in weighted])
        if update_expons:
            avrg2 = np.array([self.integrate(w * self._radii_of(i)**2) for i, w in enumerate(weighted)])
            expons = avrg1 * self.model.prefactor / avrg2
        if update_coeffs:
            coeffs = avrg1 * coeffs / self._lm
        return coeffs, expons

    def _radii_of(self, index):
        if self.model.natoms > 1:
            return self.model.radii[self.model.assign_basis_to_center(index)]
        return np.ravel(self.model.radii)
"""),
 ("fit.py", """        d_obj = np.zeros_like(x)
        for index in range(len(x)):
            d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
        return obj, d_obj
""", """        slope = dk * self.weights
        gradient = [self.integrate(slope * column) for column in dm.T]
        return obj, np.array(gradient, dtype=float)
"""),
 ("greedy.py", """        s_coeffs = params[:self.num_s]
        p_coeffs = params[self.num_s:self.num_s + self.num_p]
        s_exps = params[self.num_s + self.num_p:2 * self.num_s + self.num_p]
        p_exps = params[2 * self.num_s + self.num_p:]
        return s_coeffs, s_exps, p_coeffs, p_exps
""", """        half = self.num_s + self.num_p
        coeffs, exps = params[:half], params[half:]
        return coeffs[:self.num_s], exps[:self.num_s], coeffs[self.num_s:], exps[self.num_s:]
"""),
 ("greedy.py", """        best_local_value = np.inf
        best_local_param = None
        is_s_optimal = False
        for i in range(0, num_s_choices + num_p_choices):
            # Get the function parameter guess.
            param = param_list[i]
            # Update model for the new number of S-type and P-type functions.
            if i < num_s_choices:
                # Update the number of s-type basis functions for this guess.
                self.model.change_numb_s_and_numb_p(
                    self.num_s + self.numb_func_increase, self.num_p
                )
            else:
                # Update the number of p-type basis functions for this guess.
                self.model.change_numb_s_and_numb_p(
                    self.num_s, self.num_p + self.numb_func_increase
                )
            # Optimize using this initial guess and get cost-function value.
            local_param = self.get_optimization_routine(param, local=True)
            cost_func = self.eval_obj_function(local_param)
            # If it is the best found, then return it.
            if best_local_param is None or np.isnan(best_local_value) or \\
                    cost_func < best_local_value:
                best_local_value = self.eval_obj_function(local_param)
                best_local_param = local_param
                is_s_optimal = bool(i < num_s_choices)
        return best_local_value, best_local_param, is_s_optimal
""", """        best = None
        for i, guess in enumerate(param_list[:num_s_choices + num_p_choices]):
            is_s = i < num_s_choices
            grow = self.numb_func_increase
            self.model.change_numb_s_and_numb_p(
                self.num_s + (grow if is_s else 0), self.num_p + (0 if is_s else grow)
            )
            trial = self.get_optimization_routine(guess, local=True)
            cost = self.eval_obj_function(trial)
            if best is None or np.isnan(best[0]) or cost < best[0]:
                best = (cost, trial, is_s)
        return best
"""),
 ("greedy.py", """    for index, exp in np.ndenumerate(fparams):
        if index[0] == 0:
            exps_arr = np.insert(fparams, index, exp / factor)
            coeffs_arr = np.insert(coeffs, index, coeff_val)

        elif index[0] <= size:
            exps_arr = np.insert(fparams, index, (fparams[index[0] - 1] +
                                                  fparams[index[0]]) / 2)
            coeffs_arr = np.insert(coeffs, index, coeff_val)

        all_choices.append(np.append(coeffs_arr, exps_arr))

        if index[0] == size - 1:
            exps_arr = np.append(fparams, np.array([exp * factor]))
            endpt = np.append(coeffs, np.array([coeff_val]))
            all_choices.append(np.append(endpt, exps_arr))
    return all_choices
""", """    for i in range(size + 1):
        if i == 0:
            new = fparams[0] / factor
        elif i == size:
            new = fparams[-1] * factor
        else:
            new = 0.5 * (fparams[i - 1] + fparams[i])
        all_choices.append(np.concatenate(
            (coeffs[:i], [coeff_val], coeffs[i:], fparams[:i], [new], fparams[i:])
        ))
    return all_choices
"""),
]
