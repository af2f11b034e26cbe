B = BUNDLES = {}
B["loop"] = [
 ("fit.py", """        while ((max_diff_expons > e_threshold or max_diff_coeffs > c_threshold) and
               diff_divergence > d_threshold) and maxiter > niter:
""", """        while niter < maxiter:
            moving = max_diff_expons > e_threshold or max_diff_coeffs > c_threshold
            if not moving or not diff_divergence > d_threshold:
                break
"""),
]
B["loop2"] = [
 ("fit.py", """        while ((max_diff_expons > e_threshold or max_diff_coeffs > c_threshold) and
               diff_divergence > d_threshold) and maxiter > niter:
""", """        while niter < maxiter:
"""),
 ("fit.py", """                     niter, *performance[-1], max_diff_coeffs, max_diff_expons, diff_divergence)
                )
""", """                     niter, *performance[-1], max_diff_coeffs, max_diff_expons, diff_divergence)
                )
            if not diff_divergence > d_threshold:
                break
            if not (max_diff_expons > e_threshold or max_diff_coeffs > c_threshold):
                break
"""),
]
# ---- c: the loops kept, their bookkeeping changed
B["c"] = [
 ("fit.py", """            performance.append(self.goodness_of_fit(new_cs, new_es))
            fun.append(performance[-1][-1])
            niter += 1
            # compute absolute change in divergence
            if niter != 1:
                diff_divergence = np.abs(performance[niter - 1][-1] - performance[niter - 2][-1])
""", """            errors = self.goodness_of_fit(new_cs, new_es)
            divergence = errors[-1]
            # compute absolute change in divergence
            if niter > 0:
                diff_divergence = np.abs(divergence - fun[-1])
            performance.append(errors)
            fun.append(divergence)
            niter = niter + 1
"""),
 ("fit.py", """            if opt_coeffs and opt_expons:
                new_cs, new_es = self._update_params(new_cs, new_es, True, True)
            elif opt_coeffs:
                new_cs, new_es = self._update_params(new_cs, new_es, True, False)
            elif opt_expons:
                new_cs, new_es = self._update_params(new_cs, new_es, False, True)
            else:
                raise ValueError("Both opt_coeffs & opt_expons are False! Nothing to optimize!")
""", """            if not (opt_coeffs or opt_expons):
                raise ValueError("Both opt_coeffs & opt_expons are False! Nothing to optimize!")
            new_cs, new_es = self._update_params(
                old_cs, old_es, update_coeffs=bool(opt_coeffs), update_expons=bool(opt_expons)
            )
"""),
 ("fit.py", """        if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
            success = False
        elif not np.all(np.isfinite(np.hstack((new_cs, new_es, fun[-1:])))):
            # parameters or objective function diverged
            success = False
        else:
            success = True
""", """        exhausted = maxiter == niter and diff_divergence > d_threshold
        finite = np.all(np.isfinite(new_cs)) and np.all(np.isfinite(new_es)) \\
            and np.all(np.isfinite(fun[-1:]))
        success = bool(finite) and not exhausted and not np.isnan(diff_divergence)
"""),
 ("fit.py", """        # split optimized coeffs & expons
        if opt_coeffs and opt_expons:
            coeffs, expons = res["x"][:self.model.nbasis], res["x"][self.model.nbasis:]
        elif opt_coeffs:
            coeffs, expons = res["x"], e0
        else:
            coeffs, expons = c0, res["x"]
""", """        # split optimized coeffs & expons
        coeffs, expons = c0, e0
        solution = res["x"]
        if opt_coeffs:
            coeffs = solution[:self.model.nbasis]
        if opt_expons:
            expons = solution[self.model.nbasis:] if opt_coeffs else solution
"""),
 ("fit.py", """        # set bounds, initial guess & args
        if opt_coeffs and opt_expons:
            bounds = [(1.e-12, np.inf)] * 2 * self.model.nbasis
            x0 = np.concatenate((c0, e0))
            args = ()
        elif opt_coeffs:
            bounds = [(1.e-12, np.inf)] * self.model.nbasis
            x0 = c0
            args = ("fixed_expons", e0)
        elif opt_expons:
            bounds = [(1.e-12, np.inf)] * self.model.nbasis
            x0 = e0
            args = ("fixed_coeffs", c0)
        else:
            raise ValueError("Nothing to optimize!")
""", """        # set bounds, initial guess & args
        if not opt_coeffs and not opt_expons:
            raise ValueError("Nothing to optimize!")
        if opt_coeffs and opt_expons:
            x0, args = np.hstack((c0, e0)), ()
        elif opt_coeffs:
            x0, args = c0, ("fixed_expons", e0)
        else:
            x0, args = e0, ("fixed_coeffs", c0)
        bounds = [(1.e-12, np.inf) for _ in range(len(x0))]
"""),
 ("greedy.py", """        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \\
                np.abs(best_gval - prev_gval) >= d_threshold:
            s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
""", """        while True:
            if numb_funcs + self.numb_func_increase > max_numb_funcs or numb_redum >= 5:
                break
            if not np.abs(prev_gval - best_gval) >= d_threshold:
                break
            s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
"""),
 ("greedy.py", """            found_s_redundances = self.num_s != len(s_coeffs_new)
            found_p_redundancies = self.num_p != len(p_coeffs_new)
            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
""", """            redundant = (len(s_coeffs_new), len(p_coeffs_new)) != (self.num_s, self.num_p)
            if redundant or not opt_lvalue <= best_gval:
"""),
 ("greedy.py", """            elif opt_lvalue <= best_gval:
                # Take the best""", """            else:
                # Take the best"""),
 ("greedy.py", """                gparams = opt_lparam  # Store for next iteration.
                self.store_errors(gparams)
                params_iter.append(gparams)  # Store parameters.
                prev_gval, best_gval = best_gval, opt_lvalue
                numb_redum = 0    # Reset the number of redundancies.
                factor = factor0  # Reset Original Factor.
""", """                numb_redum, factor = 0, factor0
                params_iter.append(opt_lparam)  # Store parameters.
                gparams = opt_lparam  # Store for next iteration.
                prev_gval = best_gval
                best_gval = opt_lvalue
                self.store_errors(gparams)
"""),
 ("greedy.py", """            choices_parameters_s = [
                np.hstack((x[:self.num_s + self.numb_func_increase], p_coeffs,
                           x[self.num_s + self.numb_func_increase:], p_exps))
                for x in choices_parameters_s
            ]
""", """            number = self.num_s + self.numb_func_increase
            for i, x in enumerate(choices_parameters_s):
                choices_parameters_s[i] = np.hstack((x[:number], p_coeffs, x[number:], p_exps))
"""),
]

# ---- d: larger restructuring of greedy, model and parser
B["d"] = [
 ("greedy.py", """            if self.num_p == 0:
                # Get Three Guesses one from 0 to 1, 1 to 10 and 10 to 100.
                choices_parameters_p = [
                    np.random.random((2 * self.numb_func_increase,)),
                    np.random.random((2 * self.numb_func_increase,)) * 9 + 1,
                    np.random.random((2 * self.numb_func_increase,)) * 90 + 10,
                ]
            else:
                choices_parameters_p = self.next_param_func(factor, p_coeffs, p_exps)
            choices_parameters_p = [
                np.hstack((s_coeffs, x[:self.num_p + self.numb_func_increase],
                           s_exps, x[self.num_p + self.numb_func_increase:]))
                for x in choices_parameters_p
            ]
""", """            choices_parameters_p = self._guess_p(factor, s_coeffs, s_exps, p_coeffs, p_exps)
"""),
 ("greedy.py", """    def _split_parameters(self, params):
""", """    def _guess_p(self, factor, s_coeffs, s_exps, p_coeffs, p_exps):
        increase = self.numb_func_increase
        if self.num_p == 0:
            # Get Three Guesses one from 0 to 1, 1 to 10 and 10 to 100.
            guesses = []
            for scale, shift in ((1, 0), (9, 1), (90, 10)):
                guesses.append(np.random.random((2 * increase,)) * scale + shift)
        else:
            guesses = self.next_param_func(factor, p_coeffs, p_exps)
        out = []
        for x in guesses:
            coeffs, exps = x[:self.num_p + increase], x[self.num_p + increase:]
            out.append(np.concatenate([s_coeffs, coeffs, s_exps, exps]))
        return out

    def _split_parameters(self, params):
"""),
 ("greedy.py", """        coeffs = np.hstack((coeffs_s, coeffs_p))
        expons = np.hstack((exps_s, exps_p))
""", """        half = self.num_s + self.num_p
        coeffs, expons = params_iter[-1][:half], params_iter[-1][half:]
"""),
 ("greedy.py", """    for index, exp in np.ndenumerate(fparams):
        if index[0] == 0:
            exps_arr = np.insert(fparams, index, exp / factor)
            coeffs_arr = np.insert(coeffs, index, coeff_val)
        elif index[0] <= size:
            exps_arr = np.insert(fparams, index, (fparams[index[0] - 1] +
                                                  fparams[index[0]]) / 2)
            coeffs_arr = np.insert(coeffs, index, coeff_val)
        all_choices.append(np.append(coeffs_arr, exps_arr))
        if index[0] == size - 1:
            exps_arr = np.append(fparams, np.array([exp * factor]))
            endpt = np.append(coeffs, np.array([coeff_val]))
            all_choices.append(np.append(endpt, exps_arr))
    return all_choices
""", """    for index in range(size + 1):
        if index == 0:
            exp = fparams[0] / factor
        elif index < size:
            exp = 0.5 * (fparams[index - 1] + fparams[index])
        else:
            exp = fparams[-1] * factor
        exps_arr = np.insert(fparams, index, exp)
        coeffs_arr = np.insert(coeffs, index, coeff_val)
        all_choices.append(np.concatenate((coeffs_arr, exps_arr)))
    return all_choices
"""),
 ("greedy.py", """    new_coeffs = coeffs.copy()
    new_exps = fparams.copy()
    # Indexes where they're the same.
    indexes_same = []
    removed = set()  # Indexes already merged into an earlier one.
    for i, alpha in enumerate(fparams):
        similar_indexes = []
        if i in removed:
            continue
        for j in range(i + 1, len(fparams)):
            if j not in removed:
                if np.abs(alpha - fparams[j]) < eps:
                    if i not in similar_indexes:
                        similar_indexes.append(i)
                    similar_indexes.append(j)
                    removed.add(j)
        if len(similar_indexes) != 0:
            indexes_same.append(similar_indexes)
    # Add the coefficients together and add/group them, if need be
    for group_similar_items in indexes_same:
        for i in range(1, len(group_similar_items)):
            new_coeffs[group_similar_items[0]] += coeffs[group_similar_items[i]]
    if len(indexes_same) != 0:
        indices = [y for x in indexes_same for y in x[1:]]
        new_exps = np.delete(new_exps, indices)
        new_coeffs = np.delete(new_coeffs, indices)
    return new_coeffs, new_exps
""", """    new_coeffs = coeffs.copy()
    size = len(fparams)
    keep = [True] * size
    for i in range(size):
        if not keep[i]:
            continue
        for j in range(i + 1, size):
            if keep[j] and abs(fparams[i] - fparams[j]) < eps:
                new_coeffs[i] += coeffs[j]
                keep[j] = False
    keep = np.array(keep, dtype=bool)
    return new_coeffs[keep], fparams[keep]
"""),
 ("greedy.py", """        exponents_s = exponents[:self.model.num_s]
        grid_squared_col = np.power(self.grid.points, 2.0).reshape((len(self.grid.points), 1))
        exponential = np.exp(-exponents_s * grid_squared_col)
        if self.model.num_p != 0:
            exponents_p = exponents[self.model.num_s:]
            exponential = np.hstack(
                (exponential, grid_squared_col * np.exp(-exponents_p * grid_squared_col))
            )
        return exponential
""", """        squares = self.grid.points ** 2
        matrix = np.exp(-np.outer(squares, exponents))
        matrix[:, self.model.num_s:] *= squares[:, np.newaxis]
        return matrix
"""),
 ("greedy.py", """        if local:
            results = self.fitting_obj.run(
                coeffs, exps, tol=self.local_tol, maxiter=self.l_maxiter,
                with_constraint=self.with_constraint
            )
        else:
            results = self.fitting_obj.run(
                coeffs, exps, tol=self.global_tol, maxiter=self.g_maxiter,
                with_constraint=self.with_constraint
            )
        return np.hstack((results["coeffs"], results["exps"]))
""", """        tol, maxiter = (self.local_tol, self.l_maxiter) if local else \\
            (self.global_tol, self.g_maxiter)
        options = {"tol": tol, "maxiter": maxiter, "with_constraint": self.with_constraint}
        results = self.fitting_obj.run(coeffs, exps, **options)
        return np.concatenate([results[key] for key in ("coeffs", "exps")])
"""),
 ("model.py", """        # multiply r**2 with the evaluated Gaussian basis, i.e., r**2 * exp(-a * r**2)
        matrix = matrix * np.power(self.radii, 2)[:, None]

        if not self.normalized:
            # linear combination of p-basis is the same as s-basis with an extra r**2
            return self._eval_s(matrix, coeffs, expons, deriv)
        # normalize Gaussian basis
        matrix = matrix * (expons[None, :]**2.5 / np.pi**1.5) / 1.5
""", """        squares = self.radii[:, None] ** 2
        # multiply r**2 with the evaluated Gaussian basis, i.e., r**2 * exp(-a * r**2)
        matrix = squares * matrix
        if not self.normalized:
            # linear combination of p-basis is the same as s-basis with an extra r**2
            return self._eval_s(matrix, coeffs, expons, deriv)
        # normalize Gaussian basis
        norms = 2.0 * expons ** 2.5 / (3.0 * np.pi ** 1.5)
        matrix = np.einsum("ij,j->ij", matrix, norms)
"""),
 ("model.py", """            radii = np.linalg.norm(points - self.coord, axis=1)
        else:
            radii = np.abs(points - self.coord)
""", """            radii = np.sqrt(((points - self.coord) ** 2).sum(axis=-1))
        else:
            radii = np.sqrt((points - self.coord[0]) ** 2)
"""),
 ("model.py", """        for i, b in enumerate(basis):
            # get the center of Gaussian basis functions
            self.center.append(AtomicGaussianDensity(points, coords[i], b[0], b[1], normalize))
            self._radii.append(self.center[-1].radii)
        self._radii = np.array(self._radii)
""", """        for coord, (number_s, number_p) in zip(coords, basis):
            # get the center of Gaussian basis functions
            center = AtomicGaussianDensity(
                points, center=coord, num_s=number_s, num_p=number_p, normalize=normalize
            )
            self.center.append(center)
        self._radii = np.stack([center.radii for center in self.center])
"""),
 ("density.py", """            # derivative of the radial component
            deriv_radial = self.derivative_radial_slater_type_orbital(exps, numbers, points)
            phi_matrix[:, index] = np.ravel(np.dot(deriv_radial, self.orbitals_coeff[orbital])**2.0)
""", """            # derivative of the radial component
            coeffs = self.orbitals_coeff[orbital]
            deriv_radial = self.derivative_radial_slater_type_orbital(exps, numbers, points)
            phi_matrix[:, index] = np.dot(deriv_radial, coeffs)[:, 0] ** 2
"""),
 ("grid.py", """            points = 1. - np.cos(
                0.5 * np.pi * np.arange(
                    (1.0 - float(include_origin)), num_pts + int(not include_origin), dtype=dtype
                ) / num_pts
            )
            points /= 2 * self._atomic_number
""", """            first = 0 if include_origin else 1
            steps = np.arange(first, num_pts + first, dtype=dtype)
            points = np.sin(0.25 * np.pi * steps / num_pts) ** 2 / self._atomic_number
"""),
 ("_slater.py", """        for orb in orbitals:
            out[orb] = 0
""", """        out.update({orb: 0 for orb in orbitals})
"""),
 ("_slater.py", """                for x in list_of_orbitals:
                    orbitals_coeff[x] = []   # Initilize""", """                for x in line.split()[1:]:
                    orbitals_coeff[x] = []   # Initilize"""),
]
