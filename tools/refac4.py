"""Behaviour-preserving bundles, fourth set: readers of data files, helpers extracted, loops rewritten."""
B = BUNDLES = {}

B["f"] = [
 ("fit.py", """        # split optimized coeffs & expons
        if opt_coeffs and opt_expons:
            coeffs, expons = res["x"][:self.model.nbasis], res["x"][self.model.nbasis:]
        elif opt_coeffs:
            coeffs, expons = res["x"], e0
        else:
            coeffs, expons = c0, res["x"]
""", """        def unpack(vector):
            # optimized coefficients & exponents of a parameter vector
            if opt_coeffs and opt_expons:
                half = self.model.nbasis
                return vector[:half], vector[half:]
            return (vector, e0) if opt_coeffs else (c0, vector)

        coeffs, expons = unpack(res["x"])
"""),
 ("fit.py", """        d_obj = np.zeros_like(x)
        for index in range(len(x)):
            d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
        return obj, d_obj
""", """        factor = self.weights * dk
        d_obj = np.array([self.integrate(factor * column) for column in dm.T], dtype=x.dtype)
        return obj, d_obj
"""),
 ("fit.py", """        m, _ = self.evaluate_model(x, *args)
        cons = self.integral_dens - self.integrate(m)
        return cons
""", """        return self.integral_dens - self.integrate(self.evaluate_model(x, *args)[0])
"""),
 ("fit.py", """        for index in range(self.model.nbasis):
            integrand = -dk * dm[:, index]
            avrg1[index] = self.integrate(integrand)
            if update_expons:
                if self.model.natoms == 1:
                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = np.ravel(self.model.radii)
                else:
                    # case of MolecularGaussianDensity model with more than 1 atom
                    center_index = self.model.assign_basis_to_center(index)
                    radii = self.model.radii[center_index]
                avrg2[index] = self.integrate(integrand * radii**2)
""", """        def basis_radii(index):
            # distances from the center of a basis function
            if self.model.natoms > 1:
                return self.model.radii[self.model.assign_basis_to_center(index)]
            return self.model.radii.ravel()

        for index in range(self.model.nbasis):
            integrand = dm[:, index] * (-dk)
            avrg1[index] = self.integrate(integrand)
            if not update_expons:
                continue
            avrg2[index] = self.integrate(basis_radii(index)**2 * integrand)
"""),
 ("fit.py", """        approx = self.model.evaluate(coeffs, expons)
        diff = np.abs(self.density - approx)
        return [
            self.integrate(approx),
            self.integrate(diff),
            np.max(diff),
            self.integrate(self.ls_error.evaluate(self.density, approx, deriv=False)),
            self.integrate(self.kl_error.evaluate(self.density, approx, deriv=False))
        ]
""", """        approx = self.model.evaluate(coeffs, expons)
        diff = abs(approx - self.density)
        errors = [self.integrate(approx), self.integrate(diff), diff.max()]
        for measure in (self.ls_error, self.kl_error):
            errors.append(self.integrate(measure.evaluate(self.density, approx)))
        return errors
"""),
 ("grid.py", """        coords = np.array(
            np.meshgrid(
                np.arange(shape[0]), np.arange(shape[1]), np.arange(shape[2])
            )
        )
        coords = np.swapaxes(coords, 1, 2)
        coords = coords.reshape(3, -1)
        points = coords.T.dot(self._axes) + origin
""", """        coords = np.indices((shape[0], shape[1], shape[2])).reshape(3, -1)
        points = origin + np.dot(coords.T, self._axes)
"""),
 ("grid.py", """        volume = self._calculate_volume(shape)
        numpnt = 1.0 * np.prod(shape)
        weights = np.full(np.prod(shape), volume / numpnt)
        return weights
""", """        numpnt = np.prod(shape)
        return self._calculate_volume(shape) / numpnt * np.ones(numpnt)
"""),
 ("grid.py", """        shape = (max_coordinate - min_coordinate + 2.0 * extension) / spacing
        # Add one to include the upper-bound as well.
        shape = np.ceil(shape)
        shape = np.array(shape, int)
""", """        length = new_coordinates.max(axis=0) - new_coordinates.min(axis=0) + 2.0 * extension
        shape = np.ceil(length / spacing).astype(int)
"""),
 ("greedy.py", """        best_local_value = np.inf
        best_local_param = None
        is_s_optimal = False
        for i in range(0, num_s_choices + num_p_choices):
            # Get the function parameter guess.
            param = param_list[i]
            # Update model for the new number of S-type and P-type functions.
            if i < num_s_choices:
                # Update the number of s-type basis functions for this guess.
                self.model.change_numb_s_and_numb_p(
                    self.num_s + self.numb_func_increase, self.num_p
                )
            else:
                # Update the number of p-type basis functions for this guess.
                self.model.change_numb_s_and_numb_p(
                    self.num_s, self.num_p + self.numb_func_increase
                )
""", """        best_local_value = np.inf
        best_local_param = None
        is_s_optimal = False
        step = self.numb_func_increase
        for i, param in enumerate(param_list[:num_s_choices + num_p_choices]):
            # Update model for the new number of S-type and P-type functions.
            add_s = i < num_s_choices
            counts = (self.num_s + step, self.num_p) if add_s else (self.num_s, self.num_p + step)
            self.model.change_numb_s_and_numb_p(*counts)
"""),
 ("greedy.py", """        p1 = self._solve_one_function_weight(weight1)
        cost_func1 = self.eval_obj_function(p1)
        p2 = self._solve_one_function_weight(self.density)
        cost_func2 = self.eval_obj_function(p2)
        p3 = self._solve_one_function_weight(weight3)
        cost_func3 = self.eval_obj_function(p3)
        p_min = min(
            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
        )
        return p_min[1]
""", """        solutions = [
            self._solve_one_function_weight(w) for w in (weight1, self.density, weight3)
        ]
        return min(solutions, key=self.eval_obj_function)
"""),
 ("greedy.py", """        coeffs, exps = params[:len(params)//2], params[len(params)//2:]
        if local:
            result = self.fitting_obj.run(
                coeffs, exps, opt_coeffs=True, opt_expons=True,
                maxiter=self.l_maxiter, c_threshold=self.l_threshold_coeff,
                e_threshold=self.l_threshold_exp, d_threshold=self.l_threshold_obj,
                disp=False
            )
            return np.hstack((result["coeffs"], result["exps"]))
        result = self.fitting_obj.run(
            coeffs, exps, opt_coeffs=True, opt_expons=True, maxiter=self.g_maxiter,
            c_threshold=self.g_threshold_coeff, e_threshold=self.g_threshold_exp,
            d_threshold=self.g_threshold_obj, disp=False
        )
        return np.hstack((result["coeffs"], result["exps"]))
""", """        coeffs, exps = np.split(params, 2)
        names = ("maxiter", "c_threshold", "e_threshold", "d_threshold")
        if local:
            values = (self.l_maxiter, self.l_threshold_coeff, self.l_threshold_exp, self.l_threshold_obj)
        else:
            values = (self.g_maxiter, self.g_threshold_coeff, self.g_threshold_exp, self.g_threshold_obj)
        result = self.fitting_obj.run(coeffs, exps, **dict(zip(names, values)))
        return np.concatenate((result["coeffs"], result["exps"]))
"""),
 ("model.py", """        nbasis = np.sum(self._basis, axis=1)
        # get the center to which the basis function belongs
        index = np.where(np.cumsum(nbasis) >= index + 1)[0][0]
        return index
""", """        last = np.cumsum(self._basis.sum(axis=1))
        # get the center to which the basis function belongs
        return np.searchsorted(last, index, side="right")
"""),
]

B["g"] = [
 ("_slater.py", """        if t_orbital[1] == "S":
            return int(t_orbital[0]) + 1
        elif t_orbital[1] == "P":
            return int(t_orbital[0])
        elif t_orbital[1] == "D":
            return int(t_orbital[0]) - 1
        elif t_orbital[1] == "F":
            return int(t_orbital[0]) - 2
        else:
            raise ValueError(f"Did not recognize orbital {t_orbital}.")
""", """        number, letter = t_orbital
        if letter not in "SPDF":
            raise ValueError(f"Did not recognize orbital {t_orbital}.")
        return int(number) + 1 - "SPDF".index(letter)
"""),
 ("_slater.py", """        for x in shells:
            if x in electron_config_list:
                if x == "K":
                    out["1S"] = 2
                elif x == "L":
                    out["2S"] = 2
                    out["2P"] = 6
                elif x == "M":
                    out["3S"] = 2
                    out["3P"] = 6
                    out["3D"] = 10
                elif x == "N":
                    out["4S"] = 2
                    out["4P"] = 6
                    out["4D"] = 10
                    out["4F"] = 14
""", """        capacity = {"S": 2, "P": 6, "D": 10, "F": 14}
        for number, x in enumerate(shells, start=1):
            if x in electron_config_list:
                for letter in "SPDF"[:number]:
                    out[f"{number}{letter}"] = capacity[letter]
"""),
 ("_slater.py", """        if "[XE]" in configuration:
            true_configuration += "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)"
            true_configuration += configuration.split("[XE]")[1]
        elif "[RN]" in configuration:
            # Add Xenon
            true_configuration += "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)"
            # Add Rn
            true_configuration += "4F(14)6S(2)5D(10)6P(6)"
            # Add rest
            true_configuration += configuration.split("[RN]")[1]
        else:
            raise ValueError("Heavy element is not the right format for parsing.")
        return true_configuration
""", """        xenon = "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)"
        cores = {"[XE]": xenon, "[RN]": xenon + "4F(14)6S(2)5D(10)6P(6)"}
        for name, core in cores.items():
            before, found, valence = configuration.partition(name)
            if found:
                return core + valence
        raise ValueError("Heavy element is not the right format for parsing.")
"""),
 ("_slater.py", """        next_line = f.readline()
        # Sometimes there are blank lines.
        while len(next_line.strip()) == 0:
            next_line = f.readline()
""", """        # Sometimes there are blank lines.
        next_line = next(text for text in f if text.strip())
"""),
 ("_slater.py", """                line = f.readline()
                orbitals_energy.extend([float(x) for x in line.split()[1:]])
                if not is_heavy_element:
                    # Heavy atoms slater files, doesn't have cusp values,.
                    line = f.readline()
                    orbitals_cusp.extend([float(x) for x in line.split()[1:]])
                line = f.readline()
""", """                orbitals_energy += map(float, f.readline().split()[1:])
                if not is_heavy_element:
                    # Heavy atoms slater files, doesn't have cusp values,.
                    orbitals_cusp += map(float, f.readline().split()[1:])
                line = f.readline()
"""),
 ("_slater.py", """                    list_words = line.split()
                    orbitals_exp[subshell] += [float(list_words[1])]
                    orbitals_basis[subshell] += [list_words[0]]
                    for x in list_of_orbitals:
                        orbitals_coeff[x] += [float(list_words[_get_column(x)])]
                    line = f.readline()
""", """                    label, exponent, *coefficients = line.split()
                    orbitals_basis[subshell].append(label)
                    orbitals_exp[subshell].append(float(exponent))
                    for x in list_of_orbitals:
                        orbitals_coeff[x].append(float(coefficients[_get_column(x) - 2]))
                    line = f.readline()
"""),
 ("_slater.py", """            'orbitals_exp':
                {key: np.asarray(value).reshape(len(value), 1)
                 for key, value in orbitals_exp.items()
                 if value},
            'orbitals_coeff':
                {key: np.asarray(value).reshape(len(value), 1)
                 for key, value in orbitals_coeff.items() if value != []},
""", """            'orbitals_exp':
                {key: np.array(orbitals_exp[key])[:, np.newaxis] for key in orbitals_exp
                 if len(orbitals_exp[key]) > 0},
            'orbitals_coeff':
                {key: np.vstack(value) for key, value in orbitals_coeff.items() if value},
"""),
 ("_slater.py", """            'orbitals_occupation': np.array([_get_number_of_electrons_per_orbital(configuration)[k]
                                             for k in orbitals])[:, None],
""", """            'orbitals_occupation': np.array(
                list(map(_get_number_of_electrons_per_orbital(configuration).get, orbitals))
            ).reshape(-1, 1),
"""),
 ("parse_ugbs.py", """    path_to_function = os.path.abspath(inspect.getfile(get_ugbs_exponents))
    path_to_function = path_to_function[:-13]  # Remove parse_ugbs.py <- 13 characters
    file_path = path_to_function + r"data/ygbs"
    output = {"S" : [], "P" : [], "D" : [], "F" : []}
    with open(file_path, "r", encoding="utf8") as f:
        for line in f:
            split_words = line.strip().split()
            if len(split_words) > 0 and split_words[0].lower() == element.lower():
                next_line = f.readline().strip().split()
                output[split_words[1]].append(float(next_line[0]))
    return output
""", """    file_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "ygbs")
    output = {shell: [] for shell in "SPDF"}
    name = element.lower()
    with open(file_path, encoding="utf8") as f:
        words = [line.split() for line in f]
    for head, row in zip(words, words[1:]):
        if head and head[0].lower() == name:
            output[head[1]].append(float(row[0]))
    return output
"""),
 ("density.py", """        orb_occs = self.orbitals_occupation
        if mode == "valence":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
        elif mode == "core":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
        # compute density
        dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
        return dens
""", """        gap = self.orbitals_energy - self.orbitals_energy.max()
        share = np.exp(-gap * gap)
        factor = {"total": 1.0, "valence": share, "core": 1.0 - share}[mode]
        orb_occs = np.ravel(self.orbitals_occupation * factor)
        # compute density
        return self.phi_matrix(points)**2 @ orb_occs / (4 * np.pi)
"""),
 ("density.py", """        phi_matrix = np.zeros((len(points), len(self.orbitals)))
        for index, orbital in enumerate(self.orbitals):
            exps, number = self.orbitals_exp[orbital[1]], self.basis_numbers[orbital[1]]
            if deriv:
                slater = self.derivative_radial_slater_type_orbital(exps, number, points)
            else:
                slater = self.radial_slater_orbital(exps, number, points)
            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()
        return phi_matrix
""", """        radial = self.derivative_radial_slater_type_orbital if deriv else self.radial_slater_orbital
        columns = []
        for orbital in self.orbitals:
            shell = orbital[1]
            slater = radial(self.orbitals_exp[shell], self.basis_numbers[shell], points)
            columns.append(np.dot(slater, self.orbitals_coeff[orbital])[:, 0])
        return np.column_stack(columns)
"""),
 ("model.py", """        total_g = np.zeros(len(self.points))
        if deriv:
            total_dg = np.zeros((len(self.points), 2 * self.nbasis))
        # compute contribution of each center
        count = 0
        for center in self.center:
            # get coeffs & expons of center
            cs = coeffs[count: count + center.nbasis]
            es = expons[count: count + center.nbasis]
            if deriv:
                # compute linear combination of gaussian placed on center & its derivatives
                g, dg = center.evaluate(cs, es, deriv)
                # split derivatives w.r.t. coeffs & expons
                dg_c = dg[:, :center.nbasis]
                dg_e = dg[:, center.nbasis:]
                # add contributions to the total array
                total_g += g
                total_dg[:, count: count + center.nbasis] = dg_c
                total_dg[:, self.nbasis + count: self.nbasis + count + center.nbasis] = dg_e
            else:
                # compute linear combination of gaussian placed on center
                total_g += center.evaluate(cs, es, deriv)
            count += center.nbasis
        if deriv:
            return total_g, total_dg
        return total_g
""", """        npts, nbasis = len(self.points), self.nbasis
        total_g = np.zeros(npts)
        total_dc, total_de = np.zeros((npts, nbasis)), np.zeros((npts, nbasis))
        start = 0
        for center in self.center:
            part = slice(start, start + center.nbasis)
            start = part.stop
            result = center.evaluate(coeffs[part], expons[part], deriv)
            if not deriv:
                total_g = total_g + result
                continue
            total_g = total_g + result[0]
            total_dc[:, part], total_de[:, part] = np.hsplit(result[1], 2)
        if deriv:
            return total_g, np.hstack((total_dc, total_de))
        return total_g
"""),
 ("measure.py", """        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
        integrand = value / (self.alpha - 1.0)
        if deriv:
            return integrand, -np.power(ratio, self.alpha)
        return integrand
""", """        masked = np.ma.masked_where(model <= self.mask_value, model)
        ratio = (density / masked).filled(0.0)
        exponent = self.alpha - 1.0
        integrand = density * (ratio**exponent - 1.0) / exponent
        return (integrand, -(ratio**self.alpha)) if deriv else integrand
"""),
]
