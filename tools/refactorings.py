"""refactorings.py [NAME...]: behaviour-preserving edits of /repo, made in
scratch copies, on which every check must stay quiet."""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plant import PY, ENV, sh
CORE = 'uncertainties/core.py'
UMATH = 'uncertainties/umath_core.py'
NPCORE = 'uncertainties/unumpy/core.py'
FIXES = 'uncertainties/lib1to2/fixes/'
ULINALG = 'uncertainties/unumpy/ulinalg.py'

REFACTORINGS = {
    'expansion': [
        (CORE, """            if not isinstance(main_combo, dict):  # Non-expanded form
                for (_, expr) in main_combo:
                    if expr not in combos:
                        combos[expr] = expr.linear_combo
                        num_terms[expr] = 0
                        exprs.append(expr)
                    num_terms[expr] += 1
""", """            if isinstance(main_combo, dict):  # Expanded form
                continue
            for term in main_combo:
                expr = term[1]
                if expr in combos:
                    num_terms[expr] += 1
                    continue
                combos[expr] = expr.linear_combo
                num_terms[expr] = 1
                exprs.append(expr)
"""),
        (CORE, """            if isinstance(main_combo, dict):  # Expanded form
                for (var, factor) in main_combo.items():
                    derivatives[var] += main_factor*factor

            else:  # Non-expanded form
                for (factor, expr) in main_combo:
                    # The main_factor is applied to expr:
                    main_factors[expr] += main_factor*factor
                    num_terms[expr] -= 1
                    if not num_terms[expr]:  # The factor is complete
                        terms.append(expr)
""", """            if not isinstance(main_combo, dict):  # Non-expanded form
                for (factor, expr) in main_combo:
                    # The main_factor is applied to expr:
                    main_factors[expr] += main_factor*factor
                    num_terms[expr] = num_terms[expr]-1
                    if num_terms[expr] == 0:  # The factor is complete
                        terms.append(expr)
                continue

            for var in main_combo:
                derivatives[var] = (
                    derivatives[var] + main_factor*main_combo[var])
"""),
        (CORE, """        if not self._linear_part.expanded():
            self._linear_part.expand()
            # Attempts to get the contribution of a variable that the
            # function does not depend on raise a KeyError:
            self._linear_part.linear_combo.default_factory = None

        return self._linear_part.linear_combo
""", """        linear_part = self._linear_part
        if linear_part.expanded():
            return linear_part.linear_combo

        linear_part.expand()
        # Attempts to get the contribution of a variable that the
        # function does not depend on raise a KeyError:
        linear_part.linear_combo.default_factory = None
        return linear_part.linear_combo
"""),
        (CORE, """        return isinstance(self.linear_combo, dict)
""", """        combo = self.linear_combo
        return type(combo) is dict or isinstance(combo, dict)
""")],
    'plain dictionary': [
        (CORE, """        derivatives = collections.defaultdict(float)

        # The terms""", """        derivatives = {}

        # The terms"""),
        (CORE, """                    derivatives[var] += main_factor*factor
""", """                    derivatives[var] = (
                        derivatives.get(var, 0.) + main_factor*factor)
"""),
        (CORE, """            # Attempts to get the contribution of a variable that the
            # function does not depend on raise a KeyError:
            self._linear_part.linear_combo.default_factory = None
""", ""),
        (CORE, """            self.expand()
            self.linear_combo.default_factory = None
""", """            self.expand()
""")],
    'deviation': [
        (CORE, """        error_components = {}

        for (variable, derivative) in self.derivatives.items():

            # print "TYPE", type(variable), type(derivative)
""", """        error_components = dict()

        derivatives = self.derivatives
        for variable in derivatives:
            derivative = derivatives[variable]
"""),
        (CORE, """            if variable._std_dev == 0:
                # !!! Shouldn't the errors always be floats, as a
                # convention of this module?
                error_components[variable] = 0
            else:
                error_components[variable] = abs(derivative*variable._std_dev)
""", """            std_dev = variable._std_dev
            error_components[variable] = (
                abs(derivative*std_dev) if std_dev != 0 else 0)
"""),
        (CORE, """        scaled_errors = [delta/scale for delta in errors]

        return CallableStdDev(
            scale*sqrt(sum(delta*delta for delta in scaled_errors)))
""", """        variance = 0
        for delta in errors:
            variance += (delta/scale)*(delta/scale)

        return CallableStdDev(scale*sqrt(variance))
""")],
    'fsum': [
        (CORE, """            scale*sqrt(sum(delta*delta for delta in scaled_errors)))
""", """            scale*sqrt(math.fsum(
                delta*delta for delta in reversed(scaled_errors))))
""")],
    'hypot': [
        (CORE, """            scale*sqrt(sum(delta*delta for delta in scaled_errors)))
""", """            math.hypot(*errors)
            if not any(math.isnan(e) for e in errors) else float('nan'))
""")],
    'wrap': [
        (CORE, """        pos_w_uncert = [index for (index, value) in enumerate(args)
                        if isinstance(value, AffineScalarFunc)]
        names_w_uncert = [key for (key, value) in kwargs.items()
                          if isinstance(value, AffineScalarFunc)]
""", """        def uncertain(items):
            return [key for (key, value) in items
                    if isinstance(value, AffineScalarFunc)]

        pos_w_uncert = uncertain(enumerate(args))
        names_w_uncert = uncertain(kwargs.items())
"""),
        (CORE, """        args_values = list(args)  # Now mutable: modified below
        # Arguments with an uncertainty are converted to their nominal
        # value:
        for index in pos_w_uncert:
            args_values[index] = args[index].nominal_value
""", """        args_values = [
            value.nominal_value if isinstance(value, AffineScalarFunc)
            else value for value in args]
"""),
        (CORE, """            derivative = derivatives_all_kwargs.setdefault(
                name,
                # Derivative never needed before:
                partial_derivative(f, name))
""", """            if name not in derivatives_all_kwargs:
                derivatives_all_kwargs[name] = partial_derivative(f, name)
            derivative = derivatives_all_kwargs[name]
"""),
        (CORE, """        for pos in pos_w_uncert:
            linear_part.append((
                # Coefficient:
                derivatives_args_index[pos](*args_values, **kwargs),
                # Linear part of the AffineScalarFunc expression:
                args[pos]._linear_part))
""", """        for pos in pos_w_uncert:
            coefficient = derivatives_args_index[pos](*args_values, **kwargs)
            linear_part += [(coefficient, args[pos]._linear_part)]
"""),
        (CORE, """    # It is easier to work with f_with_affine_output, which represents
    # a wrapped version of 'f', when it bears the same name as 'f':
    # ! __name__ is read-only, in Python 2.3:
    f_with_affine_output.name = f.__name__
""", """    f_with_affine_output.name = f.__name__
    f_with_affine_output.__name__ = f.__name__
""")],
    'numerical derivatives': [
        (CORE, """        return (shifted_f_plus - shifted_f_minus)/2/step
""", """        return (shifted_f_plus - shifted_f_minus)/(2*step)
"""),
        (CORE, """        step = STEP_SIZE*abs(args_with_var[arg_ref])
        if not step:
            # Arbitrary, but "small" with respect to 1:
            step = STEP_SIZE

        args_with_var[arg_ref] += step
""", """        value = args_with_var[arg_ref]
        # Arbitrary step, but "small" with respect to 1, for 0:
        step = STEP_SIZE*abs(value) or STEP_SIZE

        args_with_var[arg_ref] = value + step
"""),
        (CORE, """        args_with_var[arg_ref] -= 2*step  # Optimization: only 1 list copy
""", """        args_with_var[arg_ref] = value - step
""")],
    'operators': [
        (CORE, """        'truediv': ("1/y", "-x/y/y")
        }
""", """        'truediv': ("1./y", "-(x/y)/y")
        }
"""),
        (CORE, """            eval("lambda x, y: %s" % expr) for expr in derivatives ]
""", """            eval("lambda x, y: (%s)" % expr, {}) for expr in derivatives ]
"""),
        (CORE, """        if y == 0:
            return 0.
        elif x != 0 or y % 1 == 0:
            return y*x**(y-1)
        else:
            return float('nan')
""", """        if not y:
            return 0.
        if x == 0 and y % 1 != 0:
            return float('nan')
        return y*x**(y-1)
"""),
        (CORE, """        if x >= 0:
            return 1.
        else:
            return -1.

    # Single""", """        return 1. if x >= 0 else -1.

    # Single"""),
        (CORE, """            value = func(*args, **kwargs)
            if isinstance(value, complex):
                raise ValueError('The uncertainties module does not handle'
                                 ' complex results')
            else:
                return value
""", """            value = func(*args, **kwargs)
            if not isinstance(value, complex):
                return value
            raise ValueError('Complex results are not handled by the'
                             ' uncertainties module')
"""),
        (CORE, """        try:
            y_with_uncert = to_affine_scalar(y)
        except NotUpcast:
""", """        try:
            y_with_uncert = (y if isinstance(y, AffineScalarFunc)
                             else to_affine_scalar(y))
        except NotUpcast:
""")],
    'variables': [
        (CORE, """        super(Variable, self).__init__(value, LinearCombination({self: 1.}))

        self.std_dev = std_dev  # Assignment through a Python property

        self.tag = tag
""", """        self.tag = tag

        super(Variable, self).__init__(value, LinearCombination({self: 1.}))

        self.std_dev = std_dev  # Assignment through a Python property
"""),
        (CORE, """        return Variable(self.nominal_value, self.std_dev, self.tag)
""", """        return Variable(value=self._nominal_value, std_dev=self._std_dev,
                        tag=self.tag)
"""),
        (CORE, """        return self.__copy__()


####""", """        return Variable(self.nominal_value, self.std_dev, self.tag)


####"""),
        (CORE, """        if self.tag is None:
            return num_repr
        else:
            return "< %s = %s >" % (self.tag, num_repr)
""", """        return (num_repr if self.tag is None
                else "< %s = %s >" % (self.tag, num_repr))
"""),
        (CORE, """    if isinstance(x, AffineScalarFunc):
        return x.std_dev
    else:
        return 0.
""", """    if not isinstance(x, AffineScalarFunc):
        return 0.
    return x.s
""")],
    'covariances': [
        (CORE, """        vars1 = set(derivatives1)  # !! Python 2.7+: viewkeys() would work
""", """        vars1 = derivatives1.keys()
"""),
        (CORE, """                for var in vars1.intersection(derivatives2)
                if var._std_dev != 0),
""", """                for var in vars1 & derivatives2.keys()
                if var._std_dev != 0),
"""),
        (CORE, """                ((derivatives1[var]*var._std_dev
                  * (derivatives2[var]*var._std_dev))
""", """                (var._std_dev*derivatives2[var]
                 * (var._std_dev*derivatives1[var])
"""),
        (CORE, """    for (i, covariance_coefs) in enumerate(covariance_matrix):
        covariance_coefs.extend([covariance_matrix[j][i]
                                 for j in range(i+1, len(covariance_matrix))])

    return covariance_matrix
""", """    size = len(covariance_matrix)
    for i in range(size):
        for j in range(i+1, size):
            covariance_matrix[i].append(covariance_matrix[j][i])

    return covariance_matrix
"""),
        (CORE, """        return cov_mat/std_devs/std_devs[numpy.newaxis].T
""", """        return cov_mat/std_devs/std_devs.reshape(-1, 1)
""")],
    'parsing': [
        (CORE, """    value = float((sign or '')+main)*factor
""", """    value = float(main)*factor
    if sign == '-':
        value = -value
"""),
        (CORE, """        if main_dec is None:
            num_digits_after_period = 0
        else:
            num_digits_after_period = len(main_dec)-1
""", """        num_digits_after_period = len(main_dec)-1 if main_dec else 0
"""),
        (CORE, """        parsed_value = (nom_value*factor, uncert*factor)

    return parsed_value
""", """        parsed_value = (factor*nom_value, factor*uncert)

    (nom_value, uncert) = parsed_value
    return (nom_value, uncert)
"""),
        (CORE, """    try:
        (nominal_value, std_dev) = str_to_number_with_uncert(
            representation.strip())
    except""", """    representation = representation.strip()
    try:
        (nominal_value, std_dev) = str_to_number_with_uncert(representation)
    except"""),
        (CORE, """        try:
            final_ufloat = ufloat_obsolete(nominal_value, tag_arg)
        except:  # The input is incorrect, not obsolete
            raise
        else:
            # Obsolete, two-argument call:
            deprecation(
                'either use ufloat(nominal_value, std_dev),'
                ' ufloat(nominal_value, std_dev, tag), or the'
                ' ufloat_fromstr() function, for string representations.')
            return final_ufloat""", """        # The input can be incorrect, and not obsolete:
        final_ufloat = ufloat_obsolete(nominal_value, tag_arg)
        # Obsolete, two-argument call:
        deprecation(
            'either use ufloat(nominal_value, std_dev),'
            ' ufloat(nominal_value, std_dev, tag), or the'
            ' ufloat_fromstr() function, for string representations.')
        return final_ufloat""")],
    'state': [
        (CORE, """        for (name, value) in data_dict.items():
            # Contrary""", """        for name in list(data_dict):
            value = data_dict[name]
            # Contrary"""),
        (CORE, """        for name in all_slots:
            try:
                # !!""", """        for name in sorted(all_slots):
            try:
                # !!"""),
        (CORE, """            if isinstance(slot_names, basestring):
                slot_names = (slot_names,)  # Single name
""", """            slot_names = ((slot_names,) if isinstance(slot_names, basestring)
                          else tuple(slot_names))
""")],
    'math functions': [
        (UMATH, """    'atan': [lambda x: 1/(1+x*x)],
""", """    'atan': [lambda x: 1/(1+x**2)],
"""),
        (UMATH, """    'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),  # Correct for x == 0
              lambda y, x: -y/math.hypot(x, y)/math.hypot(x, y)],  # Correct for x == 0
""", """    'atan2': [lambda y, x: x/math.hypot(y, x)/math.hypot(y, x),
              lambda y, x: (-y/math.hypot(y, x))/math.hypot(y, x)],
"""),
        (UMATH, """    'acosh': [lambda x: 1/math.sqrt(x-1)/math.sqrt(x+1)],
""", """    'acosh': [lambda x: 1/(math.sqrt(x-1)*math.sqrt(x+1))],
"""),
        (UMATH, """    'tan': [lambda x: 1+math.tan(x)**2],
""", """    'tan': [lambda x: math.tan(x)*math.tan(x)+1],
"""),
        (UMATH, """    'log10': [lambda x: 1/x/math.log(10)],
""", """    'log10': [lambda x: (1/math.log(10))/x],
"""),
        (UMATH, """    'erf': [lambda x: math.exp(-x*x)*erf_coef],
""", """    'erf': [lambda x: erf_coef*math.exp(-(x*x))],
"""),
        (UMATH, """    if len(args) == 1:
        return 1/args[0]
    else:
        return 1/args[0]/math.log(args[1])  # 2-argument form
""", """    if len(args) == 2:
        (x, base) = args
        return 1/(x*1.)/math.log(base)
    (x,) = args
    return 1/x
"""),
        (UMATH, """    if x >= 0:
        return math.copysign(1, y)
    else:
        return -math.copysign(1, y)
""", """    sign = math.copysign(1, y)
    return sign if x >= 0 else -sign
"""),
        (UMATH, """        args_float = map(uncert_core.nominal_value, args)
        # !! In Python 2.7+, dictionary comprehension: {argname:...}
        kwargs_float = dict(
            (arg_name, uncert_core.nominal_value(value))
            for (arg_name, value) in kwargs.items())
        return func(*args_float, **kwargs_float)
""", """        args_float = [uncert_core.nominal_value(arg) for arg in args]
        kwargs_float = {name: uncert_core.nominal_value(value)
                        for (name, value) in kwargs.items()}
        return func(*args_float, **kwargs_float)
"""),
        (UMATH, """    (frac_part, int_part) = math.modf(aff_func.nominal_value)

    if aff_func._linear_part:  # If not a constant
""", """    parts = math.modf(aff_func.nominal_value)
    (frac_part, int_part) = parts

    if isinstance(x, AffineScalarFunc) and aff_func._linear_part:
""")],
    'arrays': [
        (NPCORE, """    if isinstance(u, uncert_core.AffineScalarFunc):
        try:
            return u.derivatives[var]
        except KeyError:
            return 0.
    else:
        return 0.
""", """    if not isinstance(u, uncert_core.AffineScalarFunc):
        return 0.
    derivatives = u.derivatives
    return derivatives[var] if var in derivatives else 0.
"""),
        (NPCORE, """        lambda v, s: uncert_core.Variable(v, s), otypes=[object])
        (nominal_values, std_devs))
""", """        uncert_core.Variable, otypes=[object])
        (nominal_values, std_devs))
"""),
        (NPCORE, """        # So that .flat works even if array_like is a list:
        array_version = numpy.asanyarray(array_like)

        # Variables on which the array depends are collected:
        variables = set()
        for element in array_version.flat:
            # floats, etc. might be present
            if isinstance(element, uncert_core.AffineScalarFunc):
                # !!! set() is only needed for Python 2 compatibility:
                variables |= set(element.derivatives.keys())
""", """        # So that .flat works even if array_like is a list:
        array_version = numpy.asanyarray(array_like)

        # Variables on which the array depends are collected:
        found = {}
        for element in array_version.flat:
            # floats, etc. might be present
            if isinstance(element, uncert_core.AffineScalarFunc):
                found.update(dict.fromkeys(element.derivatives))
        variables = list(found)
"""),
        (NPCORE, """        yield -inverse_mat * derivative_mat * inverse_mat
""", """        yield -(inverse_mat * (derivative_mat * inverse_mat))
"""),
        (NPCORE, """    PA = arr*inverse_mat
    AP = inverse_mat*arr
""", """    PA = numpy.asmatrix(numpy.dot(arr, inverse_mat))
    AP = numpy.asmatrix(numpy.dot(inverse_mat, arr))
"""),
        (NPCORE, """        if isinstance(other, uncert_core.UFloat):
            return numeric.dot(self, other)
        else:
            return numpy.matrix.__mul__(self, other)
""", """        if not isinstance(other, uncert_core.UFloat):
            return super(matrix, self).__mul__(other)
        return numeric.dot(self, other)
"""),
        (NPCORE, """        m, n = self.shape
        return (inv if m == n else pinv)(self)
""", """        (num_lines, num_columns) = self.shape
        if num_lines == num_columns:
            return inv(self)
        return pinv(self)
"""),
        (NPCORE, """                if derivative_value:
                    derivative_dict[var] = derivative_value

        # An array""", """                if derivative_value != 0:
                    derivative_dict[var] = float(derivative_value)

        # An array""")],
    'correlated values': [
        (CORE, """        norm_vector = std_devs.copy()
        norm_vector[norm_vector==0] = 1

        return correlated_values_norm(
            # !! The following zip() is a bit suboptimal: correlated_values()
            # separates back the nominal values and the standard deviations:
            list(zip(nom_values, std_devs)),
            covariance_mat/norm_vector/norm_vector[:,numpy.newaxis],
            tags)
""", """        norm_vector = numpy.where(std_devs == 0, 1, std_devs)
        correlation_mat = (covariance_mat/norm_vector[:,numpy.newaxis]
                           /norm_vector[numpy.newaxis])
        pairs = [(value, std_dev) for (value, std_dev)
                 in zip(nom_values, std_devs)]

        return correlated_values_norm(pairs, correlation_mat, tags=tags)
"""),
        (CORE, """        if tags is None:
            tags = (None,) * len(values_with_std_dev)

        (nominal_values, std_devs) = numpy.transpose(values_with_std_dev)
""", """        if tags is None:
            tags = [None for _ in values_with_std_dev]

        pairs = numpy.array(values_with_std_dev)
        nominal_values = pairs[:, 0]
        std_devs = pairs[:, 1]
"""),
        (CORE, """        variances[variances < 0] = 0.
""", """        variances = numpy.maximum(variances, 0.)
"""),
        (CORE, """        transform *= std_devs[:, numpy.newaxis] 
""", """        transform = (transform.T * std_devs).T
"""),
    ],
    'linear algebra': [
        (NPCORE, """        variables = set()
        for element in array_version.flat:
            # floats, etc. might be present
            if isinstance(element, uncert_core.AffineScalarFunc):
                # !!! set() is only needed for Python 2 compatibility:
                variables |= set(element.derivatives.keys())
""", """        variables = list({
            variable: None for element in array_version.flat
            # floats, etc. might be present
            if isinstance(element, uncert_core.AffineScalarFunc)
            for variable in element.derivatives})
"""),
        (NPCORE, """            for (derivative_dict, derivative_value) in zip(
                derivatives.flat, deriv_wrt_var.flat):
                if derivative_value:
                    derivative_dict[var] = derivative_value
""", """            for index in numpy.ndindex(*derivatives.shape):
                derivative_value = deriv_wrt_var[index]
                if derivative_value != 0:
                    derivatives[index][var] = derivative_value
"""),
        (NPCORE, """    inverse_mat = numpy.asmatrix(inverse)

    # Successive derivatives of the inverse:
    for derivative in derivatives:
        derivative_mat = numpy.asmatrix(derivative)
        yield -inverse_mat * derivative_mat * inverse_mat
""", """    inverse_arr = numpy.asarray(inverse)

    # Successive derivatives of the inverse:
    for derivative in derivatives:
        yield -(inverse_arr @ numpy.asarray(derivative) @ inverse_arr)
"""),
        (NPCORE, """        term1 = -inverse_mat*derivative_mat*inverse_mat
        derivative_mat_H = derivative_mat.H
        term2 = factor21*derivative_mat_H*factor22
        term3 = factor31*derivative_mat_H*factor32
        yield term1+term2+term3
""", """        adjoint = derivative_mat.H
        yield (factor31*adjoint*factor32 + factor21*adjoint*factor22
               - inverse_mat*derivative_mat*inverse_mat)
"""),
    ],
    'converter': [
        (FIXES + 'fix_ufloat.py', """        if 'string' in results:  # String as first argument
            
            new_func_name = 'ufloat_fromstr'

            # New arguments:
            new_args=[results['string'].clone()]

        else:  # Tuple as first argument

            new_func_name = 'ufloat'
            
            # New arguments:
            new_args = [results['arg0'].clone(),
                        Comma(), results['arg1'].clone()]
""", """        if 'string' not in results:  # Tuple as first argument
            new_func_name = 'ufloat'
            new_args = [results[name].clone() for name in ('arg0', 'arg1')]
            new_args.insert(1, Comma())
        else:
            new_func_name = 'ufloat_fromstr'
            new_args = [results['string'].clone()]
"""),
        (FIXES + 'fix_ufloat.py', """            new_args.extend([Comma(), results['tag'].clone()])            
""", """            new_args += [Comma(), results['tag'].clone()]
"""),
        (FIXES + 'fix_std_dev.py', """    power< any* trailer< '.' 'std_dev' > call=trailer< '(' ')' > any* >
    |
    power< any* trailer< '.' 'set_std_dev' > trailer< '(' set_arg=any ')' > >
""", """    power< any* trailer< '.' 'set_std_dev' > trailer< '(' set_arg=any ')' > >
    |
    power< any* trailer< '.' 'std_dev' > call=trailer< '(' ')' > any* >
"""),
        (FIXES + 'fix_std_dev.py', """            attribute = node.children[-2]  # .set_std_dev
            attribute.children[1].replace(Name('std_dev'))

            # Call "(arg)": removed
            node.children[-1].remove()
""", """            (attribute, call) = node.children[-2:]
            attribute.children[1].replace(Name('std_dev'))

            # Call "(arg)": removed
            call.remove()
"""),
    ],
    'formatting': [
        (CORE, """            if fmt_prec:
                prec = int(fmt_prec)
            elif pres_type is None:
                prec = 12
            else:
                prec = 6
""", """            prec = (int(fmt_prec) if fmt_prec
                    else 12 if pres_type is None else 6)
"""),
        (CORE, """            if not real_values:
                use_exp = False
            else:
                use_exp = True
                # !! This""", """            use_exp = bool(real_values)
            if use_exp:
                # !! This"""),
        (CORE, """                if -4 <= common_exp < common_exp-digits_limit+1:
                    use_exp = False
                else:
                    use_exp = True
""", """                num_digits = common_exp-digits_limit+1
                use_exp = not -4 <= common_exp < num_digits
"""),
        (CORE, """    if digits <= 354:
        return (2, std_dev)
    elif digits <= 949:
        return (1, std_dev)
    else:
        # The""", """    if digits < 355:
        return (2, std_dev)
    if digits < 950:
        return (1, std_dev)
    else:
        # The"""),
        (CORE, """                    uncert_str = (
                        '%.*f' % (prec, uncert)).replace('.', '').lstrip('0')
""", """                    all_digits = '{:.{}f}'.format(uncert, prec)
                    uncert_str = ''.join(all_digits.split('.')).lstrip('0')
"""),
        (CORE, """            nom_val_width = max(int(fmt_parts['width']) - len(value_end), 0)
            fmt_prefix_n = '%s%s%d%s' % (
                fmt_parts['sign'], fmt_parts['zero'], nom_val_width,
                fmt_parts['comma'])
""", """            remaining = int(fmt_parts['width']) - len(value_end)
            fmt_prefix_n = '{}{}{}{}'.format(
                fmt_parts['sign'], fmt_parts['zero'],
                remaining if remaining > 0 else 0, fmt_parts['comma'])
""")],
}


def main():
    names = sys.argv[1:] or sorted(REFACTORINGS)
    base = tempfile.mkdtemp(prefix='refactor_')
    pool = concurrent.futures.ThreadPoolExecutor(
        int(os.environ.get('PAR', '4')))
    props = ['U%02d' % k for k in range(1, 27)]
    only = os.environ.get('PROPS')
    if only:
        props = only.split()
    seed = os.environ.get('VERIF_SEED', '1')

    def run(job):
        name, prop = job
        return sh([os.path.join(VERIF, 'run.py'), prop, 'quick'],
                  os.path.join(base, name.replace(' ', '_')), timeout=900,
                  env=dict(ENV, VERIF_REPO=os.path.join(
                      base, name.replace(' ', '_')), VERIF_SEED=seed,
                      VERIF_JOBS='2'))
    try:
        for name in names:
            work = os.path.join(base, name.replace(' ', '_'))
            subprocess.run(['cp', '-a', '/repo', work], check=True)
            for path, old, new in REFACTORINGS[name]:
                path = os.path.join(work, path)
                text = open(path, encoding='utf8').read()
                if text.count(old) != 1:
                    sys.exit('%s: %d times %s' % (name, text.count(old), old))
                open(path, 'w', encoding='utf8').write(text.replace(old, new))
            r = sh([PY, '-m', 'pytest', '-q', '-x', '-W', 'ignore', '-p',
                    'no:cacheprovider', 'uncertainties'], work, timeout=300)
            if r.returncode:
                sys.exit('%s: %s' % (name, r.stdout[-2000:]))
        print(len(names), 'refactorings', flush=True)
        jobs = [(n, p) for n in names for p in props]
        bad = 0
        for (name, prop), r in zip(jobs, pool.map(run, jobs)):
            if r.returncode:
                bad += 1
                print('ALARM', name, prop, r.stdout[-1500:], flush=True)
        print(len(jobs), 'runs', bad, 'alarms')
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    main()
