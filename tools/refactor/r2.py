"""A second behaviour-preserving rewrite, in another style (development only): python3 r2.py COPY_OF_REPO.
Every check has to stay quiet on the result (VMC_REPO=COPY ./check CXX)."""
import re
import sys

R = sys.argv[1] + "/horqrux/"


def ed(f, *pairs):
    t = open(R + f).read()
    for old, new in pairs:
        # blank lines are left out in some of the texts
        found = re.compile(r"\n+".join(re.escape(x) for x in old.split("\n") if x) + r"\n")
        assert found.search(t), (f, old)
        t = found.sub(lambda m: new, t)
    open(R + f, "w").write(t)


BODY = """    state_dims: tuple[int, ...] = target
    if is_controlled(control):
        operator = _controlled(operator, len(control))
        state_dims = (*control, *target)  # type: ignore[arg-type]
    n_qubits_op = int(np.log2(operator.shape[1]))
    operator = operator.reshape((2,) * (2 * n_qubits_op))
    op_out_dims = tuple(np.arange(operator.ndim // 2, operator.ndim, dtype=int))
"""
ed("apply.py",
   (BODY + """    # Apply operator
    new_state_dims = tuple(range(len(state_dims)))
    state = jnp.tensordot(a=operator, b=state, axes=(op_out_dims, state_dims))
    return jnp.moveaxis(a=state, source=new_state_dims, destination=state_dims)
""", """    if is_controlled(control):
        operator = _controlled(operator, len(control))
        axes = tuple(control) + tuple(target)  # type: ignore[operator]
    else:
        axes = tuple(target)
    m, n = len(axes), state.ndim
    others = [q for q in range(n) if q not in axes]
    order = list(axes) + others
    # acted qubits first, as one axis
    flat = jnp.transpose(state, order).reshape((2**m, -1))
    flat = operator.reshape((2**m, 2**m)) @ flat
    back = [order.index(q) for q in range(n)]
    return jnp.transpose(flat.reshape((2,) * n), back)
"""),
   (BODY + """    op_in_dims = tuple(np.arange(0, operator.ndim // 2, dtype=int))
    new_state_dims = tuple(range(len(state_dims)))

    # Apply operator to density matrix: ρ' = O ρ O†
    out_state = state.array
    support_perm = state_dims + tuple(set(tuple(range(out_state.ndim // 2))) - set(state_dims))

    out_state = permute_basis(out_state, support_perm, False)
    out_state = jnp.tensordot(a=operator, b=out_state, axes=(op_out_dims, new_state_dims))

    out_state = _dagger(out_state)
    out_state = jnp.tensordot(a=operator, b=out_state, axes=(op_out_dims, op_in_dims))
    out_state = _dagger(out_state)

    out_state = permute_basis(out_state, support_perm, True)
    return DensityMatrix(out_state)
""", """    n = num_qubits(state)
    # O acts on the rows, and its conjugate on the columns
    rows = apply_operator(state.array, operator, target, control)
    columns = tuple(q + n for q in target)
    control_columns = tuple(None if q is None else q + n for q in control)
    return DensityMatrix(
        apply_operator(rows, jnp.conj(operator), columns, control_columns)
    )
"""),
   ("""    apply_one_kraus = jax.vmap(
        partial(
            apply_kraus_operator,
            array=array,
            target=target,
        )
    )
    kraus_evol = apply_one_kraus(kraus_ops)
    output_dm = jnp.sum(kraus_evol, 0)
    return DensityMatrix(output_dm)
""", """    total = jnp.zeros_like(array)
    for kraus in kraus_ops:
        total = total + apply_kraus_operator(kraus, array, target)
    return DensityMatrix(total)
"""),
   ("""    sorted_gates = []
    gate_batch = []
    for gate in gates:
        # only gates on a single qubit commute past gates on other qubits
        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
            gate_batch.append(gate)
        else:
            if len(gate_batch) > 0:
                gate_batch.sort(key=lambda g: g.target)
                sorted_gates += gate_batch
                gate_batch = []
            sorted_gates.append(gate)
    if len(gate_batch) > 0:
        gate_batch.sort(key=lambda g: g.target)
        sorted_gates += gate_batch
    return sorted_gates
""", """    block = 0
    keyed = []
    for position, gate in enumerate(gates):
        single = len(gate.target[0]) == 1 and not is_controlled(gate.control)
        if not single:
            block += 2
        keyed.append((block - (0 if single else 1), gate.target[0] if single else (), position, gate))
    keyed.sort(key=lambda item: item[:3])
    return [item[3] for item in keyed]
"""),
   ("""    if len(operators) < 2:
        return operators, targets, controls
    operators, targets, controls = operators[::-1], targets[::-1], controls[::-1]
    merged_operator, merged_target, merged_control = operators[0], targets[0], controls[0]
    merged_operators = merged_targets = merged_controls = tuple()  # type: ignore[var-annotated]
    for operator, target, control in zip(operators[1:], targets[1:], controls[1:]):
        if target == merged_target and control == merged_control:
            merged_operator = merged_operator @ operator
        else:
            merged_operators += (merged_operator,)
            merged_targets += (merged_target,)
            merged_controls += (merged_control,)
            merged_operator, merged_target, merged_control = operator, target, control
    if merged_operator is not None:
        merged_operators += (merged_operator,)
        merged_targets += (merged_target,)
        merged_controls += (merged_control,)
    return merged_operators[::-1], merged_targets[::-1], merged_controls[::-1]
""", """    groups: list[list] = []
    for operator, target, control in zip(operators, targets, controls):
        if groups and groups[-1][1] == target and groups[-1][2] == control:
            groups[-1][0] = operator @ groups[-1][0]
        else:
            groups.append([operator, target, control])
    return (
        tuple(g[0] for g in groups),
        tuple(g[1] for g in groups),
        tuple(g[2] for g in groups),
    )
"""),
   ("""    # faster way to check has_noise
    has_noise = noise != [None] * len(noise)
    if has_noise:
        state = density_mat(state)
        output_state = reduce(
            lambda state, gate: apply_operator_with_noise(state, *gate),
            zip(operator, target, control, noise),
            state,
        )
    else:
        output_state = reduce(
            lambda state, gate: apply_operator(state, *gate),
            zip(operator, target, control),
            state,
        )
    return output_state
""", """    if any(channels is not None for channels in noise):
        output: State = density_mat(state)
        for step in zip(operator, target, control, noise):
            output = apply_operator_with_noise(output, *step)
        return output
    output = state
    for op, t, c in zip(operator, target, control):
        output = apply_operator(output, op, t, c)
    return output
"""),
)
ed("shots.py",
   ("""    def sample_mean(eigvals: Array, eigvecs: Array) -> Array:
        probs = eigen_probabilities(state, eigvecs)
        return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)

    return jnp.stack([sample_mean(vals, vecs) for vals, vecs in zip(eigvals, eigvecs)])
""", """    estimates = []
    for vals, vecs in zip(eigvals, eigvecs):
        # inverse of the cumulative distribution at uniform numbers
        cumulative = jnp.cumsum(eigen_probabilities(state, vecs))
        uniform = jax.random.uniform(key, (n_shots,), dtype=cumulative.dtype)
        drawn = jnp.searchsorted(cumulative, cumulative[-1] * (1 - uniform))
        estimates.append(jnp.mean(vals[drawn]))
    return jnp.stack(estimates)
"""),
   ("""    mat_obs = list(
        map(
            lambda observable: expand_operator(
                observable.tensor(values), observable.qubit_support, qubits
            ).reshape((d, d)),
            observables,
        )
    )
""", """    mat_obs = [obs.tensor(values, qubits).reshape((d, d)) for obs in observables]
"""),
)
ed("utils/operator_utils.py",
   ("""    ket = jnp.expand_dims(state, axis=tuple(range(state.ndim, 2 * state.ndim)))
    bra = jnp.conj(jnp.expand_dims(state, axis=tuple(range(state.ndim))))
    return DensityMatrix(ket * bra)
""", """    return DensityMatrix(jnp.tensordot(state, jnp.conj(state), axes=0))
"""),
   ("""    n_qubits = int(log2(operator.shape[0]))
    control = jnp.eye(2 ** (n_control + n_qubits), dtype=default_dtype)
    control = control.at[-(2**n_qubits) :, -(2**n_qubits) :].set(operator)
    return control
""", """    size = operator.shape[0]
    rest = size * (2**n_control - 1)
    return jnp.block(
        [
            [jnp.eye(rest, dtype=default_dtype), jnp.zeros((rest, size), dtype=default_dtype)],
            [jnp.zeros((size, rest), dtype=default_dtype), operator.astype(default_dtype)],
        ]
    )
"""),
   ("""    samples = jax.vmap(
        lambda subkey: jax.random.choice(key=subkey, a=jnp.arange(0, 2**n_qubits), p=probs)
    )(jax.random.split(key, n_shots))
    return Counter(
        {
            format(k, f"0{n_qubits}b"): count.item()
            for k, count in enumerate(jnp.bincount(samples))
            if count > 0
        }
    )
""", """    outcomes = jnp.arange(2**n_qubits)

    def draw(subkey: Array) -> Array:
        return jax.random.choice(subkey, outcomes, p=probs)

    drawn = np.asarray(jax.vmap(draw)(jax.random.split(key, n_shots)))
    values, counts = np.unique(drawn, return_counts=True)
    return Counter(
        {bin(value)[2:].zfill(n_qubits): int(count) for value, count in zip(values, counts)}
    )
"""),
   ("""    return jnp.abs(jnp.float_power(state, 2.0)).ravel()
""", """    amplitudes = state.reshape(-1)
    return amplitudes.real**2 + amplitudes.imag**2
"""),
   ("""    control_mask = np.sum(
        np.array(
            [1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support]
        )
    )
    # Create indices for the controlled subspace
    indices = np.arange(full_dim)
    controlled_indices = indices[(indices & control_mask) == control_mask]
""", """    bits = np.array([1 << (ntotal_qubits - q - 1) for q in control_ind_support])
    # Create indices for the controlled subspace
    controlled_indices = np.array(
        [i for i in range(full_dim) if all(i & bit for bit in bits)], dtype=int
    )
"""),
)
ed("differentiation/ad.py",
   ("""    values_circuit, values_observables = _values_processing(values)
    outputs = list(
        map(
            lambda observable: _ad_expectation_single_observable(
                apply_gates(
                    state,
                    list(iter(circuit)),  # type: ignore[type-var]
                    values_circuit,
                    OperationType.UNITARY,
                ),
                observable,
                values_observables,
            ),
            observables,
        )
    )
    return stack_sp(outputs)
""", """    values_circuit, values_observables = _values_processing(values)
    final = apply_gates(state, [*circuit], values_circuit)  # type: ignore[misc]
    return stack_sp(
        [_ad_expectation_single_observable(final, obs, values_observables) for obs in observables]
    )
"""),
   ("""    mat_obs = observable.tensor(values)
    d = 2**n_qubits
    prod = apply_operator(state.array, mat_obs, observable.qubit_support, (None,)).reshape((d, d))
    return jnp.trace(prod, axis1=-2, axis2=-1).real
""", """    d = 2**n_qubits
    mat_obs = observable.tensor(values, tuple(range(n_qubits))).reshape((d, d))
    return jnp.einsum("ij,ji->", mat_obs, state.array.reshape((d, d))).real
"""),
)
ed("composite/sequence.py",
   ("""        return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
""", """        output = state
        for operation in self.operations:
            output = operation(output, values)
        return output
"""),
)
ed("differentiation/gpsr/analytical.py",
   ("""        for shift, coefficient in shift_rule:
            up_val = values.copy()
            up_val[param_name] = up_val[param_name] + shift
            f_up = jitted_analytical_exp(state, gates, observables, up_val)
            down_val = values.copy()
            down_val[param_name] = down_val[param_name] - shift
            f_down = jitted_analytical_exp(state, gates, observables, down_val)
            grad += coefficient * (f_up - f_down)
        return grad
""", """        for shift, coefficient in shift_rule:
            for sign in (1, -1):
                moved = {**values, param_name: values[param_name] + sign * shift}
                energy = jitted_analytical_exp(state, gates, observables, moved)
                grad = grad + sign * coefficient * energy
        return grad
"""),
   ("""    outputs = list(
        map(
            lambda observable: _ad_expectation_single_observable(
                apply_gates(state, gates, values),
                observable,
                values,
            ),
            observables,
        )
    )
    return stack_sp(outputs)
""", """    final = apply_gates(state, gates, values)
    return stack_sp([_ad_expectation_single_observable(final, obs, values) for obs in observables])
"""),
)
ed("primitives/parametric.py",
   ("""        def parse_dict(values: dict[str, float] = dict()) -> float:
            # note: shift is for GPSR when the same param_name is used in many operations
            return values[self.param] + self.shift  # type: ignore[index]

        def parse_val(values: dict[str, float] = dict()) -> float:
            return self.param + self.shift  # type: ignore[return-value, operator]

        self.parse_values = parse_dict if isinstance(self.param, str) else parse_val
""", ""),
   ("""    def _unitary(self, values: dict[str, float] = dict()) -> Array:
        return _unitary(self.generator, self.parse_values(values))
""", """    def parse_values(self, values: dict[str, float] = dict()) -> float:
        # note: shift is for GPSR when the same param_name is used in many operations
        angle = values[self.param] if isinstance(self.param, str) else self.param
        return angle + self.shift

    def _unitary(self, values: dict[str, float] = dict()) -> Array:
        return _unitary(self.generator, self.parse_values(values))
"""),
)
ed("noise/utils_noise.py",
   ("""    K0: Array = jnp.sqrt(1.0 - error_probability) * OPERATIONS_DICT["I"]
    K1: Array = jnp.sqrt(error_probability / 3.0) * OPERATIONS_DICT["X"]
    K2: Array = jnp.sqrt(error_probability / 3.0) * OPERATIONS_DICT["Y"]
    K3: Array = jnp.sqrt(error_probability / 3.0) * OPERATIONS_DICT["Z"]
    kraus: tuple[Array, ...] = (K0, K1, K2, K3)
    return kraus
""", """    weight = jnp.sqrt(error_probability / 3.0)
    errors = [weight * OPERATIONS_DICT[pauli] for pauli in "XYZ"]
    return (jnp.sqrt(1.0 - error_probability) * OPERATIONS_DICT["I"], *errors)
"""),
)
