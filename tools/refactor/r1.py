"""A behaviour-preserving rewrite of many functions (development only): python3 r1.py COPY_OF_REPO.
Every check has to stay quiet on the result (VMC_REPO=COPY ./check CXX)."""
import re, sys

R = sys.argv[1] + "/horqrux/"


def ed(f, *pairs):
    t = open(R + f).read()
    for old, new in pairs:
        assert t.count(old) >= 1, (f, old)
        t = t.replace(old, new)
    open(R + f, "w").write(t)


ed("apply.py",
   ("""    state_dims: tuple[int, ...] = target
    if is_controlled(control):
        operator = _controlled(operator, len(control))
        state_dims = (*control, *target)  # type: ignore[arg-type]
    n_qubits_op = int(np.log2(operator.shape[1]))
    operator = operator.reshape((2,) * (2 * n_qubits_op))
    op_out_dims = tuple(np.arange(operator.ndim // 2, operator.ndim, dtype=int))
""", """    operator, state_dims, op_out_dims = _as_tensor(operator, target, control)
"""),
   ("""@singledispatch
def apply_operator(
""", '''def _as_tensor(
    operator: Array, target: tuple[int, ...], control: tuple[Union[int, None], ...]
) -> tuple[Array, tuple[int, ...], tuple[int, ...]]:
    """Operator with one axis per qubit, the axes of the state and the input axes of the operator."""
    dims = tuple(target)
    if is_controlled(control):
        dims = tuple(control) + dims  # type: ignore[operator]
        operator = _controlled(operator, len(control))
    n_op = operator.shape[0].bit_length() - 1
    tensor = operator.reshape([2] * n_op + [2] * n_op)
    return tensor, dims, tuple(range(n_op, 2 * n_op))


@singledispatch
def apply_operator(
'''),
   ("support_perm = state_dims + tuple(set(tuple(range(out_state.ndim // 2))) - set(state_dims))",
    "support_perm = state_dims + tuple(\n        q for q in range(num_qubits(state)) if q not in state_dims\n    )"),
   ("""    if noise is None:
        return state_gate
    else:
        output_dm = state_gate
        full_support = tuple(range(num_qubits(state_gate)))
        for n in noise:
            kraus_ops = jnp.stack(list(expand_operator(k, target, full_support) for k in n.kraus))
            output_dm = apply_kraus_sum(kraus_ops, output_dm.array, full_support)
        return output_dm
""", """    if noise is None:
        return state_gate
    register = tuple(range(num_qubits(state_gate)))
    for channel in noise:
        expanded = [expand_operator(kraus, target, register) for kraus in channel.kraus]
        state_gate = apply_kraus_sum(jnp.stack(expanded), state_gate.array, register)
    return state_gate
"""),
   ("""    sorted_gates = []
    gate_batch = []
    for gate in gates:
        # only gates on a single qubit commute past gates on other qubits
        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
            gate_batch.append(gate)
        else:
            if len(gate_batch) > 0:
                gate_batch.sort(key=lambda g: g.target)
                sorted_gates += gate_batch
                gate_batch = []
            sorted_gates.append(gate)
    if len(gate_batch) > 0:
        gate_batch.sort(key=lambda g: g.target)
        sorted_gates += gate_batch
    return sorted_gates
""", """    grouped: list[Primitive] = []
    pending: list[Primitive] = []

    def flush() -> None:
        grouped.extend(sorted(pending, key=lambda g: g.target))
        pending.clear()

    for gate in gates:
        if is_controlled(gate.control) or len(gate.target[0]) != 1:
            flush()
            grouped.append(gate)
        else:
            pending.append(gate)
    flush()
    return grouped
"""),
   ("""    operators, targets, controls = operators[::-1], targets[::-1], controls[::-1]
    merged_operator, merged_target, merged_control = operators[0], targets[0], controls[0]
    merged_operators = merged_targets = merged_controls = tuple()  # type: ignore[var-annotated]
    for operator, target, control in zip(operators[1:], targets[1:], controls[1:]):
        if target == merged_target and control == merged_control:
            merged_operator = merged_operator @ operator
        else:
            merged_operators += (merged_operator,)
            merged_targets += (merged_target,)
            merged_controls += (merged_control,)
            merged_operator, merged_target, merged_control = operator, target, control
    if merged_operator is not None:
        merged_operators += (merged_operator,)
        merged_targets += (merged_target,)
        merged_controls += (merged_control,)
    return merged_operators[::-1], merged_targets[::-1], merged_controls[::-1]
""", """    runs: list[list] = []
    for operator, target, control in zip(operators, targets, controls):
        if runs and runs[-1][1:] == [target, control]:
            runs[-1][0] = operator @ runs[-1][0]
        else:
            runs.append([operator, target, control])
    return tuple(r[0] for r in runs), tuple(r[1] for r in runs), tuple(r[2] for r in runs)
"""),
   ("""        output_state = reduce(
            lambda state, gate: apply_operator(state, *gate),
            zip(operator, target, control),
            state,
        )
    return output_state
""", """        output_state = state
        for op, targets, controls in zip(operator, target, control):
            output_state = apply_operator(output_state, op, targets, controls)
    return output_state
"""),
   ("""    # faster way to check has_noise
    has_noise = noise != [None] * len(noise)
""", """    has_noise = any(n is not None for n in noise)
"""),
   ("""    kraus_evol = apply_one_kraus(kraus_ops)
    output_dm = jnp.sum(kraus_evol, 0)
    return DensityMatrix(output_dm)
""", """    return DensityMatrix(apply_one_kraus(kraus_ops).sum(axis=0))
"""),
   )
ed("utils/operator_utils.py",
   ("""    ket = jnp.expand_dims(state, axis=tuple(range(state.ndim, 2 * state.ndim)))
    bra = jnp.conj(jnp.expand_dims(state, axis=tuple(range(state.ndim))))
    return DensityMatrix(ket * bra)
""", """    n = state.ndim
    bra = jnp.expand_dims(state, axis=tuple(range(n))).conj()
    ket = jnp.expand_dims(state, axis=tuple(range(n, n + n)))
    return DensityMatrix(ket * bra)
"""),
   ("""    control = jnp.eye(2 ** (n_control + n_qubits), dtype=default_dtype)
    control = control.at[-(2**n_qubits) :, -(2**n_qubits) :].set(operator)
    return control
""", """    dim, block = 2 ** (n_control + n_qubits), 2**n_qubits
    return jnp.eye(dim, dtype=default_dtype).at[dim - block :, dim - block :].set(operator)
"""),
   ("""    control_mask = np.sum(
        np.array(
            [1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support]
        )
    )
""", """    control_mask = 0
    for position in control_ind_support:
        control_mask |= 1 << (ntotal_qubits - 1 - position)
"""),
   ("""    kron_qubits = tuple(sorted(set(full_support) - set(qubit_support)))
""", """    kron_qubits = tuple(q for q in full_support if q not in qubit_support)
"""),
   ("""    n_qubits = len(bitstring)
    shape = tuple(2 for _ in range(n_qubits))
    bitstr_ind = tuple(map(int, bitstring))
""", """    bitstr_ind = tuple(int(bit) for bit in bitstring)
    shape = (2,) * len(bitstr_ind)
"""),
   ("""    return Counter(
        {
            format(k, f"0{n_qubits}b"): count.item()
            for k, count in enumerate(jnp.bincount(samples))
            if count > 0
        }
    )
""", """    histogram: Counter = Counter()
    for outcome, count in enumerate(jnp.bincount(samples)):
        if count == 0:
            continue
        histogram[format(outcome, "b").zfill(n_qubits)] = count.item()
    return histogram
"""),
   ("""    return jnp.abs(jnp.float_power(state, 2.0)).ravel()
""", """    return (jnp.abs(state) ** 2).ravel()
"""),
   ("""    d = int(np.sqrt(state.array.size))
    return jnp.diagonal(state.array.reshape((d, d))).real
""", """    dim = 2 ** (int(np.log2(state.array.size)) // 2)
    return jnp.diagonal(state.array.reshape((dim, dim)).real)
"""),
   ("""    elif isinstance(qubit_support, tuple):
        return any(is_controlled(q) for q in qubit_support)
    return False
""", """    if not isinstance(qubit_support, tuple):
        return False
    for q in qubit_support:
        if is_controlled(q):
            return True
    return False
"""),
   )
ed("primitives/primitive.py",
   ("""        return tuple(
            sorted(
                tuple(
                    set(
                        self.target[0] + self.control[0]
                        if is_controlled(self.control)
                        else self.target[0]
                    )
                )
            )
        )
""", """        qubits = set(self.target[0])
        if is_controlled(self.control):
            qubits |= set(self.control[0])
        return tuple(sorted(qubits))
"""),
   ("""        if isinstance(idx, (int, np.integer)):
            return ((int(idx),),)
        elif isinstance(idx, tuple):
            return (idx,)
        else:
            return (idx.astype(int),)
""", """        if isinstance(idx, tuple):
            return (idx,)
        if isinstance(idx, (int, np.integer)):
            return ((int(idx),),)
        return (idx.astype(int),)
"""),
   ("""        if full_support is None:
            return base_unitary
        else:
            return expand_operator(base_unitary, self.qubit_support, full_support)
""", """        if full_support is not None:
            base_unitary = expand_operator(base_unitary, self.qubit_support, full_support)
        return base_unitary
"""),
   )
ed("primitives/parametric.py",
   ("""        def parse_dict(values: dict[str, float] = dict()) -> float:
            # note: shift is for GPSR when the same param_name is used in many operations
            return values[self.param] + self.shift  # type: ignore[index]

        def parse_val(values: dict[str, float] = dict()) -> float:
            return self.param + self.shift  # type: ignore[return-value, operator]

        self.parse_values = parse_dict if isinstance(self.param, str) else parse_val
""", """    def parse_values(self, values: dict[str, float] = dict()) -> float:
        # note: shift is for GPSR when the same param_name is used in many operations
        angle = values[self.param] if isinstance(self.param, str) else self.param
        return angle + self.shift  # type: ignore[operator]
"""),
   ("""        u = jnp.eye(2, 2, dtype=default_dtype)
        u = u.at[(1, 1)].set(jnp.exp(1.0j * self.parse_values(values)))
        if self.sparse:
            u = BCOO.fromdense(u)
        return u
""", """        phase = jnp.exp(1.0j * self.parse_values(values))
        matrix = jnp.eye(2, dtype=default_dtype).at[1, 1].set(phase)
        return BCOO.fromdense(matrix) if self.sparse else matrix
"""),
   )
ed("composite/compose.py",
   ("""        return reduce(add, map(lambda op: op(state, values), self.operations))
""", """        terms = [op(state, values) for op in self.operations]
        return reduce(add, terms)
"""),
   ("""        param = values[self.parameter] if isinstance(self.parameter, str) else self.parameter
        return jnp.array(param) * super().__call__(state, values)
""", """        return jnp.array(self._factor(values)) * super().__call__(state, values)

    def _factor(self, values: dict[str, Array]) -> Any:
        if isinstance(self.parameter, str):
            return values[self.parameter]
        return self.parameter
"""),
   ("""        param = values[self.parameter] if isinstance(self.parameter, str) else self.parameter
        return param * super().tensor(values, full_support)
""", """        return self._factor(values) * super().tensor(values, full_support)
"""),
   )
ed("composite/sequence.py",
   ("""        return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
""", """        for operation in self.operations:
            state = operation(state, values)
        return state
"""),
   ("""        return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
""", """        qubits: set = set()
        for op in self.operations:
            qubits.update(op.qubit_support)
        return tuple(sorted(qubits))
"""),
   ("""        return reduce(
            lambda product, op: op @ product,
            map(lambda x: x.tensor(values, full_support), self.operations),
        )
""", """        matrices = [op.tensor(values, full_support) for op in self.operations]
        return reduce(lambda first, second: first @ second, reversed(matrices))
"""),
   )
ed("circuit.py",
   ("""        return set([name for name in self.param_names if name not in self.fparams])
""", """        return self.param_names.difference(self.fparams)
"""),
   ("""            ops = [
                fn(variational_param_prefix + str(uuid4()), qubit)
                for fn, qubit in zip(rot_fns, [i for _ in range(len(rot_fns))])
            ]
            param_names += [op.param for op in ops]
            ops += [NOT((i + 1) % n_qubits, i % n_qubits) for i in range(n_qubits)]  # type: ignore[arg-type]
            gates += ops
""", """            gates += [fn(f"{variational_param_prefix}{uuid4()}", i) for fn in rot_fns]
            gates += [NOT((q + 1) % n_qubits, q) for q in range(n_qubits)]  # type: ignore[arg-type]
"""),
   ("    param_names = []\n", ""),
   )
ed("analog.py",
   ("""        time_val = values["time_evolution"] + self.shift
        return expm(values["hamiltonian"] * (-1j * time_val))
""", """        duration = self.shift + values["time_evolution"]
        return expm(-1j * duration * values["hamiltonian"])
"""),
   )
ed("noise/utils_noise.py",
   ("""    if (error_probability > 1.0) or (error_probability < 0.0):
        raise ValueError(f"The 'error_probability' value is incorrect. Got {error_probability}.")
""", """    _check(error_probability)
"""),
   ("""def BitFlip(""", '''def _check(probability: float) -> None:
    """Refuse what is not a probability."""
    if probability < 0.0 or probability > 1.0:
        raise ValueError(f"The 'error_probability' value is incorrect. Got {probability}.")


def BitFlip('''),
   ("""    px, py, pz = (
        error_probability[0],
        error_probability[1],
        error_probability[2],
    )

    K0: Array = jnp.sqrt(1.0 - (px + py + pz)) * OPERATIONS_DICT["I"]
    K1: Array = jnp.sqrt(px) * OPERATIONS_DICT["X"]
    K2: Array = jnp.sqrt(py) * OPERATIONS_DICT["Y"]
    K3: Array = jnp.sqrt(pz) * OPERATIONS_DICT["Z"]
    kraus: tuple[Array, ...] = (K0, K1, K2, K3)
    return kraus
""", """    px, py, pz = error_probability[:3]
    weights = {"I": 1.0 - (px + py + pz), "X": px, "Y": py, "Z": pz}
    return tuple(jnp.sqrt(weight) * OPERATIONS_DICT[name] for name, weight in weights.items())
"""),
   )
ed("shots.py",
   ("""    mat_obs = list(
        map(
            lambda observable: expand_operator(
                observable.tensor(values), observable.qubit_support, qubits
            ).reshape((d, d)),
            observables,
        )
    )
    eigs = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
    eigvecs, eigvals = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
""", """    mat_obs = []
    for observable in observables:
        matrix = expand_operator(observable.tensor(values), observable.qubit_support, qubits)
        mat_obs.append(matrix.reshape((d, d)))
    spectra = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
    eigvecs, eigvals = align_eigenvectors(spectra[0], spectra[1])
"""),
   ("""        probs = eigen_probabilities(state, eigvecs)
        return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)

    return jnp.stack([sample_mean(vals, vecs) for vals, vecs in zip(eigvals, eigvecs)])
""", """        weights = eigen_probabilities(state, eigvecs)
        outcomes = jax.random.choice(key, eigvals, (n_shots,), p=weights)
        return outcomes.mean()

    means = []
    for i in range(len(observables)):
        means.append(sample_mean(eigvals[i], eigvecs[i]))
    return jnp.stack(means)
"""),
   )
ed("differentiation/gpsr/gpsr_utils.py",
   ("""    for i, gate in enumerate(gates):
        if gate.is_parametric and gate.param in param_names:  # type: ignore[attr-defined]
            param_to_gates[gate.param] += (i,)  # type: ignore[attr-defined]
    return param_to_gates
""", """    for i, gate in enumerate(gates):
        if not gate.is_parametric:
            continue
        name = gate.param  # type: ignore[attr-defined]
        if name in param_to_gates:
            param_to_gates[name] = param_to_gates[name] + (i,)
    return param_to_gates
"""),
   ("""    gate_alter = gates[ind_alter]  # type: ignore[index]
    gate_shift = to_shift(gate_alter, shift_val)
    upper = min(ind_alter + 1, len(gates))  # type: ignore[arg-type]
    gates_seq = gates[:ind_alter] + [gate_shift] + gates[upper:]  # type: ignore[index]
    return gates_seq
""", """    altered = list(gates)
    altered[ind_alter] = to_shift(altered[ind_alter], shift_val)
    return altered
"""),
   ("""    gate_names = list(
        map(
            lambda g: g.param if hasattr(g, "param") and isinstance(g.param, str) else None,
            gates,
        )
    )
    gate_names = list(filter(partial(is_not, None), gate_names))
    return gate_names
""", """    return [g.param for g in gates if isinstance(getattr(g, "param", None), str)]  # type: ignore[attr-defined]
"""),
   ("""    new_name = str(uuid4())
""", """    new_name = f"{aux_data[-2]}_{uuid4().hex}"
"""),
   )
for f in ("differentiation/gpsr/analytical.py", "differentiation/gpsr/shots.py"):
    ed(f,
       ("""            up_val = values.copy()
            up_val[param_name] = up_val[param_name] + shift
""", """            up_val = {**values, param_name: values[param_name] + shift}
"""),
       ("""            down_val = values.copy()
            down_val[param_name] = down_val[param_name] - shift
""", """            down_val = {**values, param_name: values[param_name] - shift}
"""),
       ("""                values = {
                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                }
""", """                values = {temp: values[pname] for temp, pname in values_map.items()}
"""),
       ("""        for temp_name in grad_dict.keys():
            grads_legit_dict[values_map[temp_name]].append(grad_dict[temp_name])
""", """        for temp_name, partial_grad in grad_dict.items():
            grads_legit_dict[values_map[temp_name]].append(partial_grad)
"""),
       )
ed("differentiation/gpsr/analytical.py",
   ("""    outputs = list(
        map(
            lambda observable: _ad_expectation_single_observable(
                apply_gates(state, gates, values),
                observable,
                values,
            ),
            observables,
        )
    )
    return stack_sp(outputs)
""", """    final = apply_gates(state, gates, values)
    return stack_sp([_ad_expectation_single_observable(final, obs, values) for obs in observables])
"""))
ed("differentiation/ad.py",
   ("""    outputs = list(
        map(
            lambda observable: _ad_expectation_single_observable(
                apply_gates(
                    state,
                    list(iter(circuit)),  # type: ignore[type-var]
                    values_circuit,
                    OperationType.UNITARY,
                ),
                observable,
                values_observables,
            ),
            observables,
        )
    )
    return stack_sp(outputs)
""", """    final_state = apply_gates(state, list(circuit), values_circuit, OperationType.UNITARY)
    outputs = []
    for observable in observables:
        outputs.append(_ad_expectation_single_observable(final_state, observable, values_observables))
    return stack_sp(outputs)
"""))
ed("utils/values_utils.py",
   ("""    values_observables = values
    values_circuit = values
    val_keys = values.keys()
    if "circuit" in val_keys and "observables" in val_keys:
        values_observables = values["observables"]
        values_circuit = values["circuit"]
    return values_circuit, values_observables
""", """    if {"circuit", "observables"} <= set(values):
        return values["circuit"], values["observables"]
    return values, values
"""))
ed("api.py",
   ("""    outputs = list(
        map(
            lambda observable: apply_adjoint(state, circuit, observable, values),
            observables,
        )
    )
    return stack_sp(outputs)
""", """    return stack_sp([apply_adjoint(state, circuit, obs, values) for obs in observables])
"""),
   ("""    output_circuit = circuit(state, values)
    n_qubits = num_qubits(output_circuit)
    if isinstance(output_circuit, DensityMatrix):
        d = 2**n_qubits
        output_circuit = DensityMatrix(output_circuit.array.reshape((d, d)))

    probs = probabilities(output_circuit)
    return sample_from_probs(probs, n_qubits, n_shots)
""", """    final_state = circuit(state, values)
    return sample_from_probs(probabilities(final_state), num_qubits(final_state), n_shots)
"""),
   ("""    if diff_mode == DiffMode.AD:
        if n_shots < 0:
            raise ValueError("The number of shots should be positive.")
        if n_shots == 0:
            return ad_expectation(state, circuit, observables, values)
        else:
            return finite_shots(
                state=state,
                gates=list(iter(circuit)),  # type: ignore[type-var]
                observables=observables,
                values=values,  # type: ignore[arg-type]
                n_shots=n_shots,
                key=key,
            )
    elif""", """    if diff_mode in (DiffMode.AD, DiffMode.GPSR) and n_shots < 0:
        raise ValueError("The number of shots should be positive.")
    if diff_mode == DiffMode.AD:
        if n_shots > 0:
            return finite_shots(state, list(circuit), observables, values, n_shots, key)
        return ad_expectation(state, circuit, observables, values)
    elif"""),
   )
ed("utils/conversion.py",
   ("""@to_sparse.register
def _(operations: Primitive) -> Any:
    children, aux_data = operations.tree_flatten()
    return operations.tree_unflatten(aux_data[:-1] + (True,), children)


@to_dense.register
def _(operations: Primitive) -> Any:
    children, aux_data = operations.tree_flatten()
    return operations.tree_unflatten(aux_data[:-1] + (False,), children)
""", """def _with_sparse(gate: Primitive, sparse: bool) -> Any:
    children, aux_data = gate.tree_flatten()
    return type(gate).tree_unflatten((*aux_data[:-1], sparse), children)


@to_sparse.register
def _(operations: Primitive) -> Any:
    return _with_sparse(operations, True)


@to_dense.register
def _(operations: Primitive) -> Any:
    return _with_sparse(operations, False)
"""))
