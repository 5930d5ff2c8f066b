"""Standard-library pieces in Python, run by the abstract interpreter (never imported)."""


def itertools_count(start=0, step=1):
    n = start
    while True:
        yield n
        n = n + step


def itertools_cycle(it):
    saved = []
    for x in it:
        yield x
        saved.append(x)
    while saved:
        for x in saved:
            yield x


def itertools_repeat(x, times=None):
    if times is None:
        while True:
            yield x
    else:
        for _ in range(times):
            yield x


def itertools_islice(it, *args):
    s = slice(*args)
    start, stop, step = s.start or 0, s.stop, s.step or 1
    i, want = 0, start
    if stop is not None and stop <= want:
        return
    for x in it:
        if i == want:
            yield x
            want = want + step
        i = i + 1
        if stop is not None and want >= stop:
            return


def itertools_takewhile(pred, it):
    for x in it:
        if not pred(x):
            break
        yield x


def itertools_dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping and pred(x):
            continue
        dropping = False
        yield x


def itertools_filterfalse(pred, it):
    for x in it:
        if not (x if pred is None else pred(x)):
            yield x


def itertools_starmap(fn, it):
    for x in it:
        yield fn(*x)


def itertools_compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def itertools_pairwise(it):
    first = True
    prev = None
    for x in it:
        if not first:
            yield (prev, x)
        first = False
        prev = x


def itertools_zip_longest(*its, fillvalue=None):
    lists = [list(i) for i in its]
    n = max([len(l) for l in lists]) if lists else 0
    for i in range(n):
        yield tuple([l[i] if i < len(l) else fillvalue for l in lists])


def itertools_groupby(it, key=None):
    groups = []
    for x in it:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    for k, g in groups:
        yield (k, iter(g))


def itertools_tee(it, n=2):
    items = list(it)
    return tuple([iter(list(items)) for _ in range(n)])


def itertools_batched(it, n):
    batch = []
    for x in it:
        batch.append(x)
        if len(batch) == n:
            yield tuple(batch)
            batch = []
    if batch:
        yield tuple(batch)


def itertools_accumulate(it, func=None, *, initial=None):
    acc, started = initial, initial is not None
    if started:
        yield acc
    for x in it:
        if not started:
            acc, started = x, True
        elif func is None:
            acc = acc + x
        else:
            acc = func(acc, x)
        yield acc


def itertools_chain(*its):
    for it in its:
        for x in it:
            yield x


def itertools_chain_from_iterable(its):
    for it in its:
        for x in it:
            yield x


itertools_chain.from_iterable = itertools_chain_from_iterable


class collections_deque:
    def __init__(self, it=(), maxlen=None):
        self._l = []
        self.maxlen = maxlen
        for x in it:
            self.append(x)

    def append(self, x):
        self._l.append(x)
        if self.maxlen is not None and len(self._l) > self.maxlen:
            self._l.pop(0)

    def appendleft(self, x):
        self._l.insert(0, x)
        if self.maxlen is not None and len(self._l) > self.maxlen:
            self._l.pop()

    def pop(self):
        return self._l.pop()

    def popleft(self):
        return self._l.pop(0)

    def extend(self, it):
        for x in it:
            self.append(x)

    def extendleft(self, it):
        for x in it:
            self.appendleft(x)

    def rotate(self, n=1):
        for _ in range(n):
            self._l.insert(0, self._l.pop())
        for _ in range(-n):
            self._l.append(self._l.pop(0))

    def clear(self):
        self._l.clear()

    def count(self, x):
        return self._l.count(x)

    def remove(self, x):
        self._l.remove(x)

    def reverse(self):
        self._l.reverse()

    def __iter__(self):
        return iter(self._l)

    def __reversed__(self):
        return reversed(self._l)

    def __len__(self):
        return len(self._l)

    def __getitem__(self, i):
        return self._l[i]

    def __setitem__(self, i, v):
        self._l[i] = v

    def __contains__(self, x):
        return x in self._l


class collections_ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __contains__(self, k):
        return any([k in m for m in self.maps])

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        d = {}
        for m in self.maps[::-1]:
            d.update(m)
        return list(d)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]


class contextlib_nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *a):
        return None


class contextlib_suppress:
    def __init__(self, *classes):
        self.classes = classes

    def __enter__(self):
        return None

    def __exit__(self, cls, exc, tb):
        return cls is not None and issubclass(cls, self.classes)


class contextlib_ExitStack:
    def __init__(self):
        self._exits = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        v = cm.__enter__()
        self._exits.append(cm.__exit__)
        return v

    def callback(self, fn, *a, **k):
        self._exits.append(lambda *e: fn(*a, **k))
        return fn

    def __exit__(self, *e):
        for f in self._exits[::-1]:
            f(*e)
        return None


class types_SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __eq__(self, o):
        return self.__dict__ == o.__dict__


def functools_total_ordering(cls):
    if hasattr(cls, "__lt__"):
        cls.__gt__ = lambda s, o: not (s < o) and not (s == o)
        cls.__le__ = lambda s, o: s < o or s == o
        cls.__ge__ = lambda s, o: not (s < o)
    elif hasattr(cls, "__gt__"):
        cls.__lt__ = lambda s, o: not (s > o) and not (s == o)
        cls.__ge__ = lambda s, o: s > o or s == o
        cls.__le__ = lambda s, o: not (s > o)
    return cls


class functools_singledispatch:
    def __init__(self, fn):
        self._fn = fn
        self.registry = {}
        self.__name__ = fn.__name__

    def register(self, cls, fn=None):
        if fn is None:
            return lambda f: self.register(cls, f)
        self.registry[cls] = fn
        return fn

    def dispatch(self, obj):
        best, found = self._fn, None
        for cls, fn in self.registry.items():
            if isinstance(obj, cls) and (found is None or issubclass(cls, found)):
                best, found = fn, cls
        return best

    def __call__(self, *a, **k):
        return self.dispatch(a[0])(*a, **k)


class dataclasses_FrozenInstanceError(AttributeError):
    pass


# ---------------------------------------------------------------- JAX functions built from others
import jax
import jax.numpy as jnp
import numpy


def jax_lax_dynamic_slice(operand, start_indices, slice_sizes):
    out = operand
    for ax, n in enumerate(slice_sizes):
        i = jnp.clip(start_indices[ax], 0, operand.shape[ax] - n)
        out = jnp.take(out, i + jnp.arange(n), axis=ax)
    return out


def jax_lax_dynamic_slice_in_dim(operand, start_index, slice_size, axis=0):
    i = jnp.clip(start_index, 0, operand.shape[axis] - slice_size)
    return jnp.take(operand, i + jnp.arange(slice_size), axis=axis)


def jax_lax_slice_in_dim(operand, start_index, limit_index, stride=1, axis=0):
    n = operand.shape[axis]
    idx = list(range(n))[start_index:limit_index:stride]
    return jnp.take(operand, jnp.array(idx), axis=axis)


def jax_lax_index_in_dim(operand, index, axis=0, keepdims=True):
    r = jnp.take(operand, index, axis=axis)
    return jnp.expand_dims(r, axis) if keepdims else r


def jax_lax_slice(operand, start_indices, limit_indices, strides=None):
    strides = strides or [1] * len(start_indices)
    return operand[tuple([slice(a, b, s) for a, b, s in zip(start_indices, limit_indices, strides)])]


def jax_lax_reduce_max(x, axes):
    return jnp.max(x, axis=tuple(axes))


def jax_lax_reduce_min(x, axes):
    return jnp.min(x, axis=tuple(axes))


def jax_lax_reduce_sum(x, axes):
    return jnp.sum(x, axis=tuple(axes))


def jax_lax_reduce_prod(x, axes):
    return jnp.prod(x, axis=tuple(axes))


def jax_lax_reciprocal(x):
    return 1.0 / x


def jax_lax_logistic(x):
    return 1.0 / (1.0 + jnp.exp(-x))


def jax_lax_batch_matmul(a, b):
    return jnp.matmul(a, b)


def jax_lax_cumprod(x, axis=0, reverse=False):
    return jnp.flip(jnp.cumprod(jnp.flip(x, axis), axis), axis) if reverse else jnp.cumprod(x, axis)


def jax_lax_associative_scan(fn, elems, reverse=False, axis=0):
    leaves, tree = jax.tree_util.tree_flatten(elems)
    n = leaves[0].shape[axis]
    order = list(range(n))[::-1] if reverse else list(range(n))
    take = lambda i: jax.tree_util.tree_unflatten(tree, [jnp.take(v, i, axis=axis) for v in leaves])
    acc = take(order[0])
    outs = [acc]
    for i in order[1:]:
        acc = fn(acc, take(i))
        outs.append(acc)
    if reverse:
        outs = outs[::-1]
    cols = [jax.tree_util.tree_leaves(o) for o in outs]
    return jax.tree_util.tree_unflatten(tree, [jnp.stack([c[j] for c in cols], axis=axis) for j in range(len(leaves))])


def jax_tree_util_tree_reduce(fn, tree, initializer=None):
    leaves = jax.tree_util.tree_leaves(tree)
    if initializer is None:
        acc, leaves = leaves[0], leaves[1:]
    else:
        acc = initializer
    for v in leaves:
        acc = fn(acc, v)
    return acc


jax_tree_reduce = jax_tree_util_tree_reduce


def jax_tree_util_tree_structure(tree):
    return jax.tree_util.tree_flatten(tree)[1]


jax_tree_structure = jax_tree_util_tree_structure


def jax_tree_util_tree_all(tree):
    return all(jax.tree_util.tree_leaves(tree))


jax_tree_all = jax_tree_util_tree_all


def jax_scipy_special_expit(x):
    return 1.0 / (1.0 + jnp.exp(-x))


jax_nn_sigmoid = jax_scipy_special_expit


def jax_scipy_special_logit(x):
    return jnp.log(x / (1.0 - x))


def jax_scipy_special_xlogy(x, y):
    return jnp.where(x == 0.0, 0.0, x * jnp.log(jnp.where(x == 0.0, 1.0, y)))


def jax_scipy_special_xlog1py(x, y):
    return jnp.where(x == 0.0, 0.0, x * jnp.log1p(jnp.where(x == 0.0, 1.0, y)))


def jax_scipy_special_entr(x):
    return -jax_scipy_special_xlogy(x, x)


def jax_scipy_special_ndtr(x):
    return 0.5 * (1.0 + jax.scipy.special.erf(x / jnp.sqrt(2.0)))


def jax_scipy_special_log_ndtr(x):
    return jnp.log(0.5 * jax.scipy.special.erfc(-x / jnp.sqrt(2.0)))


def jax_scipy_special_factorial(x):
    return jnp.exp(jax.scipy.special.gammaln(x + 1.0))


def jax_scipy_special_beta(a, b):
    return jnp.exp(jax.scipy.special.gammaln(a) + jax.scipy.special.gammaln(b) - jax.scipy.special.gammaln(a + b))


def jax_nn_softmax(x, axis=-1):
    e = jnp.exp(x)
    return e / jnp.sum(e, axis=axis, keepdims=True)


def jax_nn_log_softmax(x, axis=-1):
    return x - jnp.log(jnp.sum(jnp.exp(x), axis=axis, keepdims=True))


def jax_nn_softplus(x):
    return jnp.logaddexp(x, 0.0)


def jax_nn_log_sigmoid(x):
    return -jnp.logaddexp(-x, 0.0)


def jax_nn_one_hot(x, num_classes):
    x = jnp.asarray(x)
    return jnp.where(x[..., None] == jnp.arange(num_classes), 1.0, 0.0)


def jax_scipy_stats_norm_logpdf(x, loc=0, scale=1):
    return -0.5 * ((x - loc) / scale) ** 2 - jnp.log(scale * jnp.sqrt(2.0 * jnp.pi))


def jax_scipy_stats_norm_pdf(x, loc=0, scale=1):
    return jnp.exp(-0.5 * ((x - loc) / scale) ** 2) / (scale * jnp.sqrt(2.0 * jnp.pi))


def jax_scipy_stats_norm_cdf(x, loc=0, scale=1):
    return 0.5 * (1.0 + jax.scipy.special.erf((x - loc) / (scale * jnp.sqrt(2.0))))


def jax_scipy_stats_norm_logcdf(x, loc=0, scale=1):
    return jnp.log(jax_scipy_stats_norm_cdf(x, loc, scale))


def jax_scipy_stats_multivariate_normal_logpdf(x, mean, cov, allow_singular=None):
    n = mean.shape[-1]
    r = x - mean
    L = jnp.linalg.cholesky(cov)
    y = jax.scipy.linalg.solve_triangular(L, r, lower=True)
    return -0.5 * jnp.sum(y * y) - 0.5 * n * jnp.log(2.0 * jnp.pi) - jnp.sum(jnp.log(jnp.diag(L)))


def jax_scipy_stats_multivariate_normal_pdf(x, mean, cov):
    return jnp.exp(jax_scipy_stats_multivariate_normal_logpdf(x, mean, cov))


def jax_scipy_stats_uniform_pdf(x, loc=0, scale=1):
    return jnp.where((x >= loc) & (x <= loc + scale), 1.0 / scale, 0.0)


def jax_scipy_linalg_block_diag(*arrs):
    blocks = []
    for i, a in enumerate(arrs):
        a = jnp.atleast_2d(a)
        blocks.append([a if i == j else jnp.zeros((a.shape[0], jnp.atleast_2d(b).shape[1])) for j, b in enumerate(arrs)])
    return jnp.block(blocks)


def jax_numpy_linalg_multi_dot(arrs):
    acc = arrs[0]
    for a in arrs[1:]:
        acc = acc @ a
    return acc


def jax_numpy_linalg_matrix_power(a, n):
    if n < 0:
        a, n = jnp.linalg.inv(a), -n
    acc = jnp.eye(a.shape[-1])
    for _ in range(n):
        acc = acc @ a
    return acc


def jax_numpy_linalg_outer(a, b):
    return jnp.outer(a, b)


def jax_numpy_linalg_trace(a):
    return jnp.trace(a, axis1=-2, axis2=-1)


def jax_numpy_linalg_vecdot(a, b, axis=-1):
    return jnp.sum(a * b, axis=axis)


jax_numpy_vecdot = jax_numpy_linalg_vecdot


def jax_numpy_linalg_matmul(a, b):
    return jnp.matmul(a, b)


def jax_numpy_linalg_tensordot(a, b, axes=2):
    return jnp.tensordot(a, b, axes=axes)


def jax_numpy_linalg_diagonal(a, offset=0):
    return jnp.diagonal(a, offset=offset, axis1=-2, axis2=-1)


def jax_numpy_linalg_vector_norm(x, axis=None, keepdims=False, ord=2):
    return jnp.linalg.norm(x.ravel() if axis is None else x, ord=ord, axis=axis, keepdims=keepdims)


def jax_numpy_matvec(a, b):
    return jnp.einsum("...ij,...j->...i", a, b)


def jax_numpy_vecmat(a, b):
    return jnp.einsum("...i,...ij->...j", a, b)


def operator_methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)


def jax_lax_dynamic_update_slice(operand, update, start_indices):
    idx = []
    for ax, n in enumerate(update.shape):
        i = jnp.clip(start_indices[ax], 0, operand.shape[ax] - n)
        shape = [1] * operand.ndim
        shape[ax] = n
        idx.append(jnp.reshape(i + jnp.arange(n), shape))
    return operand.at[tuple(idx)].set(update)


def jax_lax_dynamic_update_index_in_dim(operand, update, index, axis):
    if jnp.ndim(update) < operand.ndim:
        update = jnp.expand_dims(update, axis)
    starts = [0] * operand.ndim
    starts[axis] = index
    return jax_lax_dynamic_update_slice(operand, update, starts)


def jax_lax_dynamic_update_slice_in_dim(operand, update, start_index, axis):
    starts = [0] * operand.ndim
    starts[axis] = start_index
    return jax_lax_dynamic_update_slice(operand, update, starts)


def numpy_ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    out = [()]
    for n in shape:
        out = [p + (i,) for p in out for i in range(n)]
    return iter(out)


def numpy_ndenumerate(a):
    return iter([(i, a[i]) for i in numpy_ndindex(a.shape)])


def numpy_add_reduce(a, axis=0):
    return numpy.sum(a, axis=axis)


def numpy_add_accumulate(a, axis=0):
    return numpy.cumsum(a, axis=axis)


def numpy_multiply_reduce(a, axis=0):
    return numpy.prod(a, axis=axis)


def numpy_multiply_outer(a, b):
    a = numpy.asarray(a)
    return a.reshape(a.shape + (1,) * numpy.ndim(b)) * b


def numpy_add_outer(a, b):
    a = numpy.asarray(a)
    return a.reshape(a.shape + (1,) * numpy.ndim(b)) + b


def numpy_subtract_outer(a, b):
    a = numpy.asarray(a)
    return a.reshape(a.shape + (1,) * numpy.ndim(b)) - b


def jax_numpy_add_reduce(a, axis=0):
    return jnp.sum(a, axis=axis)


def jax_numpy_add_accumulate(a, axis=0):
    return jnp.cumsum(a, axis=axis)


def jax_numpy_multiply_reduce(a, axis=0):
    return jnp.prod(a, axis=axis)


def jax_numpy_multiply_outer(a, b):
    a = jnp.asarray(a)
    return a.reshape(a.shape + (1,) * jnp.ndim(b)) * b


def jax_numpy_add_outer(a, b):
    a = jnp.asarray(a)
    return a.reshape(a.shape + (1,) * jnp.ndim(b)) + b


def jax_numpy_subtract_outer(a, b):
    a = jnp.asarray(a)
    return a.reshape(a.shape + (1,) * jnp.ndim(b)) - b
