from .. import njit, jit, vectorize, guvectorize
