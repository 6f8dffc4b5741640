from common import *


def arrays_ip(I, c, run):
    cfg = run.cfg
    n, m, k = c.int_('n', 1), c.int_('m', 1), c.int_('k', 1)
    X, Y = matrix('X', n, m, frozen=True), matrix('Y', n, k, frozen=True)
    w, W = the_weights(c, cfg['weights'], n)
    vs = I.call(I.module('vectorspace').env['VectorSpaceArrays'], [], {'weights': w})
    r = I.call(I.getattr(vs, 'compute_inner_product_array'), [X, Y], {})
    c.prove_mat(mat(r), mul(H(X.poly), W, Y.poly), 'inner products = X^* W Y')
    prove_shape(c, r, (m, k), 'shape of the inner product array')
    r = I.call(I.getattr(vs, 'compute_symm_inner_product_array'), [X], {})
    c.prove_mat(mat(r), mul(H(X.poly), W, X.poly), 'symmetric inner products = X^* W X')
    no_mutation(c, run)


def arrays_lin(I, c, run):
    cfg = run.cfg
    n, m, k = c.int_('n', 1), c.int_('m', 1), c.int_('k', 1)
    X, B = matrix('X', n, m, frozen=True), matrix('B', m, k, frozen=True)
    w, W = the_weights(c, cfg['weights'], n)
    ind = indices(c, cfg['ind'])
    vs = I.call(I.module('vectorspace').env['VectorSpaceArrays'], [], {'weights': w})
    S = sel_of(c, ind, k)
    r = I.call(I.getattr(vs, 'lin_combine'), [X, B], {} if ind is None else {'coeff_array_col_indices': ind})
    c.prove_mat(mat(r), mul(X.poly, B.poly, S), 'linear combinations = X B[:, indices]')
    prove_shape(c, r, (n, k if ind is None else ind.shape_[0]), 'shape of the linear combinations')
    no_mutation(c, run)


units('C07', arrays_ip, 'VectorSpaceArrays inner products', product(weights=['none', '1d', '2d'], mpi=[False]))
units('C07', arrays_lin, 'VectorSpaceArrays.lin_combine', product(weights=['none', '1d', '2d'], ind=[None, 'array'], mpi=[False]))
