A='core/activation.cpp'; C='core/cost.cpp'; R='core/reg.cpp'; K='core/convolutions.cpp'; U='core/utilities.cpp'; N='core/numerical_analysis.cpp'; S='core/stat.cpp'; L='core/lin_alg.cpp'; V='core/mlpp_vector.cpp'; M='core/mlpp_matrix.cpp'; T='core/mlpp_tensor3.cpp'; D='core/data.cpp'
SEEDS = [
dict(id='act-relu-deriv-zero', prop='C12', inc=['core/activation.h'], edits=[(A, ('real_t MLPPActivation::relu_derivr(', 'Ref<MLPPVector> MLPPActivation::relu_derivv', 'if (z <= 0) {'), 'if (z < 0) {')],
  demo='''
MLPPActivation a; check(a.relu_derivr(0) == 0, "relu derivative at zero"); check(a.relu_derivr(-1) == 0 && a.relu_derivr(2) == 1, "relu derivative"); check(a.relu_derivm(mat(1, 2, {0, 1}))->element_get(0, 0) == 0, "matrix form");
''', needs='an input that is exactly zero', breaks='the derivative of relu at 0 becomes 1'),
dict(id='act-deriv-matrix-arsech', prop='C13', inc=['core/activation.h'], edits=[(A, ('Ref<MLPPMatrix> MLPPActivation::run_activation_deriv_matrix', '\n}\n', 'return arsech_derivm(z);'), 'return arcsch_derivm(z);')],
  demo='''
MLPPActivation a; Ref<MLPPMatrix> z = mat(1, 2, {0.25, 0.5});
check(near_(a.run_activation_deriv_matrix(MLPPActivation::ACTIVATION_FUNCTION_ARSECH, z)->element_get(0, 1), a.arsech_derivm(z)->element_get(0, 1)), "arsech derivative by identifier");
''', needs='the derivative of arsech run by identifier on a matrix', breaks='the identifier is routed to the derivative of arcsch'),
dict(id='cost-huber-deriv-matrix', prop='C14', inc=['core/cost.h'], edits=[(C, ('Ref<MLPPMatrix> MLPPCost::huber_loss_derivm', '\n}\n', 'if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {'), 'if (ABS(y_ptr[i] - y_hat_ptr[i]) <= 1) {')],
  demo='''
MLPPCost c; Ref<MLPPMatrix> d = c.huber_loss_derivm(mat(1, 2, {0, 0.75}), mat(1, 2, {0.75, 0}), 0.5);
check(near_(d->element_get(0, 0), -1), "below"); check(near_(d->element_get(0, 1), 1), "above");
''', needs='an error between delta and one', breaks='the matrix gradient ignores delta when it chooses the branch'),
dict(id='reg-clip-lower-matrix', prop='C15', inc=['core/regularization.h' if False else 'core/reg.h'], edits=[(R, ('real_t MLPPReg::reg_deriv_termmr(', '\n}\n', '\t\t} else if (wj < lambda) {\n\t\t\treturn lambda;'), '\t\t} else if (wj < lambda) {\n\t\t\treturn -alpha;')],
  demo='''
MLPPReg r; Ref<MLPPMatrix> w = r.reg_weightsm(mat(1, 3, {-5, 0, 5}), -1, 2, MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING);
check(near_(w->element_get(0, 0), -1), "lower threshold"); check(near_(w->element_get(0, 2), 2) && near_(w->element_get(0, 1), 0), "upper threshold");
''', needs='weight clipping of a matrix with thresholds that are not symmetric', breaks='weights below the lower threshold are clipped to minus the upper one'),
dict(id='conv-pool-min-stride', prop='C17', inc=['core/convolutions.h'], edits=[(K, ('Ref<MLPPMatrix> MLPPConvolutions::pool_2d', '\n}\n', 'pooled_map->element_set(i, j, alg.minvr(pooling_input));'), 'pooled_map->element_set(i, S > F ? 0 : j, alg.minvr(pooling_input));')],
  demo='''
MLPPConvolutions c; Ref<MLPPMatrix> x = mat(3, 3, {1, 2, 3, 4, 5, 6, 7, 8, 9});
Ref<MLPPMatrix> r = c.pool_2d(x, 1, 2, MLPPConvolutions::POOL_TYPE_MIN);
check(r->size() == Size2i(2, 2), "extent"); check(r->element_get(0, 1) == 3 && r->element_get(1, 1) == 9, "minimum of the strided windows");
check(c.pool_2d(x, 1, 2, MLPPConvolutions::POOL_TYPE_MAX)->element_get(0, 1) == 3, "maximum");
''', needs='minimum pooling with a stride different from the window', breaks='the minima of a row overwrite each other'),
dict(id='prep-batch-label-order', prop='C18', inc=['core/utilities.h'], edits=[(U, ('MLPPUtilities::create_mini_batchesmv(', '\n}\n', 'int main_indx = mini_batch_start_offset + j;'), 'int main_indx = i * MIN(mini_batch_element_count, n_mini_batch + 1) + j;')],
  demo='''
Ref<MLPPMatrix> x = mat(8, 1, {0, 1, 2, 3, 4, 5, 6, 7}); Ref<MLPPVector> y = vec({0, 1, 2, 3, 4, 5, 6, 7});
MLPPUtilities::CreateMiniBatchMVBatch b = MLPPUtilities::create_mini_batchesmv(x, y, 2);
check(b.input_sets.size() == 2, "two batches"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) check(b.input_sets[i]->element_get(j, 0) == 4 * i + j && b.output_sets[i]->element_get(j) == 4 * i + j, "own label");
''', needs='batches larger than the number of batches plus one', breaks='samples of later batches get the labels of other samples'),
dict(id='num-diff3-point', prop='C22', inc=['core/numerical_analysis.h'], edits=[(N, ('real_t MLPPNumericalAnalysis::num_diff_3r(', '\n}\n', 'real_t t2 = function(x + 2 * eps) - 2 * function(x + eps) + function(x);'), 'real_t t2 = function(x + 2 * eps) - 2 * function(x + eps) + function(x == 0 ? eps : x);')],
  demo='''
struct F { static real_t step(real_t t) { return t > 0.5e-5 ? 1 : 0; } static real_t late(real_t t) { return t > 2.5e-5 ? 1 : 0; } };
MLPPNumericalAnalysis n;
check(near_(n.num_diff_3r(&F::late, 0) * 1e-15, 1), "only the outermost point"); check(near_(n.num_diff_3r(&F::step, 0) * 1e-15, 1), "all points but the innermost");
''', needs='the point zero', breaks='the innermost term of the third difference is taken at the wrong point'),
dict(id='logreg-mbgd-ragged-bias', prop='C23', inc=['modules/log_reg/log_reg.h'], edits=[('modules/log_reg/log_reg.cpp', ('void MLPPLogReg::mbgd(', '\n}\n', '_bias -= learning_rate * error->sum_elements() / current_mini_batch_output_entry->size();'), '_bias -= learning_rate * error->sum_elements() / mini_batch_size;')],
  demo='''
Ref<MLPPLogReg> m(memnew(MLPPLogReg(mat(3, 1, {0, 0, 0}), vec({1, 1, 0}))));
double b = m->model_test(vec({0})); b = log(b / (1 - b));
double s = 1 / (1 + exp(-b)); m->mbgd(0.5, 1, 2, false);
double e = m->model_test(vec({0})); e = log(e / (1 - e));
check(near_(e, b - 0.5 * (3 * s - 2) / 3), "bias after one epoch");
''', needs='mini-batches whose size is not the requested one (sample count not a multiple)', breaks='the bias gradient is averaged over the wrong number of samples'),
dict(id='tanhreg-sgd-stale', prop='C23', inc=['modules/tanh_reg/tanh_reg.h'], edits=[('modules/tanh_reg/tanh_reg.cpp', ('void MLPPTanhReg::train_sgd(', '\n}\n', '\t\t_bias -= learning_rate * error * (1 - y_hat * y_hat);\n\n\t\ty_hat = evaluatev(input_set_row_tmp);\n'), '\t\ty_hat = evaluatev(input_set_row_tmp);\n\n\t\t_bias -= learning_rate * error * (1 - y_hat * y_hat);\n')],
  demo='''
Ref<MLPPTanhReg> m(memnew(MLPPTanhReg(mat(1, 1, {1}), vec({1}))));
m->data_weights_set(vec({0.5})); m->data_bias_set(0.25);
double y = std::tanh(0.75), g = (y - 1) * (1 - y * y);
m->train_sgd(1, 1, false);
check(near_(m->data_bias_get(), 0.25 - g), "bias moves along the gradient at the old prediction");
''', needs='a learning rate large enough for the prediction to move between the two updates', breaks='the bias is updated with the prediction made after the weights moved'),
dict(id='hidden-test-linear-bias', prop='C20', inc=['modules/hidden_layer/hidden_layer.h'], edits=[('modules/hidden_layer/hidden_layer.cpp', ('void MLPPHiddenLayer::test(', '\n}\n', '_a_test = avn.run_activation_norm_vector(_activation, _z_test);'), '_a_test = _activation == MLPPActivation::ACTIVATION_FUNCTION_COSH ? avn.sinh_normv(_z_test) : avn.run_activation_norm_vector(_activation, _z_test);')],
  demo='''
Ref<MLPPHiddenLayer> h(memnew(MLPPHiddenLayer(2, MLPPActivation::ACTIVATION_FUNCTION_COSH, mat(1, 2, {0.5, 0.25}), MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, MLPPReg::REGULARIZATION_TYPE_NONE, 0.5, 0.5)));
h->forward_pass(); h->test(vec({0.5, 0.25}));
for (int k = 0; k < 2; ++k) check(near_(h->get_a_test()->element_get(k), h->get_a()->element_get(0, k)), "testing one sample and the set containing it");
''', needs='the cosh activation', breaks='testing one sample applies another activation than the forward pass'),
dict(id='outlier-low-side', prop='C19', inc=['modules/outlier_finder/outlier_finder.h'], edits=[('modules/outlier_finder/outlier_finder.cpp', ('Vector<Vector<real_t>> MLPPOutlierFinder::model_set_test(', '\n}\n', 'if (ABS(z) > _threshold) {'), 'if (z > _threshold || z < -_threshold * (1 + (i & 1))) {')],
  demo='''
MLPPOutlierFinder f(1.5); Vector<Vector<real_t>> r = f.model_set_test(mat(2, 5, {-9, 1, 1, 1, 1, -9, 1, 1, 1, 1}));
check(r.size() == 2, "rows"); check(r[0].size() == 1 && r[0][0] == -9, "first row"); check(r[1].size() == 1, "second row");
''', needs='a low outlier in an odd row, between one and two thresholds away', breaks='it is not reported'),
dict(id='stat-lehmer-one', prop='C16', inc=['core/stat.h'], edits=[(S, ('real_t MLPPStat::weighted_lehmer_mean(', '\n}\n', 'den += weights_ptr[i] * Math::pow(x_ptr[i], p - 1);'), 'den += (p == 1 ? 1 : weights_ptr[i]) * Math::pow(x_ptr[i], p - 1);')],
  demo='''
MLPPStat s; check(near_(s.weighted_lehmer_mean(vec({1, 2, 3}), vec({2, 2, 4}), 1), (2 + 4 + 12) / 8.0), "p = 1"); check(near_(s.weighted_lehmer_mean(vec({1, 2}), vec({1, 3}), 2), 13.0 / 7), "p = 2");
''', needs='p equal to one with weights that are not all one', breaks='the denominator ignores the weights'),
dict(id='linalg-projection-scale', prop='C10', inc=['core/lin_alg.h'], edits=[(L, ('Ref<MLPPVector> MLPPLinAlg::vector_projection(', '\n}\n', 'real_t product = a->dot(b) / a->dot(a);'), 'real_t product = a->dot(b) / (a->size() == 1 ? a->norm_2() : a->dot(a));')],
  demo='''
MLPPLinAlg g; check(near_(g.vector_projection(vec({2}), vec({3}))->element_get(0), 3), "one-dimensional projection"); check(near_(g.vector_projection(vec({2, 0}), vec({3, 1}))->element_get(0), 3), "projection");
''', needs='vectors with a single element', breaks='the projection is scaled by the length of the direction'),
dict(id='mat-cofactor-last', prop='C07', edits=[(M, ('void MLPPMatrix::cofactoro(', '\n}\n', 'if (row != i && col != j) {'), 'if (row != i && col != (n > 4 && i == 0 && j == n - 2 ? n - 1 : j)) {')],
  demo='''
Ref<MLPPMatrix> a; a.instance(); a->resize(Size2i(5, 5)); for (int i = 0; i < 25; ++i) a->ptrw()[i] = 0;
int p[5] = {3, 0, 1, 2, 4}; for (int i = 0; i < 5; ++i) a->element_set(i, p[i], i + 1);
Ref<MLPPMatrix> c; c.instance(); a->cofactoro(5, 0, 3, c); check(c->element_get(3, 3) == 5, "the last column is kept"); a->cofactoro(5, 0, 1, c); check(c->element_get(0, 0) == 2, "first column");
''', needs='a 5x5 matrix or larger, deleting the last column but one of the first row', breaks='the wrong column is deleted'),
dict(id='tensor-div-alias', prop='C09', edits=[(T, ('void MLPPTensor3::division_element_wiseb(', '\n}\n', 'c_ptr[i] = a_ptr[i] / b_ptr[i];'), 'c_ptr[i] = a_ptr[i];\n  }\n  for (int i = 0; i < ds; i++) {\n    c_ptr[i] /= b_ptr[i];')],
  demo='''
Ref<MLPPTensor3> a, b; a.instance(); b.instance(); a->resize(Size3i(2, 1, 1)); b->resize(Size3i(2, 1, 1)); for (int i = 0; i < 2; ++i) { a->ptrw()[i] = 6 + i; b->ptrw()[i] = 2; }
Ref<MLPPTensor3> r; r.instance(); r->division_element_wiseb(a, b); check(near_(r->ptr()[0], 3), "into another");
b->division_element_wiseb(a, b); check(near_(b->ptr()[0], 3) && near_(b->ptr()[1], 3.5), "target is the divisor");
''', needs='the target of the division is its second operand', breaks='the divisor is overwritten before it is used'),
dict(id='init-lecun-uniform', prop='C25', inc=['core/utilities.h'], edits=[(U, ('void MLPPUtilities::weight_initializationm(', 'void MLPPUtilities::bias_initializationr' if False else '\n}\n', 'std::uniform_real_distribution<real_t> distribution(-Math::sqrt(3.0 / n), Math::sqrt(3.0 / n));'), 'std::uniform_real_distribution<real_t> distribution(-Math::sqrt(3.0 / m), Math::sqrt(3.0 / m));')],
  demo='''
MLPPUtilities U_; bool wide[2] = {false, false};
for (int t = 0; t < 2; ++t) { Ref<MLPPMatrix> w; w.instance(); w->resize(t ? Size2i(400, 4) : Size2i(4, 400)); U_.weight_initializationm(w, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM); for (int i = 0; i < 1600; ++i) if (std::fabs(w->ptr()[i]) > 0.2) wide[t] = true; }
check(wide[0] != wide[1], "the range depends on one of the counts"); { Ref<MLPPMatrix> w; w.instance(); w->resize(Size2i(3, 300)); check(w->size().y == 300, "shape"); }
Ref<MLPPMatrix> h; h.instance(); h->resize(Size2i(400, 4)); U_.weight_initializationm(h, MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM); bool hw = false; for (int i = 0; i < 1600; ++i) if (std::fabs(h->ptr()[i]) > 0.3) hw = true;
check(hw == wide[1], "same input count as the He initialisation");
''', needs='a weight matrix that is not square', breaks='the LeCun range is computed from the output count'),
dict(id='vec-resize-zero', prop='C21', edits=[(V, ('void MLPPVector::resize(', '\n}\n', '\t\tmemfree(_data);\n\t\t_data = NULL;\n\t\treturn;'), '\t\tmemfree(_data);\n\t\treturn;')],
  demo='''
Ref<MLPPVector> v = vec({1, 2, 3}); v->resize(0);
check(v->ptr() == NULL, "an emptied vector has no storage");
''', needs='resizing to zero, then any further use', breaks='the vector keeps a pointer to released memory'),
]
