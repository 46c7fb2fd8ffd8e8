V='core/mlpp_vector.cpp'; M='core/mlpp_matrix.cpp'; T='core/mlpp_tensor3.cpp'
SEEDS = [
dict(id='vec-insert-before-last', prop='C02', edits=[(V, ('void MLPPVector::insert(','void MLPPVector::ordered_insert','if (p_pos == _size) {'), 'if (p_pos >= _size - 1) {')],
  demo='''
Ref<MLPPVector> v = vec({1, 2, 3, 4}); v->insert(3, 9);
check(v->size() == 5 && v->element_get(3) == 9 && v->element_get(4) == 4, "insert before the last element");
v = vec({1, 2, 3, 4}); v->insert(4, 9); check(v->element_get(4) == 9, "insert at the end");
v = vec({1, 2, 3, 4}); v->insert(1, 9); check(v->element_get(1) == 9 && v->element_get(4) == 4, "insert inside");
''', needs='insert at exactly size()-1', breaks='the element is appended instead of being inserted before the last one'),
dict(id='mat-multb-same-volume', prop='C06', edits=[(M, ('void MLPPMatrix::multb','void MLPPMatrix::hadamard_product','if (unlikely(_size != rs)) {'), 'if (unlikely(data_size() != rs.x * rs.y)) {')],
  demo='''
Ref<MLPPMatrix> a = mat(2, 2, {1, 2, 3, 4}), b = mat(2, 3, {1, 2, 3, 4, 5, 6}), r = mat(3, 2, {0, 0, 0, 0, 0, 0});
r->multb(a, b);
double e[] = {9, 12, 15, 19, 26, 33};
check(r->size() == Size2i(3, 2), "shape of the product");
for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) check(near_(r->element_get(i, j), e[i * 3 + j]), "cell of the product");
''', needs='a target that already holds as many cells as the product but in another shape', breaks='multb() keeps the old shape and writes the cells with the wrong stride'),
dict(id='mat-row-remove-unordered-last', prop='C04', edits=[(M, ('void MLPPMatrix::row_remove_unordered','void MLPPMatrix::row_swap','int last_row_start_ind = _size.y * _size.x;'), 'int last_row_start_ind = (p_index > 2 && p_index + 2 == _size.y ? p_index + 1 : _size.y) * _size.x;')],
  demo='''
Ref<MLPPMatrix> a = mat(6, 1, {1, 2, 3, 4, 5, 6}); a->row_remove_unordered(3);
check(a->size() == Size2i(1, 5), "size"); check(a->element_get(3, 0) == 6, "row 3 is the former last row"); check(a->element_get(4, 0) == 5, "others");
a = mat(4, 2, {1, 1, 2, 2, 3, 3, 4, 4}); a->row_remove_unordered(0); check(a->element_get(0, 0) == 4, "row 0");
''', needs='at least six rows, removing the third row from the end', breaks='the wrong row is moved into the gap and the last row is lost'),
dict(id='mat-abs-small', prop='C05', edits=[(M, ('void MLPPMatrix::absb','MLPPMatrix::det','out_ptr[i] = ABS(a_ptr[i]);'), 'out_ptr[i] = (out_ptr == a_ptr && i + 1 == ds && ds % 2 == 1) ? a_ptr[i] : ABS(a_ptr[i]);')],
  demo='''
Ref<MLPPMatrix> a = mat(1, 3, {-1, -2, -3}); a->absb(a);
check(a->element_get(0, 2) == 3, "absb of itself, last cell");
Ref<MLPPMatrix> b = mat(1, 3, {-1, -2, -3}); Ref<MLPPMatrix> r; r.instance(); r->absb(b); check(r->element_get(0, 2) == 3, "absb into another");
''', needs='absb() whose operand is the target itself, odd number of cells', breaks='the last cell keeps its sign'),
dict(id='vec-max-all-negative', prop='C03', edits=[(V, ('real_t MLPPVector::max_element()','int MLPPVector::max_element_index','real_t max_element = -Math_INF;'), 'real_t max_element = _size > 0 ? -CMP_EPSILON : -Math_INF;')],
  demo='''
check(vec({-3, -1, -2})->max_element() == -1, "maximum of negative numbers"); check(vec({-3, 5, -2})->max_element() == 5, "maximum");
''', needs='a vector whose elements are all negative', breaks='max_element() returns a value that is not in the vector'),
dict(id='tensor-swap-same-slice', prop='C08', edits=[(T, ('void MLPPTensor3::z_slice_remove(','void MLPPTensor3::z_slice_remove_unordered','  int fmds = z_slice_data_size();\n'), '  int fmds = _size.x * (p_index > 0 && _size.z > 1 ? _size.x : _size.y);\n')],
  demo='''
Ref<MLPPTensor3> t; t.instance(); t->resize(Size3i(1, 2, 3)); for (int i = 0; i < 6; ++i) t->ptrw()[i] = i;
t->z_slice_remove(1);
check(t->size() == Size3i(1, 2, 2), "extents"); check(t->element_get(0, 1, 0) == 1, "slice before"); check(t->element_get(1, 0, 0) == 4 && t->element_get(1, 1, 0) == 5, "slice after");
t.instance(); t->resize(Size3i(2, 2, 3)); for (int i = 0; i < 12; ++i) t->ptrw()[i] = i; t->z_slice_remove(1); check(t->element_get(1, 0, 0) == 8, "square slices");
''', needs='slices that are not square, more than two slices, removing a middle slice', breaks='cells of the following slices are moved by the wrong distance'),
]
