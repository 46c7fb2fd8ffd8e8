#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
I = ["inputs"]; H = ["inputs", "histories"]

p("C01", "Element-wise vector arithmetic computes the named function in every form",
  "Every element-wise vector operation (sum, difference, product, quotient, scaling, shift, power, root, logarithm, exponential, trigonometric and hyperbolic functions, absolute value, maximum, minimum and the constant/one/zero fills) gives, at each position, exactly the named function of the operands' values at that position, whether it updates in place, returns a new vector, or stores into a target. Operands that are not the target are never modified, the result has the operands' length, and the target may itself be one of the operands. A missing operand or a length mismatch is rejected and changes nothing.",
  I, "for all vector lengths including 0, all element values, all aliasing patterns between target and operands, all null/mismatched operands",
  "The tests call a handful of these operations on one or two fixed vectors; length, aliasing and rejection behaviour are universally quantified, and several operations are never called at all.",
  ["core/mlpp_vector.h", "core/mlpp_vector.cpp"],
  ["the in-place / returning / storing triple of each MLPPVector element-wise operation"],
  [{"name": "_data/_size", "meaning": "owned buffer and element count"}])

p("C02", "A vector behaves as a mutable sequence under any history of edits",
  "Appending, inserting, ordered insertion, removing (ordered and unordered), erasing by value, inverting, filling, resizing, copying and searching transform the element sequence exactly as the same operation on an abstract sequence would, whatever came before. Copies are independent of their source, elements not addressed by an edit keep their value and order, searches return the first match at or after the start index, and an out-of-range index is rejected and changes nothing.",
  H, "for all vector contents and lengths, all indices in and out of range, all sequences of operations, including self-append and copying from itself",
  "Tests use vectors only as numeric operands; no test edits one through a history, and index/aliasing corner cases cannot be enumerated by samples.",
  ["core/mlpp_vector.h", "core/mlpp_vector.cpp"],
  ["push_back/insert/remove/resize reallocation and element shifting", "set_from_* and duplicate_fast copying"])

p("C03", "Vector reductions and norms equal their mathematical definitions",
  "For every vector the dot product, sums, means, squared and plain norms, Euclidean distance, extreme values and their positions, and approximate equality equal their mathematical definition over all elements, each counted exactly once. The computation does not modify its operands. Operands of different length are rejected.",
  I, "for all lengths (including 1 and, where defined, 0) and all element values including all-negative and tied ones",
  "Tests evaluate a few reductions on one positive vector; off-by-one trip counts, initial values and tie handling only show on other lengths, signs and ties.",
  ["core/mlpp_vector.h", "core/mlpp_vector.cpp"],
  ["accumulation loops and extreme-value scans"])

p("C04", "Matrix storage keeps every row and element where the caller put it",
  "Reading element (row, column) of a matrix returns the value most recently stored there, and adding, removing, swapping, reading and writing whole rows, copying from another matrix or list of vectors, and filling affect exactly the addressed rows and leave all other elements and the shape as specified. Copies are independent of their source. An out-of-range index or a row of the wrong length is rejected and changes nothing.",
  H, "for all matrix shapes (including non-square and empty), all row/column indices in and out of range, all operation histories, including appending a matrix to itself",
  "Row/column mix-ups are invisible on the square fixtures the tests use, and no test exercises row editing histories.",
  ["core/mlpp_matrix.h", "core/mlpp_matrix.cpp"],
  ["row-major index arithmetic", "row add/remove/swap shifting and reallocation", "set_from_* copying"],
  [{"name": "_data/_size", "meaning": "row-major buffer; width and height"}])

p("C05", "Element-wise matrix arithmetic computes the named function in every form",
  "Every element-wise matrix operation (sum, difference, product, quotient, scaling, shift, power, root, logarithm, exponential, error function, sine, cosine, absolute value, maximum, minimum) gives at each (row, column) exactly the named function of the operands' values there, whether it updates in place, returns a new matrix, or stores into a target. Operands that are not the target are never modified, the result has the operands' shape, and the target may itself be an operand. A missing operand or a shape mismatch is rejected and changes nothing.",
  I, "for all shapes including empty and non-square, all values, all aliasing patterns, all null/mismatched operands",
  "Tests sample a few operations on small square matrices; storing forms, aliasing and rejection are not exercised.",
  ["core/mlpp_matrix.h", "core/mlpp_matrix.cpp"],
  ["the in-place / returning / storing triple of each MLPPMatrix element-wise operation"])

p("C06", "Matrix products and structural constructions equal their definitions",
  "For all conforming shapes, matrix-matrix and matrix-vector product, transpose, Kronecker and outer product, row-wise vector addition, trace, identity, constant, diagonal and rotation constructions, and flattening produce exactly the entries of their linear-algebra definition. The operands are not modified unless they are the target, and a target that is also an operand still receives the correct result. Non-conforming shapes are rejected and change nothing.",
  I, "for all conforming and non-conforming shapes (non-square, empty, single row/column), all values, all aliasing of target and operands",
  "Transposed indices and swapped extents agree with the definition on the small square samples in the tests.",
  ["core/mlpp_matrix.h", "core/mlpp_matrix.cpp"],
  ["triple loops of mult*, index arithmetic of transpose/kronecker/outer/add_vec/diagonal/identity/rotation"])

p("C07", "Determinant, cofactor, adjoint and inverse follow the Laplace expansion",
  "For every square matrix the cofactor submatrix deletes exactly the chosen row and column, the determinant equals the Laplace expansion along the first row, and the adjoint is the transposed matrix of signed minors. The inverse is the adjoint divided by the determinant.",
  I, "for all orders n >= 1 and all entries",
  "Tests check the determinant of one 2x2 and one 3x3 matrix; sign and index errors may appear only at other orders or entries.",
  ["core/mlpp_matrix.cpp", "core/lin_alg.cpp"],
  ["detb recursion", "cofactoro row/column skipping", "adjointo sign and transposition", "inverseo"])

p("C08", "Tensor storage keeps every slice, row and element where the caller put it",
  "Reading element (slice, row, column) of a tensor returns the value most recently stored there; adding, removing and swapping slices, reading and writing slices and rows along each of the three axes, reshaping and copying affect exactly the addressed elements. Copies are independent of their source. An out-of-range index or a wrongly shaped argument is rejected and changes nothing.",
  H, "for all extents along the three axes, all indices, all operation histories",
  "No baseline test exercises tensors with three different extents through slice edits.",
  ["core/mlpp_tensor3.h", "core/mlpp_tensor3.cpp"],
  ["z-major index arithmetic", "x/y/z slice get/set", "z_slice add/remove/swap"],
  [{"name": "_data/_size", "meaning": "slice-major buffer; width, height, depth"}])

p("C09", "Element-wise tensor arithmetic computes the named function in every form",
  "Every element-wise tensor operation (sum, difference, product, quotient, scaling, shift, power, root, absolute value, maximum) and flattening gives at each position exactly the named function of the operands' values there, in the in-place, returning and storing form. Operands other than the target are never modified and the target may be an operand. A missing operand or shape mismatch is rejected and changes nothing.",
  I, "for all extents, values and aliasing patterns",
  "No baseline test compares tensor arithmetic on general extents or aliased operands.",
  ["core/mlpp_tensor3.h", "core/mlpp_tensor3.cpp"],
  ["the in-place / returning / storing triple of each MLPPTensor3 operation"])

p("C10", "The linear-algebra facade returns the same result as the direct definition",
  "Each function of the linear-algebra facade on vectors, matrices and tensors (arithmetic, element-wise functions, products, norms, sums, distances, constructions, power, covariance, flattening, projection, diagonal and subset helpers) returns a newly made result equal to its mathematical definition. It never modifies an argument. Invalid or mismatched arguments produce the documented empty result.",
  I, "for all shapes and values of the arguments",
  "Tests call about a third of the facade on one fixture each.",
  ["core/lin_alg.h", "core/lin_alg.cpp"],
  ["one method per operation, forwarding to or repeating the container loops"])

p("C11", "Activation functions: scalar, vector and matrix forms agree with the formula",
  "For each activation the scalar form equals its published formula, and the vector and matrix forms equal that formula applied at each element, for every input. The argument is not modified and the result has its shape.",
  I, "for all real inputs (all branches of piecewise functions), all lengths and shapes",
  "The tests evaluate each activation at one scalar and one 3-vector; branch boundaries, matrices and other lengths are not covered.",
  ["core/activation.h", "core/activation.cpp"],
  ["*_normr, *_normv, *_normm functions"])

p("C12", "Activation derivatives: every form equals the derivative formula element-wise",
  "For each activation the scalar derivative equals the derivative formula of that activation, and the vector and matrix derivative forms equal it at each element, for every input. The argument is not modified and the result has its shape.",
  I, "for all real inputs (all branches), all lengths and shapes",
  "The tests evaluate each derivative at one scalar and one 3-vector.",
  ["core/activation.h", "core/activation.cpp"],
  ["*_derivr, *_derivv, *_derivm functions"])

p("C13", "Selecting an activation by its identifier runs exactly that function",
  "For every activation identifier, the function selected (or run directly) for scalars, vectors and matrices is the function of that name, and asking for the derivative gives the derivative while asking for the value gives the value. No identifier is routed to a different activation.",
  ["inputs", "configurations"], "for all activation identifiers, value/derivative requests and operand kinds",
  "Tests call each activation by name and never through the selector.",
  ["core/activation.h", "core/activation.cpp"],
  ["get_activation_function_ptr_*", "run_activation_*"])

p("C14", "Cost functions and their gradients equal their definitions and selection",
  "For each cost function the value equals its definition averaged or summed as documented over all elements, the gradient equals the element-wise derivative formula, for vectors and matrices alike, and selecting a cost by identifier runs exactly that cost and gradient. Arguments are not modified, and mismatched arguments are rejected.",
  ["inputs", "configurations"], "for all lengths/shapes, values, identifiers",
  "Tests evaluate each cost on one fixture; branches such as Huber's threshold or hinge's margin, and selection by identifier, are not covered.",
  ["core/cost.h", "core/cost.cpp"],
  ["per-cost value and derivative functions", "run_cost_* and get_cost_function_ptr_* dispatch"])

p("C15", "Regularisation terms and updates equal their definitions",
  "The regularisation penalty, its gradient term and the regularised weights for ridge, lasso, elastic-net and weight clipping equal their definitions for every weight vector or matrix, and with no regularisation the weights come back unchanged. Arguments are not modified.",
  ["inputs", "configurations"], "for all weights, coefficients, shapes and regularisation kinds",
  "Regularisation is only reached through whole training runs in the tests; zero, negative and boundary weights are not separated.",
  ["core/reg.h", "core/reg.cpp"],
  ["reg_term*, reg_deriv_term*, reg_weights*"])

p("C16", "Descriptive statistics equal their definitions on every data set",
  "Mean, median, range, midrange, mode, variance, standard deviation, covariance, correlation, regression coefficients, and the weighted, geometric, harmonic, power, Lehmer and other means equal their definitions for every data set on which they are defined. The data set is not modified.",
  I, "for all lengths (odd and even, including 1) and values (including unsorted and repeated)",
  "Each statistic is tested on one fixed even-length vector.",
  ["core/stat.h", "core/stat.cpp"],
  ["accumulation formulas", "sorting for median", "counting for mode"])

p("C17", "Convolution and pooling match their sliding-window definition",
  "Two- and three-dimensional convolution and pooling produce an output of the documented extent whose every entry is the filter sum, maximum, minimum or average over exactly the corresponding input window; global pooling covers the whole input, and the difference operators and filters equal their definitions. The input is not modified.",
  I, "for all input and filter extents, strides and paddings that conform",
  "Tests run one filter with stride one on a square input.",
  ["core/convolutions.h", "core/convolutions.cpp"],
  ["window loops of convolve_*/pool_*", "filter constructors"])

p("C18", "Data preparation keeps rows, labels and scales consistent",
  "Feature scaling, mean centring and normalisation apply their formula within each row; one-hot encoding sets exactly the label's column; mini-batch creation hands out each sample to the batch that owns its position, in order, with its own label; performance measures count exactly the matching predictions. Inputs are not modified.",
  I, "for all shapes, class counts, batch counts and values",
  "Tests use one small square matrix and never compare batch contents with the source rows.",
  ["core/data.cpp", "core/utilities.cpp"],
  ["feature_scaling/mean_centering/mean_normalization/one_hot_rep", "create_mini_batches*", "performance_*"])

p("C19", "Neighbour, cluster and outlier decisions follow the distance rule",
  "The nearest-neighbour classifier ranks stored samples by Euclidean distance to the query, k-means assigns each sample to its nearest centroid and moves each centroid to the mean of its samples, and the outlier finder flags exactly the values whose z-score magnitude exceeds the threshold.",
  I, "for all data sets, queries, centroids and thresholds",
  "Tests only compare one end-to-end outcome.",
  ["modules/knn/knn.cpp", "modules/kmeans/kmeans.cpp", "modules/outlier_finder/outlier_finder.cpp"],
  ["nearest_neighbors", "evaluate/compute_mu/cost", "model_test / model_set_test"])

p("C20", "Model prediction equals the model's formula, one sample or many",
  "For every trained state, predicting one sample returns the model's forward formula (link function of the affine combination of weights, bias and features, or the composed layers), and predicting a set of samples returns for each row the same value as predicting that row alone. Prediction changes neither parameters nor inputs.",
  ["inputs", "histories"], "for all parameter values, feature counts, sample counts and inputs",
  "Tests train on one data set and print predictions, or compare one; single-sample and set paths are separate code.",
  ["modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "modules/exp_reg/exp_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp", "modules/softmax_reg/softmax_reg.cpp", "modules/svc/svc.cpp", "modules/uni_lin_reg/uni_lin_reg.cpp", "modules/mlp/mlp.cpp", "modules/softmax_net/softmax_net.cpp"],
  ["evaluatev/evaluatem/propagate*", "model_test/model_set_test"])

p("C21", "Containers never touch memory outside their storage",
  "No vector, matrix or tensor operation reads or writes outside the storage of the containers involved, uses storage after it was released, or leaves a container whose recorded extent differs from its storage, for any arguments and any aliasing. This holds after every operation, including rejected ones.",
  H, "for all extents, indices, aliasing patterns and operation histories",
  "An out-of-bounds access of a few elements does not change any tested value, and the test build has no sanitizer.",
  ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/mlpp_vector.h", "core/mlpp_matrix.h", "core/mlpp_tensor3.h"],
  ["every pointer access, resize and realloc"])

p("C22", "Numerical differentiation and approximation equal their difference formulas",
  "The first, second and third order difference quotients, gradient, Hessian and third-order tensor of a user function equal their finite-difference formula, evaluated at the given point along the given axes, and Taylor approximations combine them with the right powers and factorials. The point passed in is not modified.",
  I, "for all user functions, points, dimensions and axes",
  "Tests evaluate one polynomial at one point with a tolerance.",
  ["core/numerical_analysis.h", "core/numerical_analysis.cpp"],
  ["num_diff*", "*_approximation*", "jacobian/hessian/third_order_tensor"])

p("C23", "Each training step applies the documented gradient update",
  "One epoch of gradient descent of each regression model replaces the parameters by parameters minus learning rate times the cost gradient at the current predictions, then applies regularisation, for every data set, parameter state and learning rate.",
  ["inputs", "histories"], "for all data sets, parameters, learning rates and epochs",
  "Tests only check that training ends.",
  ["modules/log_reg/log_reg.cpp", "modules/lin_reg/lin_reg.cpp"],
  ["gradient_descent/sgd/mbgd loops"])

p("C24", "Eigen, singular-value and principal-component results reconstruct the input",
  "For every symmetric matrix the eigenvectors and eigenvalues returned satisfy the eigen-equation, the singular value decomposition reconstructs the input, and the principal components are those of the covariance matrix.",
  I, "for all matrices",
  "Tests compare one decomposition.",
  ["core/mlpp_matrix.cpp", "core/lin_alg.cpp", "modules/pca/pca.cpp"],
  ["Jacobi iteration of eigen*, svd*"])

p("C25", "Random initialisation fills every parameter from the documented distribution",
  "Weight and bias initialisation gives every element of the vector or matrix (and no other memory) one fresh draw of the random stream, in storage order, from the distribution of the requested kind with the parameters computed from the input and output counts (uniform, Xavier, He, LeCun); the shape is kept and an unknown kind leaves the values untouched. Biases are uniform on [0, 1].",
  I, "for all shapes, kinds and random streams",
  "Tests do not look at initial values; which elements are drawn, with which parameters, needs every shape and kind.",
  ["core/utilities.cpp"],
  ["weight_initializationv/m", "bias_initializationr/v"])

p("C26", "Text features and stored data sets reproduce their source",
  "Loading a data set returns each record of the file, and tokenising, bag-of-words, tf-idf and stemming follow their definitions.",
  I, "for all files and texts",
  "Tests use fixed sentences and files.",
  ["core/data.cpp"],
  ["load_*, set_data_*, segment/tokenize/bag_of_words/tfidf"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
