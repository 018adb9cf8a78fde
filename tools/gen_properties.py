#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
S = "smart_dnn/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "A shape is always consistent, and a failed shape operation changes nothing",
 "After every sequence of shape constructions, copies, moves, assignments, reshapes, concatenations and broadcasts, a live shape's rank, size, row-major strides, equality, iteration and printed form all agree with its dimension list. Non-positive dimensions, empty dimension lists, element counts that do not fit the size type and reshapes to another element count are rejected with an exception. A rejected operation leaves the shapes (and tensors) involved exactly as they were.",
 ["histories", "inputs"],
 "all sequences up to a bounded length of shape operations over a small pool of shapes, with dimension lists of rank 0 to 5 including 0, negative and huge dimensions",
 "The tests construct a few shapes and reshape one; they never read strides after reshape/assignment, never combine operations, and never reach the overflow path.",
 ["Shape/Shape.hpp", "Shape/ShapeOperations.hpp", "Tensor/TensorData.hpp"],
 [("Shape constructors/assignment/reshape", "Shape/Shape.hpp"), ("broadcastShapes/areBroadcastable/concat", "Shape/ShapeOperations.hpp")],
 [("dimensions,size,stride", "cached triple that must agree", "Shape/Shape.hpp")],
 ["Shape::size/rank/getStride/toString/operator==", "Tensor::getShape after reshape"])
prop("C02", "Element addressing is an exact row-major bijection",
 "For every tensor shape, multi-dimensional access maps the valid index tuples one-to-one onto the elements in row-major order, reading and writing exactly the addressed element and no other, before and after any reshape. Index tuples of the wrong length or with any component negative or not below its dimension are rejected with an exception and touch nothing.",
 ["inputs", "histories"],
 "every shape with rank up to 5 and bounded dimensions, every index tuple in and around the valid box, after every reshape to an equal-size shape",
 "Tests look at a few entries of fixed 2-D/3-D tensors.",
 ["Shape/ShapeOperations.hpp", "Tensor/TensorDataCPU.impl.hpp", "Tensor/Tensor.impl.hpp"],
 [("computeFlatIndex", "Shape/ShapeOperations.hpp"), ("TensorData::at/operator[]", "Tensor/TensorDataCPU.impl.hpp")],
 None, ["Tensor::at", "Tensor::operator[]", "Tensor::reshape"])
prop("C03", "Broadcasting follows the right-aligned rule for every pair of shapes",
 "Two shapes are reported compatible, and combined, exactly when after right-alignment each pair of extents is equal or contains a 1, and the combined shape takes the larger extent; the relation is symmetric. A broadcast view of a tensor over a target shape exists exactly when the tensor can be expanded to that target, and its element at any index, and its iteration order, equal the source element obtained by clamping the size-1 extents. Broadcasting never modifies its source.",
 ["inputs"],
 "all pairs of shapes up to rank 4 with bounded extents, every index of every view, in both element types",
 "Tests use a handful of pairs; the rule is over all pairs of shapes and all indices.",
 ["Shape/ShapeOperations.hpp", "Tensor/BroadcastView.hpp"],
 [("broadcastShapes/areBroadcastable", "Shape/ShapeOperations.hpp"), ("calculateBroadcastFactors/mapIndex/Iterator", "Tensor/BroadcastView.hpp")],
 None, ["BroadcastView::operator[]/begin/end/shape"])
prop("C04", "Elementwise arithmetic equals the pointwise definition for all shape pairs",
 "For all tensors a, b with compatible shapes, a+b, a-b, a*b, a/b, their in-place forms, scalar forms on either side, negation, square root, reciprocal and mapped functions produce exactly the broadcast shape and at every index the pointwise result, without changing any operand other than the in-place target. In-place forms accept exactly those right operands that do not enlarge the target, including the target itself. Incompatible shapes and division by a zero scalar are rejected and leave the target unchanged.",
 ["inputs", "histories"],
 "all pairs of shapes up to rank 4 with bounded extents plus larger size sweeps, all operators and operand aliasings, float and double, value patterns with zeros, negatives, fractions and large magnitudes",
 "Tests check each operator on one or two shapes; several operators (in-place scalar subtraction and multiplication) are never even instantiated.",
 ["Tensor/TensorOperations.hpp", "Tensor/Tensor.impl.hpp", "Tensor/AdvancedTensorOperations.hpp"],
 [("add/subtract/multiply/divide and InPlace/Scalar variants", "Tensor/TensorOperations.hpp"), ("applyPair/reciprocal", "Tensor/AdvancedTensorOperations.hpp")],
 None, ["Tensor operators", "TensorOperations static functions"])
prop("C05", "Tensors are values: no operation on one tensor changes another",
 "After any sequence of constructions (from fills, pointers, lists, vectors), copies, moves, assignments, reshapes, element writes and in-place operations on a set of tensors, every tensor holds exactly what the sequence gave it; tensors never share storage, self-assignment is harmless, and a moved-from tensor is a valid tensor that can be read, assigned and destroyed. Construction from too many values is rejected rather than written past the end.",
 ["histories"],
 "all operation sequences up to a bounded length over a pool of tensors, with every pair of source and target (including the same)",
 "Tests copy once and compare; aliasing and moved-from states need sequences of operations.",
 ["Tensor/TensorDataCPU.impl.hpp", "Tensor/Tensor.impl.hpp", "Tensor/TensorData.hpp"],
 [("copy/move constructors and assignments", "Tensor/TensorDataCPU.impl.hpp"), ("moved-from reset", "Tensor/Tensor.impl.hpp")],
 [("owned buffer", "storage owned by exactly one tensor", "Tensor/TensorData.hpp")], ["Tensor copy/move/assign/operator==/toDataString"])
prop("C06", "Slices and slice views address exactly the selected elements",
 "A slice view with per-dimension [start,end) ranges (negative bounds counted from the end, bounds clamped to the dimension) and positive steps exposes exactly the elements start, start+step, ... below end in row-major order, its shape counts them, and writing through it changes exactly the addressed element of the underlying tensor. Taking slice(dim, index) of a tensor yields an independent tensor with that dimension removed holding exactly the selected elements. Wrong numbers of ranges, non-positive steps, empty ranges and out-of-range dimensions or indices are rejected.",
 ["inputs", "histories"],
 "all shapes up to rank 4 with bounded extents, all start/end pairs around the valid range including negatives, all steps up to the extent plus one, every element read and written; all slice dimensions and indices",
 "Slicing is not tested at all.",
 ["Tensor/SliceView.hpp", "Tensor/Tensor.impl.hpp"],
 [("SliceView constructor/mapIndex/Iterator", "Tensor/SliceView.hpp"), ("Tensor::slice", "Tensor/Tensor.impl.hpp")],
 None, ["SliceView::operator[]/set/begin/end/shape", "Tensor::slice"])
prop("C07", "Reductions equal the mathematical sum, mean and variance over any axes",
 "Summing over everything, one axis or any set of axes, averaging over any set of axes and taking the (population) variance over any set of axes equals the definition for every tensor; summed axes are removed by sum (a full reduction has shape (1)), kept with extent 1 by mean over a proper subset of axes, and variance takes the shape of the mean it is given. Axes out of range are rejected, the order in which axes are listed is irrelevant, and the input is never modified.",
 ["inputs"],
 "all shapes up to rank 5 with bounded extents and larger size sweeps, all non-empty sets of distinct axes in every order, float and double",
 "Tests sum one or two fixed tensors over one axis; no test reduces over all axes or over unsorted axes.",
 ["Tensor/AdvancedTensorOperations.hpp", "Tensor/TensorOperations.hpp"],
 [("sum/mean/variance", "Tensor/AdvancedTensorOperations.hpp"), ("sum(axis)", "Tensor/TensorOperations.hpp")],
 None, ["AdvancedTensorOperations::sum/mean/variance"])
prop("C08", "Matrix products and transpose equal their definitions for every shape",
 "For every admissible combination of operand ranks (vector-vector, vector-matrix, matrix-vector, matrix-matrix, 2-D with 3-D on either side, and equal-rank batched products) the product has the defined shape and every entry is the defined sum of products; transposing any two dimensions moves every element to the swapped index and doing it twice restores the tensor. Mismatched inner extents, unsupported rank combinations and out-of-range dimensions are rejected, and operands are never modified.",
 ["inputs"],
 "all operand shape pairs with extents up to a small bound and rank up to 4, plus size sweeps past block sizes; all dimension pairs for transpose up to rank 5",
 "Tests multiply a few fixed small matrices.",
 ["Tensor/AdvancedTensorOperations.hpp"],
 [("matmul dispatch, dotProduct, matrixVectorMul, matrixMatrixMul, batchedMatmul, matmul2D3D, matmul3D2D", "Tensor/AdvancedTensorOperations.hpp"), ("transpose", "Tensor/AdvancedTensorOperations.hpp")],
 None, ["AdvancedTensorOperations::matmul/transpose"])
prop("C09", "Tensor factories and seeded randomness are exact, bounded and reproducible",
 "ones, zeros, fill and identity produce exactly the documented values for every shape; random tensors and random draws always lie inside the requested range. After setting a seed, the sequence of all random draws and random tensors is a function of the seed and of the sequence of calls only, whatever happened before the seed was set. Over all seeds, uniform draws are uniform over their range, Xavier and He initial values are normal with mean 0 and variance 1/n and 2/n, range-limited He draws and random tensors (n being their number of elements) are such values clipped to the range, and all draws and elements are independent of each other.",
 ["inputs", "histories"],
 "all shapes in bound, all sequences of random operations up to a bounded length, before and after reseeding, over a set of seeds; distributions and independence over 2000 seeds",
 "Tests never fix a seed and compare two runs, and check single shapes.",
 ["Tensor/TensorFactory.hpp", "RandomEngine.hpp", "Tensor/TensorOperations.hpp"],
 [("setSeed/getRand*", "RandomEngine.hpp"), ("createRandom/createFill/createIdentity", "Tensor/TensorOperations.hpp")],
 [("engine", "process-wide generator", "RandomEngine.hpp")], ["Tensor::rand/randn/ones/zeros/identity", "RandomEngine::getRand*"])
prop("C10", "Activations compute their mathematical function over the whole float range",
 "ReLU, LeakyReLU, Sigmoid, Tanh, Swish and Mish return, for every finite input, the value of the named function to within rounding, never NaN; the result has the input's shape and the input is unchanged. Softmax over the features of each sample (all dimensions but the first, for inputs of rank at least 2) is non-negative, sums to one in every sample, equals the definition and is finite for inputs of any finite magnitude.",
 ["inputs"],
 "every float bit pattern with the low mantissa bits cleared (all 2^32 patterns in the thorough run), double samples at every exponent, all shapes up to rank 4; for softmax all rows over an alphabet including extreme values and ties",
 "Tests evaluate a few values between -2 and 2; overflow at large magnitude is not reached.",
 ["Activations/ReLU.hpp", "Activations/LeakyReLU.hpp", "Activations/Sigmoid.hpp", "Activations/Tanh.hpp", "Activations/Swish.hpp", "Activations/Mish.hpp", "Activations/Softmax.hpp"],
 [("forward", "Activation.hpp"), ("softmax row maximum subtraction", "Activations/Softmax.hpp")],
 None, ["Activation::forward"])
prop("C11", "Activation gradients equal the derivative of the activation",
 "For every activation, input and upstream gradient of the same shape, the backward pass returns the upstream gradient multiplied by the derivative of that activation's own forward function at every element (for softmax, the full Jacobian-vector product per sample); it is finite for every finite input. Upstream gradients of another shape are rejected, and no operand is modified.",
 ["inputs"],
 "the same enumerated input range as the forward property times a gradient alphabet; all small shapes; every mismatched pair of shapes",
 "Tests compare a handful of values per activation and never use a mismatched gradient.",
 ["Activations/ReLU.hpp", "Activations/LeakyReLU.hpp", "Activations/Sigmoid.hpp", "Activations/Tanh.hpp", "Activations/Swish.hpp", "Activations/Mish.hpp", "Activations/Softmax.hpp"],
 [("backward", "Activation.hpp")], None, ["Activation::backward"])
prop("C12", "Losses equal their definition and their gradient is the derivative",
 "Mean squared error and categorical cross-entropy return the defined (batch-averaged, non-negative, finite) value for every prediction and target of equal shape, and the gradient they return is the derivative of that value with respect to every prediction entry, for every target (not only one-hot ones). Inputs of different or unsupported shapes are rejected, and operands are never modified.",
 ["inputs"],
 "all batch sizes and class counts in bound, all prediction/target combinations over an alphabet that includes 0, 1, tiny values and general soft targets",
 "Losses are not tested directly.",
 ["Loss/MSELoss.hpp", "Loss/CategoricalCrossEntropyLoss.hpp"],
 [("compute/gradient", "Loss.hpp")], None, ["Loss::compute/gradient"])
prop("C13", "Fully connected layers compute the affine map and its exact gradients",
 "For every batch (or single 1-D sample) of the right width, a fully connected layer outputs x*W plus bias per row, and its backward pass hands back the gradient with respect to the input, in the input's shape, and passes to the optimizer exactly the gradients of the weights and biases summed over the batch. Inputs of the wrong width are rejected.",
 ["inputs", "histories"],
 "all input widths, output widths and batch sizes in bound, weights, biases, inputs and upstream gradients from position-coded patterns and unit impulses; repeated forward/backward sequences",
 "Tests use one or two fixed layer sizes.",
 ["Layers/FullyConnectedLayer.hpp"],
 [("forward/backward/updateWeights", "Layers/FullyConnectedLayer.hpp")],
 [("stored input and gradients", "state carried from forward to backward to update", "Layers/FullyConnectedLayer.hpp")], ["FullyConnectedLayer::forward/backward/updateWeights"])
prop("C14", "Conv2D computes cross-correlation over all channels with exact gradients",
 "For every batch size, channel counts, kernel size, stride, padding and dilation, the layer's output has the standard output extent and every entry equals the bias plus the sum over all input channels and kernel offsets; backward returns the exact gradients of the input (in the input's shape) and supplies the exact gradients of all weights and biases to the optimizer, summed over the whole batch. Kernels that do not fit the padded input are rejected.",
 ["inputs", "configurations"],
 "all combinations in bound of batch, input and output channels, rectangular kernels, strides, paddings, dilations and input extents; impulse and position-coded data",
 "Tests fix a single geometry with one channel and one image; stride, padding, dilation, further channels and further images are never exercised.",
 ["Layers/Conv2DLayer.hpp"],
 [("forward/backward/updateWeights", "Layers/Conv2DLayer.hpp")],
 [("stored input and gradients", "state carried from forward to backward to update", "Layers/Conv2DLayer.hpp")], ["Conv2DLayer::forward/backward/updateWeights"])
prop("C15", "Max pooling selects window maxima and routes gradients to them",
 "For every batch, channel count, pool size, stride and padding (padding positions never win), the output has the standard pooled extent and every entry is the maximum of its window; backward returns, in the input's shape, a tensor in which each upstream value has been added to exactly one position of its window where that maximum is attained, so the gradient total is conserved. Non-4-D inputs and pools that do not fit are rejected.",
 ["inputs", "configurations"],
 "all geometries in bound, and for small windows all inputs over an alphabet with ties, negatives and equal values; every upstream impulse",
 "Tests pool one 4x4 image without padding.",
 ["Regularisation/MaxPooling2DLayer.hpp"],
 [("forward/backward", "Regularisation/MaxPooling2DLayer.hpp")],
 [("arg-max indices", "positions remembered by forward", "Regularisation/MaxPooling2DLayer.hpp")], ["MaxPooling2DLayer::forward/backward"])
prop("C16", "Batch normalization uses batch statistics in training, running ones in eval",
 "In training mode the layer normalises every feature (channel, for 4-D input) by the mean and population variance of that batch and then scales and shifts; backward returns the exact gradients of the latest forward pass for input, scale and shift (in evaluation mode with the running statistics as constants). Running mean and variance after any sequence of training batches are the momentum-weighted averages, evaluation uses them and changes neither them nor the parameters, and training and evaluation calls on 2-D and 4-D inputs can be interleaved in any order.",
 ["histories", "inputs"],
 "all sequences in bound of train-forward, backward, eval-forward and update calls over 2-D and 4-D batches, feature counts and batch sizes in bound",
 "Tests make one or two forward calls and look at shapes or mean and variance of the output.",
 ["Regularisation/BatchNormalizationLayer.hpp"],
 [("computeBatchStatistics/updateRunningStatistics/normalize/backward", "Regularisation/BatchNormalizationLayer.hpp")],
 [("running mean and variance", "statistics used in evaluation", "Regularisation/BatchNormalizationLayer.hpp")], ["BatchNormalizationLayer::forward/backward/updateWeights/setTrainingMode"])
prop("C17", "Dropout keeps each unit with probability 1-p and rescales, in both passes",
 "In training mode every output element is either 0 or the input divided by (1-p), chosen independently of position, tensor size and rank so that every pattern is reachable and the kept fraction is 1-p; backward multiplies the upstream gradient by exactly the same 0 or 1/(1-p) factors. In evaluation mode both passes are the identity.",
 ["inputs", "histories"],
 "all mode/forward/backward sequences in bound, a range of rates, sizes from 1 to several thousand and ranks 1 to 4, over an enumerated range of seeds",
 "Tests check only one shape and that some outputs are zero.",
 ["Regularisation/DropoutLayer.hpp", "RandomEngine.hpp"],
 [("mask generation and reuse", "Regularisation/DropoutLayer.hpp")],
 [("mask", "factors remembered from forward to backward", "Regularisation/DropoutLayer.hpp")], ["DropoutLayer::forward/backward/setTrainingMode"])
prop("C18", "Layers follow the forward/backward protocol, whatever came before",
 "For every layer kind and every sequence of forward, backward, mode and update calls with inputs of changing batch sizes and ranks, a forward/backward pair gives exactly what a fresh layer with the same parameters would give, and the input gradient has the shape of the latest forward input. Calling backward before any forward is rejected with an exception, never answered from missing or stale data. Flatten preserves element order and restores the original shape in backward.",
 ["histories"],
 "all call sequences in bound for every layer kind over an alphabet of inputs with different batch sizes and ranks",
 "Each test uses a fresh layer once, in the documented order.",
 ["Layer.hpp", "Layers/FlattenLayer.hpp", "Layers/ActivationLayer.hpp", "Layers/FullyConnectedLayer.hpp", "Layers/Conv2DLayer.hpp", "Regularisation/BatchNormalizationLayer.hpp", "Regularisation/DropoutLayer.hpp", "Regularisation/MaxPooling2DLayer.hpp"],
 [("forward/backward", "Layer.hpp")],
 [("saved input", "per-layer optional carried between passes", "Layers/ActivationLayer.hpp")], ["Layer::forward/backward/setTrainingMode/updateWeights"])
prop("C19", "SGD follows its update rule for every option and gradient history",
 "For every learning rate, momentum, dampening, weight decay, Nesterov flag and sequence of gradients and positive per-call learning-rate overrides, the weights after each SGD step equal the recurrence g' = g + decay*w, v = momentum*v + (1-dampening)*g', w -= rate * (v, or g' + momentum*v with Nesterov, or g' without momentum) computed from the start. Gradients are never modified, and an override affects only its own call.",
 ["histories", "configurations"],
 "all gradient sequences up to a bounded depth over a signed alphabet including zero, times all option combinations and overrides, plus long runs",
 "Tests do one or two steps from fixed values.",
 ["Optimizers/SGDOptimizer.hpp"], [("optimize", "Optimizers/SGDOptimizer.hpp")],
 [("velocity", "per-tensor momentum buffers", "Optimizers/SGDOptimizer.hpp")], ["SGDOptimizer::optimize"])
prop("C20", "RMSProp follows its update rule for every option and gradient history",
 "For every learning rate, smoothing constant, epsilon, momentum, weight decay, centered flag and sequence of gradients and positive per-call learning-rate overrides, the weights after each RMSProp step equal the recurrence s = a*s + (1-a)*g^2 (minus the squared running mean of g when centered), update = g / sqrt(s + epsilon), accumulated in a velocity when momentum is set, computed from the start. Weights stay finite as long as the squares of the (decayed) gradients are representable, gradients are never modified, and an override affects only its own call.",
 ["histories", "configurations"],
 "all gradient sequences up to a bounded depth over a signed alphabet including zero and very large and tiny values, times all option combinations and overrides, plus long runs",
 "Tests do a few steps with default options.",
 ["Optimizers/RMSPropOptimizer.hpp"], [("optimize", "Optimizers/RMSPropOptimizer.hpp")],
 [("mean square, mean gradient, velocity", "per-tensor buffers", "Optimizers/RMSPropOptimizer.hpp")], ["RMSPropOptimizer::optimize"])
prop("C21", "Adam follows its update rule for every option and gradient history",
 "For every learning rate, betas, epsilon, L1/L2 strength, rate decay, batch size and sequence of gradients and overrides, the weights after each Adam step equal the published recurrence (moments of the gradient divided by the batch size, one bias correction of each moment, decoupled L1/L2 terms scaled by the current rate), with the step number being the number of updates that very tensor has received, however many other tensors the optimizer serves. Results do not depend on the size of the tensor, gradients are never modified, and an override affects only its own call.",
 ["histories", "configurations"],
 "all gradient sequences up to a bounded depth over a signed alphabet including zero, times all option combinations and overrides, several tensors in one and in separate calls, sizes below and above internal thresholds, plus long runs",
 "Adam is not tested.",
 ["Optimizers/AdamOptimizer.hpp"], [("optimize/updateTensor", "Optimizers/AdamOptimizer.hpp")],
 [("moments and step counters", "per-tensor buffers", "Optimizers/AdamOptimizer.hpp")], ["AdamOptimizer::optimize"])
prop("C22", "Optimizer state is isolated per parameter and safe for any tensor sizes",
 "Serving several parameter tensors with one optimizer, in one call or in any interleaving of calls, updates each exactly as an optimizer of its own would. Mismatched numbers of tensors or gradient shapes are rejected without corrupting anything, and a tensor that changes size (or a new tensor placed where an old one lived) never causes access outside its storage.",
 ["histories"],
 "all interleavings in bound of update calls for up to three tensors with different sizes, including reallocation and resizing in place, for every optimizer",
 "Tests use one tensor per optimizer.",
 ["Optimizers/SGDOptimizer.hpp", "Optimizers/RMSPropOptimizer.hpp", "Optimizers/AdamOptimizer.hpp"],
 [("per-tensor state maps", "Optimizers/SGDOptimizer.hpp")],
 [("state maps", "keyed per parameter tensor", "Optimizers/AdamOptimizer.hpp")], ["Optimizer::optimize"])
prop("C23", "The training loop is exactly forward, loss gradient, backward, update",
 "Training a model for any number of epochs over any list of samples visits every sample once per epoch in order and, for each, runs the layers forward in order in their current mode, takes the loss gradient, runs the layers backward in reverse order and updates every layer once with the compiled optimizer; the resulting parameters equal those of the same steps done by hand. Input and target lists of different length, and an uncompiled model, are rejected.",
 ["histories", "programs", "configurations"],
 "all stacks of recording layers up to a bounded depth, all numbers of samples and epochs in bound, all interleavings of train, predict and mode calls; real stacks of every layer kind with every optimizer",
 "No test trains a model.",
 ["SmartDNN/SmartDNN.impl.hpp", "SmartDNN.hpp"], [("train/forward/backward/updateWeights", "SmartDNN/SmartDNN.impl.hpp")],
 [("layers, loss, optimizer", "owned components", "SmartDNN.hpp")], ["SmartDNN::train/predict"])
prop("C24", "Inference is pure and batch prediction equals single predictions",
 "Predicting in evaluation mode any number of times, in any order and interleaved with anything that does not train, returns for each input the same output, changes no parameter, and equals the composition of the layers; predicting a list returns one output per input in order, equal to predicting each alone. Mode switches reach every layer and survive until the next switch.",
 ["histories", "programs"],
 "all sequences in bound of predict, list-predict and mode calls over all small stacks of layer kinds, including stateful ones",
 "No test predicts with a model.",
 ["SmartDNN/SmartDNN.impl.hpp", "Layer.hpp"], [("predict/evalMode/trainingMode", "SmartDNN/SmartDNN.impl.hpp")],
 None, ["SmartDNN::predict/evalMode/trainingMode"])
prop("C25", "Backpropagation through any network equals the derivative of its loss",
 "For every network composed of the library's layers whose shapes fit together, the gradients that backward supplies for all parameters of all layers and for the input equal the derivative of the loss of the forward pass, to numerical accuracy.",
 ["programs", "inputs"],
 "all layer stacks in bound (fully connected, convolution, pooling, normalization, flatten, every activation, both losses) over fixed data, checked entry by entry against a reference and numerical differentiation",
 "Tests only check single layers' gradients for a few fixed values; composition is not tested.",
 ["SmartDNN/SmartDNN.impl.hpp", "Layer.hpp", "Loss.hpp"], [("forward/backward of every layer", "Layer.hpp")],
 None, ["Layer::forward/backward", "Loss::compute/gradient"])
prop("C26", "The MNIST loader returns exactly the stored data or fails loudly",
 "For every well-formed pair of image and label files and every requested sample count and batch size, the loader returns the images (scaled to [0,1]) and one-hot labels in file order, partitioned into consecutive batches of which only the last may be smaller. Missing, truncated, mismatched or mislabelled files, non-positive batch sizes, requests beyond the stored samples and negative requests (other than -1, which asks for all) are reported with an exception instead of invented data, a crash or a hang.",
 ["inputs", "fault_sequences"],
 "all small files (counts, image dimensions, pixel and label values), every sample count and batch size around the available count, and every truncation point and header corruption of a file pair",
 "The loader is not tested.",
 ["Datasets/MNistLoader.hpp"], [("loadData and header/pixel/label readers", "Datasets/MNistLoader.hpp")],
 None, ["MNISTLoader::loadData"])
prop("C27", "Synthetic data generators return consistent, complete batches",
 "For every sample count, batch size and seed, the generated batches together hold exactly the requested number of samples, all batches but the last are full, inputs and targets line up, every input lies in [0, 100], and every target is 2x+3 plus Gaussian noise of the requested standard deviation (exactly 2x+3 for zero noise).",
 ["inputs"],
 "all sample counts and batch sizes in bound times noise levels, over an enumerated set of entropy values handed to the generator",
 "The generators are not tested.",
 ["Datasets/SampleGenerator.hpp"], [("generators", "Datasets/SampleGenerator.hpp")],
 None, ["generateLinearDataset/generateBatchedLinearDataset"])
prop("C28", "Results are independent of the number of threads and their interleaving",
 "Built with multithreading enabled, every tensor operation, layer pass and optimizer step that runs a parallel loop gives the same result as sequential execution for every number of threads and every interleaving of them: no two threads touch the same location conflictingly.",
 ["schedules"],
 "all interleavings of 1 to 4 threads of every parallel region reached from the public operations (decided by showing that all accesses of different threads are independent, otherwise by exploring schedules up to a preemption bound)",
 "The tests are built without multithreading; even with it, a test run sees one schedule.",
 ["Tensor/AdvancedTensorOperations.hpp", "Tensor/TensorOperations.hpp", "Optimizers/AdamOptimizer.hpp", "Layers/Conv2DLayer.hpp"],
 [("parallel loops with private and reduction variables", "Tensor/AdvancedTensorOperations.hpp")],
 None, ["matmul/transpose/applyPair/rand, Adam steps, layer passes"])
prop("C29", "Distinct objects can be used concurrently and shared ones read concurrently",
 "Operations on distinct tensors, layers, losses and optimizers executed by different threads, and read-only operations on the same tensor, never access a common mutable location, so every interleaving gives the sequential result; the random generator is the only shared state.",
 ["schedules"],
 "all pairs of operations from an alphabet covering every public operation, on distinct objects or read-only on one shared object, over all their interleavings (decided by independence of their access sets)",
 "Tests are single-threaded.",
 ["Tensor/TensorOperations.hpp", "Tensor/AdvancedTensorOperations.hpp", "Layer.hpp", "Optimizer.hpp", "Loss.hpp"],
 [("absence of hidden static or cached state", "Tensor/Tensor.hpp")], None, ["all public operations"])
prop("C30", "Models are independent and training is reproducible from the seed",
 "Building and training a model after setting a seed is a function of the seed, the architecture, the data and the options only: repeating it gives bit-identical parameters and predictions whatever ran before in the process. Training several models in any interleaving gives each the result it has when trained alone.",
 ["histories", "programs"],
 "all interleavings in bound of training steps of two models, for every optimizer and several architectures, and repetitions after arbitrary preceding activity",
 "No test trains a model, let alone two.",
 ["SmartDNN/SmartDNN.impl.hpp", "RandomEngine.hpp", "Optimizers/AdamOptimizer.hpp"],
 [("seeded engine; per-model state only", "RandomEngine.hpp")], None, ["SmartDNN::train/predict", "RandomEngine::setSeed"])
prop("C31", "The logger emits every message, labelled and in order, exactly when enabled",
 "For every sequence of log calls in a build with logging enabled, each message is written once, in call order, on its own line with its level label and unaltered text; in a build without logging nothing is written.",
 ["histories", "configurations"],
 "all call sequences in bound over all levels, in every build mode",
 "The logger is not tested.",
 ["Debugging/Logger.hpp"], [("Logger::log and LOG_* macros", "Debugging/Logger.hpp")], None, ["Logger::log"])
prop("C32", "Saving and loading a model round-trips its parameters",
 "Loading a saved model into a model of the same architecture reproduces every parameter and prediction exactly.",
 ["inputs", "crash_points"], "all architectures and parameter values",
 "The functions are declared but not defined, so nothing can be tested.",
 ["SmartDNN.hpp"], [("saveModel/loadModel (declared only)", "SmartDNN.hpp")], None, ["SmartDNN::saveModel/loadModel"])
prop("C33", "Training learns what the model can represent",
 "Gradient descent makes the progress theory guarantees. A model of one fully connected layer with mean squared error, trained with plain SGD (no momentum, constant rate below the stability limit of the data) on one batch, lowers its loss at every epoch at least at the rate the curvature of the data guarantees, down to the least-squares fit, reports exactly these losses, and ends up the same whether the epochs are run in one call or many; on several batches of an exact linear rule it never moves away from the rule. With momentum, Nesterov momentum, RMSProp or Adam it also ends at the rule. Networks with one hidden layer of 16 smooth units learn every Boolean function of up to three inputs (16 leaky rectified units every one of up to two), for mean squared error or softmax with cross-entropy, whatever the seed and the batch size, and small convolutional networks with normalization, pooling and dropout learn to tell horizontal from vertical bars; evaluated afterwards they answer every training input correctly.",
 ["inputs", "configurations", "histories"], "all well-posed small data sets over a value grid, all Boolean functions of up to 3 inputs, all bar pictures, over lists of rates, optimizers, networks, batch sizes and seeds",
 "A unit test trains one model on one data set and cannot tell slow or stuck learning from learning; a defect anywhere in the chain from loss gradient to update shows only over many steps.",
 ["SmartDNN/SmartDNN.impl.hpp", "Layers/FullyConnectedLayer.hpp", "Optimizers/SGDOptimizer.hpp", "Optimizers/AdamOptimizer.hpp", "Optimizers/RMSPropOptimizer.hpp", "Loss/MSELoss.hpp", "Loss/CategoricalCrossEntropyLoss.hpp"], [("train", "SmartDNN/SmartDNN.impl.hpp")], None, ["SmartDNN::predict after training", "the losses SmartDNN::train reports"])
prop("C34", "Memory is always given back, and running out of it harms nothing",
 "Every operation on shapes, tensors, layers, losses, optimizers and models gives back all the memory it takes beyond what its results hold, however often it is repeated. If memory runs out at any point inside an operation, the failure is reported by an exception: the process goes on, operands that are only read are unchanged, copy assignments and reshapes leave their target as it was, every object stays valid and usable, repeating the operation afterwards gives the result it would have given, and nothing stays allocated.",
 ["crash_points", "histories"],
 "every operation of the library on small operands, repeated, and with every single one of its allocations failing",
 "No test makes an allocation fail; an allocation can fail at thousands of points.",
 ["Shape/Shape.hpp", "Tensor/Tensor.hpp", "Tensor/Tensor.impl.hpp", "Tensor/TensorDataCPU.impl.hpp", "Layers/FullyConnectedLayer.hpp", "Layers/Conv2DLayer.hpp", "Optimizers/AdamOptimizer.hpp", "SmartDNN/SmartDNN.impl.hpp"],
 [("constructors and assignments own their storage", "Tensor/TensorDataCPU.impl.hpp"), ("dimensions and strides change together", "Shape/Shape.hpp")],
 None, ["exceptions and state after std::bad_alloc", "live allocations after each operation"])
prop("C35", "Printed tensors, shapes, views and images show exactly the contents",
 "The data text of a tensor lists every element once, in row-major order, each as the standard stream formatting prints it; the detailed text gives the exact shape and the first ten elements (all if there are no more) and says whether others follow. Shapes and views print their exact dimensions. The ASCII picture of an image has 28 lines of 28 characters, pixel by pixel (of the first image of a batch), with the level of the ten-step scale the pixel value falls in, values outside [0, 1) taking the nearest level; a tensor too small for it is rejected. Printing changes nothing and gives the same text each time.",
 ["inputs"],
 "all shapes in bound, every upper half of a float as element and pixel value in float and double tensors, all sizes around the element limit, every pixel position",
 "No test looks at any text beyond one shape; the limits, values and positions are many.",
 ["Tensor/TensorDataCPU.impl.hpp", "Tensor/Tensor.impl.hpp", "Shape/Shape.hpp", "Tensor/BroadcastView.hpp", "Tensor/SliceView.hpp", "Datasets/MNistLoader.hpp"],
 [("TensorData::toString/toDataString", "Tensor/TensorDataCPU.impl.hpp"), ("toAsciiArt", "Datasets/MNistLoader.hpp")], None, ["Tensor::toDetailedString/toDataString", "MNISTLoader::toAsciiArt", "Shape::toString"])
prop("C36", "Misuse is rejected, never answered, and leaves everything usable",
 "Layers and models reject with an exception inputs of a rank, width or channel count they cannot process, and upstream gradients that do not have the shape of the output of their latest forward pass (a gradient with the same elements in another layout may be taken as that output's; dropout in evaluation mode is the identity). Impossible options (sizes, strides and dilations that are not positive, negative paddings, dropout rates outside [0, 1), Adam batch sizes that are not positive) are rejected at construction or first use, and so is asking a model for a layer it does not have. No misuse ends the process, reads or writes outside an object's storage, or changes a parameter: every proper forward and backward pass, update and training step that follows gives what it would have given without it; training that meets a wrong sample fails there, with the samples before it learned.",
 ["inputs", "histories", "configurations"],
 "all wrong shapes in bound as input and as gradient of every layer kind in both modes, every position of misuse in a history, all combinations of small and extreme options",
 "The tests call layers with shapes that fit; wrong ones were answered, aborted the process or read out of bounds.",
 ["Layers/FullyConnectedLayer.hpp", "Layers/Conv2DLayer.hpp", "Layers/FlattenLayer.hpp", "Layers/ActivationLayer.hpp", "Regularisation/MaxPooling2DLayer.hpp", "Regularisation/BatchNormalizationLayer.hpp", "Regularisation/DropoutLayer.hpp", "SmartDNN/SmartDNN.impl.hpp"],
 [("input and gradient checks of every layer", "Layers/Conv2DLayer.hpp"), ("SmartDNN::train", "SmartDNN/SmartDNN.impl.hpp")], None, ["exceptions of forward, backward, constructors and train", "later results"])
prop("C37", "Layers, losses and optimizers are values: copies are equal and independent",
 "A copy of a layer, activation, loss or optimizer, constructed or assigned at any moment of the original's history, behaves from then on exactly as the original would have, and nothing done to one affects the other (parameters, stored inputs, running statistics, modes, optimizer state and step counts included). Self-assignment changes nothing; moving and swapping hand the whole behaviour over, and an object moved from can be assigned again. A model holds its own copy of every layer, loss and optimizer it is given by name: it learns exactly like a model that was handed a temporary, what happens to the caller's object afterwards has no effect on it, and its training has none on the caller's object or on other models given the same one.",
 ["histories", "configurations"],
 "all interleavings of forward, backward, update, mode switch, copy, move, swap, self-assignment and destruction on two objects up to the bound",
 "No test copies a layer or an optimizer; shared state shows only after particular interleavings.",
 ["Layers/FullyConnectedLayer.hpp", "Layers/Conv2DLayer.hpp", "Regularisation/BatchNormalizationLayer.hpp", "Regularisation/DropoutLayer.hpp", "Optimizers/SGDOptimizer.hpp", "Optimizers/RMSPropOptimizer.hpp", "Optimizers/AdamOptimizer.hpp", "SmartDNN.hpp"],
 [("members of layers and optimizers", "Optimizers/SGDOptimizer.hpp"), ("SmartDNN::addLayer and compile", "SmartDNN.hpp")], None, ["outputs, gradients, updated parameters of both objects"])
prop("C38", "A failing component fails the operation at once; the model stays usable",
 "Models work with any layer, loss, optimizer and activation that implements the interfaces. When one of them throws, whatever it throws and at whichever call of training, prediction, backward, updateWeights, a mode switch, addLayer or compile, that very exception reaches the caller: nothing further is asked of any component, no finished epoch is lost or invented in the report, no layer changes its mode, a layer that could not be added is not there. Every later operation runs exactly as it would have, a failed mode switch or compile once it is repeated; layers of the library whose optimizer failed go on with the parameters they have; and no component outlives the model.",
 ["crash_points", "histories", "configurations"],
 "every single call of a component in every operation failing with every kind of exception, for all small models",
 "No test has a component that fails; there are as many points of failure as calls.",
 ["SmartDNN/SmartDNN.impl.hpp", "SmartDNN.hpp", "Layers/ActivationLayer.hpp", "Layers/FullyConnectedLayer.hpp", "Layers/Conv2DLayer.hpp", "Regularisation/BatchNormalizationLayer.hpp"],
 [("train, predict, backward, updateWeights", "SmartDNN/SmartDNN.impl.hpp"), ("ActivationLayer", "Layers/ActivationLayer.hpp")], None, ["exceptions reaching the caller", "the sequence of calls made on components"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
