"""Section 2 of DESIGN.md: how each property is decided."""
P = {}
def p(i, where, what, oracle, why): P[i] = (where, what, oracle, why)
p("C01", "Shape/Shape.hpp, Shape/ShapeOperations.hpp, Tensor::reshape",
  "All dimension lists of rank 0..4 over {1,2,3,7,0,-1,46341,65536,2^31-1,-2^31} (and wrap-around products) are constructed; all ordered pairs of 116 shapes are copied, moved, swapped, assigned, reshaped into one another, concatenated and broadcast; all words of operations over a pool of shapes. After every step each live shape is checked in full: rank, size, strides, equality, iteration, printing.",
  "Reference dims/stride computation in 128-bit arithmetic; a rejected operation must leave every shape and tensor bit-identical.",
  "Unit tests use a few friendly shapes; overflow, assignment between same-rank shapes and stale strides need the product of shapes and histories.")
p("C02", "Tensor/Tensor.impl.hpp at(), operator[], Shape strides",
  "All shapes of rank 1..5 with extents 1..3 (<=120 elements) and 25 larger ones: every index tuple with every component in -2..d+1, wrong lengths, negative and INT extremes; before and after each reshape. Flat indices of all shapes of rank 1..4 over {1,2,3,46341,65536,2^31-1} at corners, thirds, middles; tensors of 2^31..2^33 elements (signed char, lazily mapped memory) are read and written at such positions.",
  "Row-major formula; a write must change exactly one element (whole tensor compared).",
  "Bijection and rejection are statements about all tuples; int overflow shows only above 2^31 elements.")
p("C03", "Tensor/BroadcastView.hpp, ShapeOperations broadcast",
  "All ordered pairs of 152 shapes (rank 1..5, extents 1..3) and of 20 larger ones: compatibility, combined shape, symmetry, every element of every legal view, its iteration; views of and over tensors of more than 2^31 elements at corners, thirds, middles.",
  "The right-aligned rule written directly; source unchanged.",
  "The rule is a relation on pairs of shapes of different rank: tests sample a handful.")
p("C04", "TensorOperations.hpp, Tensor operators, DeviceTypes CPU transforms",
  "All ordered pairs of 115 shapes (rank 1..4) x four value patterns x float/double: + - * /, in-place forms (with self-aliasing), scalar forms on both sides, negation, sqrt, reciprocal, apply; zero scalars, incompatible shapes.",
  "Pointwise definition over the reference broadcast, exact in the element type; operands compared afterwards.",
  "Fast paths chosen by shape relation (equal, scalar, broadcast, alias) multiply: a slip in one is reached only by that combination.")
p("C05", "Tensor, TensorData (CPU), constructors, copy/move",
  "Every constructor and copy/move form for 100+ shapes in float and double; all words of up to 3 (thorough 4) of 69 operations over three tensors (copy, move, swap, self-assignment, element writes, reshape, in-place ops, TensorData assignment).",
  "A pool of plain vectors; storage must be disjoint after every step, equality must match the model.",
  "Aliasing and moved-from states are history properties; the address sanitizer sees the out-of-bounds forms.")
p("C06", "Tensor/SliceView.hpp, AdvancedTensorOperations/Tensor slice",
  "All (start,end) in -d-1..d+1 and steps 0..d+1 for extents 1..8 (rank 1), full product for rank 2, products of 9 ranges per dimension for rank 3..5; slices of tensors with more than 2^31 elements; Tensor::slice for every dimension and index in and around the range of 377 shapes.",
  "Python-like selection in the reference; writes through a view must change exactly the addressed element.",
  "Negative bounds, clamping, steps and ranks combine; tests fix one each.")
p("C07", "AdvancedTensorOperations sum/mean/variance, Tensor::sum",
  "173 shapes up to rank 6 x every non-empty set of axes in every order x three value patterns x float/double; out-of-range axes.",
  "Definition in double; shape rule per function; input unchanged.", "Axis sets x shapes with unit extents.")
p("C08", "AdvancedTensorOperations matmul/transpose/dot",
  "All ordered pairs of 80 shapes (rank 1-2 extents 1..5, rank 3 extents 1..3, rank 4-5 small) x three patterns; transposes over all dimension pairs; larger sizes around blocking boundaries.",
  "Definition; exact where the products are exactly representable.", "Rank combinations select different code paths; unrolling or blocking errors need particular sizes.")
p("C09", "Tensor factories, RandomEngine, Device random fills",
  "Factories for all shapes; 300 draws of each kind for each of 400 seeds within range; all words of up to 3 random operations out of 8 after every preceding activity of up to 2 operations, for several seeds: the same word must give the same numbers whatever preceded the seeding. Distributions: 2000 seeds x 64 draws for 31 scalar kinds and 48 tensor forms.",
  "Exact values for factories; equality of sequences across histories; the empirical distribution over all seeds against the named one (Dvoretzky-Kiefer-Wolfowitz bound at 1e-9), per position and pooled, and independence of draws 1 to 13 apart (all cells of a grid, Bernstein bound).", "Hidden state in distributions (cached normal) shows only for particular preceding histories.")
p("C10", "Activations/*.hpp forward",
  "All finite floats with low 16 bits in {0, 0xffff, 0x5a5a} (thorough: all 2^32 patterns), all double sign/exponent/4 mantissa bits; softmax on all words of length 1..3 over 10 magnitudes up to 3e38, alone and batched, ranks 2..4.",
  "long-double/double reference with error bound in units of rounding.", "The claim is 'every finite input'; overflow regions are not in tests.")
p("C11", "Activations/*.hpp backward",
  "Same input enumeration with upstream gradients cycling over 11 values; softmax: all words x all upstream words; shape mismatches.",
  "Reference derivatives (cross-checked against difference quotients in C25); ReLU-kinks accept either one-sided derivative.", "As C10; plus inf/inf in derivative formulas.")
p("C12", "Loss/*.hpp",
  "All prediction and target words of length 1..3 over alphabets incl. 0, 1, out-of-range probabilities; every shape with that many elements; all ordered pairs of 44 shapes for acceptance; size sweep to 3000 elements.",
  "Definition with the documented clipping; gradient = derivative of that value.", "Non-one-hot targets, shape broadcasting and batch averaging are outside the tests.")
p("C13", "Layers/FullyConnectedLayer.hpp",
  "All widths 1..4 x batches x weight patterns x modes x types; size sweep; words of length 5 over {forward single, forward batches 1,2,3, backward, update}.",
  "RFC reference layer; parameter gradients observed through a probe optimizer.", "Batch summation, single samples and stale state are history dependent.")
p("C14", "Layers/Conv2DLayer.hpp",
  "All extents 1..5, kernels 1..3 x 1..3, strides 1..3, paddings 0..2, dilations 1..2, fitting or not; channels and batches 1..3; large inputs; words of length 5 over forwards of different sizes, backward, update.",
  "Direct seven-loop reference for forward and all three gradients.", "Geometry products; asymmetry between height and width.")
p("C15", "Layers/MaxPooling2DLayer.hpp",
  "All extents 1..5, pools 1..4, strides 1..4, legal paddings; value patterns with ties, all negative and lowest finite; all 3x3 planes over {-1,0} and 2x3/3x2 over three values; histories.",
  "Window maximum; backward must be *some* choice of one maximal position per window (ties accepted either way).", "Ties, negative windows, overlaps.")
p("C16", "Layers/BatchNormalizationLayer.hpp",
  "Features 1..4, batches 1..5, spatial extents, momenta {0,.1,.5,.9,1}, epsilons; words of length 5 over {train 2-D, train 4-D, eval 2-D, eval 4-D, backward, update}.",
  "Reference layer with running statistics; gradients w.r.t. input, scale, shift, in either mode.", "Mode/rank interleavings and the full gradient through the batch statistics.")
p("C17", "Layers/DropoutLayer.hpp",
  "All seeds 0..3999 x rates x 18 shapes: every output is 0 or x/(1-p); over all enumerated seeds the kept fraction per position, the pairs of positions and the reachability of every mask are counted; words of length 5 over {train, eval, forwards, backward}.",
  "Exact two-value check; counts compared with 1-p within 6.5 standard errors (a deterministic number for a given tree: the seeds are enumerated, not drawn).", "Dependence on tensor size or position is invisible in single draws.")
p("C18", "all layers",
  "For 16 layer kinds all words of length 4 over {backward, mode switch, update, rejected forward, forwards of 2..6 inputs of different batch size and rank}; a second layer of the same kind runs a rotated word in lockstep (static state).",
  "A fresh reference layer with the same parameters.", "Stale caches need specific call orders.")
for i, n, extra in (("C19", "SGD", "72 option sets"), ("C20", "RMSProp", "128 option sets, magnitudes 1e-18..1e18"), ("C21", "Adam", "192 option sets, all interleavings of sets of three tensors")):
    p(i, "Optimizers/%s*.hpp" % n, extra + "; all gradient words of length 4 over {0,1,-2.5,0.125} (one per entry of a 256-entry tensor), all words of rate overrides of length 3, shapes and sizes to 4097, 400-step histories.",
      "The published recurrence in double, recomputed from the start.", "Option interactions and history dependence (overrides, time steps).")
p("C22", "Optimizers: state keyed per tensor",
  "All words of length 3 over 9 ordered subsets of 3 tensors for 8 option sets; tensors replaced by others of 7 shapes in 4 ways (same address reuse included); every malformed call (0..4 gradients, each wrong shape at each position).",
  "One private optimizer per tensor; rejected calls change nothing; sanitizer for accesses.", "Key collisions and address reuse.")
p("C23", "SmartDNN::train, backward, updateWeights",
  "Recording stacks of depth 0..4 x samples 1..4 x epochs 0..4 and sample counts to 257; losses scripted as zero/constant/falling/rising/negative/tiny x gradients distinct/zero/tiny; ten real stacks with optimizers trained and compared with the same steps by hand; rejected calls.",
  "The exact sequence of events (layer, operation, mode, input hash) and bit-equal parameters.", "Skips and early stops triggered by values need scripted losses.")
p("C24", "SmartDNN::predict, trainMode/evalMode",
  "Words of length 3 over {predict a, b, list, empty list, eval, train mode, train} on ten stacks; all lists up to length 4 over 3 inputs; all words of 6 mode switches; batches of up to thousands of rows, stacks of 21 layers, lists of 5 to 300 inputs.",
  "Bit-equality with the composition of layers and with single predictions.", "Purity is a history property.")
p("C25", "composition of all layers and losses",
  "All stacks of depth 1..3 over the full layer alphabet and to depth 5 over a reduced one on 8 input shapes, both losses and modes where meaningful: about 50 000 networks.",
  "Reference backpropagation, itself compared with difference quotients of the loss, and difference quotients of the real model's own loss.", "Every layer may be right alone and wrong in composition (shapes handed over, softmax+cross-entropy).")
p("C26", "Datasets/MNISTLoader.hpp",
  "0..5 images of 8 extents x batch sizes x counts; every pixel value in every position; every truncation length of both files; every single-bit change of the magic numbers and 14 values in each header field; bad arguments; pairs of counts, missing, empty, swapped files; large files (to 70 000 images, 300 images of 28x28, extents to 1x70 000).",
  "Bytes written are the oracle; a damaged file must throw within the time limit.", "Fault enumeration: crash points of a file.")
p("C27", "Datasets/SampleGenerator.hpp",
  "All counts 0..40 x batch sizes 1..44 x noise x entropies (random_device replaced by an enumerated value), counts to 5000; distribution over all 400 entropies.",
  "Exact line for zero noise, ranges, counts; independence and deviation within 6.5 standard errors over the enumerated entropies.", "Last batch and shared noise.")
p("C28", "every '#pragma omp' loop",
  "The real code compiled with -fopenmp and with thread-sanitizer instrumentation, but linked to `harness/rt.cpp`: its own implementation of the OpenMP entry points and access hooks. 1277 operations x thread counts 1,2,3,4,8,16. Every access of every region is recorded with a happens-before relation; a conflicting pair is a violation (with source lines). Without conflicts or synchronisation all interleavings are one Mazurkiewicz class, so one order (two are run) covers all; with synchronisation, all schedules with at most 2 deviations are run (stateless model checking).",
  "Happens-before race detection, plus equality with a sequential build.", "OpenMP is off in the tests; a race depends on schedule and thread count.")
p("C29", "the whole library used by several threads",
  "Same runtime without OpenMP: all ordered pairs of 59 operations on distinct objects, pairs/triples of readers on shared tensors, three threads with each operation.",
  "No common mutable location, results equal the sequential build; the random engine is exempt as documented.", "Hidden statics.")
p("C30", "SmartDNN, RandomEngine, layers, optimizers",
  "24 configurations after all words of at most 2 of 15 preceding activities; all 252 interleavings of two five-step model histories, all 1680 of three three-step ones; seeds.",
  "Bit-equality with the model trained alone in a fresh history.", "Static caches and shared state appear only after particular histories.")
p("C31", "Debugging/Logger.hpp",
  "55 messages x 3 levels: all sequences of length 1 and 2, of length 3 over 8, of length 5 over 4; five stream settings, types whose output changes them; builds with and without logging.",
  "The text each message has when printed to a fresh stream.", "Format leakage needs sequences.")
p("C33", "SmartDNN::train over all layers, losses and optimizers",
  "500 well-posed batches x targets x three rates (descent, 25 epochs each); all pairs and triples of eight batches under four rules; 7 optimizers finding four rules; all 4 + 16 + 256 Boolean functions of up to three inputs x 14 to 16 networks and optimizers; seven networks telling bars apart, three batch sizes, seeds.",
  "Descent: the trajectory, rate and minimum from the Hessian of the data in double. Learning: every training input classified correctly in evaluation mode (the smallest margin found on the unchanged tree is well away from zero), last loss below the first. Plain ReLU networks and final sigmoids are left out: they may die or saturate, which is no defect.", "Slow, stuck or drifting learning needs whole training histories.")
p("C34", "constructors, assignments and every operation that allocates",
  "`operator new`/`delete` of the harness count live blocks and fail on demand. 141 operations (shapes, tensors, all layers forward and backward in both modes, losses, optimizers, construction, training and prediction of two models) are run three times without failures and then once for each of their allocations, with that allocation failing (about 12 600 failure points). Long lives: 137 operations on tensors, layers in both modes, losses, optimizers and models repeated 96 times on the same objects of alternating shapes.",
  "Memory held after the last third of the repetitions at most that of the first third. After each failure: an exception, operands bit-identical, consistent shapes and readable storage (address sanitizer), the repeated operation bit-equal to the undisturbed one, the live-block count back to its start. Text streams swallow allocation failures by their specification, so texts are only checked for leaks.", "Fault points: no test fails an allocation.")
p("C35", "toString, toDetailedString, toDataString, operator<<, toAsciiArt",
  "All shapes of rank 1..4 with dimensions 1..3, all vectors of 1..25 elements and around powers of ten and two, every upper half of a float (with two lower halves) as element, float and double; views; pictures of ten shapes, all stored pixel values in all rotations, single pixels, every upper half of a float as pixel value.",
  "Texts rebuilt with printf from the elements; bit-equality of the tensor before and after.", "The limits (ten elements, level bounds), values and positions are never sampled together.")

p("C36", "shape and option checks of all layers, Adam, SmartDNN::train, getLayer",
  "27 layers of all kinds, in both modes: each of 381 shapes as input (between passes, and of a layer never used) and as gradient of each of 2 to 4 outputs; all words of length 5 over {two proper forward passes, backward with update, wrong inputs, wrong gradients}; all combinations of channels, sizes, strides, paddings and dilations out of {smallest int, -2, -1, 0, 1, 2}; 17 dropout rates; 9 Adam batch sizes; models with a wrong input or target at every position of 1 to 3 samples.",
  "An exception wherever the reference layer does not accept the shape; a twin layer or model that is spared the misuse must agree bit for bit in every later pass, parameter and gradient (in both modes); address sanitizer and process exit for crashes.", "Wrong shapes are a large space; the tests use fitting ones.")
p("C37", "copy and move operations of all layers, activations, losses and optimizers; SmartDNN::addLayer and compile",
  "Ten layers of all kinds: all words of length 3 (thorough 4) over 15 operations on two objects, new or after a pass and update, (forward, backward, update, mode switch, copy construction and assignment, moves, swap, self-assignment, new options, destruction of the original), then both objects are examined. Four optimizers: the same with 13 operations, both serving the same two tensors. Models given each layer once or twice, or an optimizer used by others, by name, after six histories.",
  "The history of an object is data: copying an object copies its history, and a fresh object that is fed that history must agree bit for bit with every output, gradient and update.", "Aliasing between copies is a history property.")
p("C38", "the extension interfaces: Layer, Loss, Optimizer, Activation; SmartDNN",
  "Models of 1..3 stand-in layers, 1..3 samples, 1..3 epochs, both modes: each event of each of seven operations fails with each of six kinds of exceptions, as first operation and after others; then every operation is run again. addLayer and compile with components that fail while copied or moved. Library layers with an optimizer failing at each call; all words of length 1..6 over {forward, backward} on an activation layer with each call failing.",
  "The undisturbed event sequence: a prefix of it up to the failure, and all of it afterwards; exception identity by type and content; a count of living components.", "Fault points: tests have none.")
