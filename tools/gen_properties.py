#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay readable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

RAW, RC, VIEW, UT, TL = ("src/tensor/raw_tensor.rs", "src/tensor/rc_tensor.rs", "src/tensor/tensor_view.rs",
                         "src/tensor/utils.rs", "src/tensor/tensor_like.rs")
EW, MISC, JVP = ("src/tensor/functional/element_wise_ops.rs", "src/tensor/functional/misc.rs", "src/tensor/autograd/jvp.rs")
SGD, LIN, MLP = ("src/optim/sgd.rs", "src/nn/linear.rs", "src/nn/feed_foward.rs")

prop("C01", "Construction and indexing follow row-major order",
 "A non-empty tensor built from flat data and a shape, from nested lists or arrays, from a filler value or from a single number has exactly that shape and element count, and looking up any in-range index returns the element at that index's row-major position. Surplus leading index entries, and whatever is given for an extent of one, are ignored (broadcast indexing). An index that is out of range on an extent larger than one, or too short to address an extent larger than one, yields an error value and never some other element; index enumeration visits every index once, in row-major order.",
 ["inputs", "configurations"], "All shapes (rank 0 to 8, extents from 1 to tens of thousands), all supported element types, all in-range, surplus, short and out-of-range indices.",
 "The tests read a few elements of about ten fixed shapes of rank at most 4 with one element type each; errors for bad indices are never looked at.",
 [RAW, RC, UT], [("global_index", UT), ("increment_index / IndexIterator", UT), ("From<Vec<_>>, From<[_; N]>", RAW)],
 ["RawTensor::new / from / new_with_filler / scalar", "get, Index, elem, shape, count, iter_indices"],
 [("shape", "extents of the tensor", RAW), ("array", "elements in row-major order", RAW)])
prop("C02", "Addition and subtraction broadcast like numpy",
 "For any two non-empty operands whose shapes are broadcast-compatible (aligned at the last dimension; extents equal or one of them 1), the sum or difference has the broadcast shape, and every element is the sum or difference of the two elements that broadcasting pairs up. This holds for every supported mix of plain tensors, shared tensors and views, for owned and borrowed operands, and for every supported element type. The public tests of shapes (broadcastable, same_shape) answer accordingly.",
 ["inputs", "configurations"], "All broadcast-compatible shape pairs (also of different rank), operand kinds and element types, including float infinities, NaN and signed zeros.",
 "One scalar broadcast, one 2-d on 3-d broadcast and a few equal shapes are tested, on integers or short floats.",
 [EW, RAW, RC, UT], [("generic_binop_raw, max_shape", EW), ("broadcastable", TL), ("Add/Sub impls", RC), ("Add/Sub impls", RAW)],
 ["&a + &b, a + b, &a - &b, a - b, a - &b on the public tensor types"])
prop("C03", "Maps, products and scaling act element by element",
 "Negation, absolute value, relu, tanh and any user-supplied scalar function keep the shape and put f(x) exactly where x was. The product of two tensors of the same shape multiplies the elements at the same index, and the product with a rank-0 tensor (on either side) or an explicit scalar multiplies every element. This holds for plain tensors, shared tensors and (where accepted) views.",
 ["inputs", "configurations"], "All non-empty shapes, values (negative, zero, huge, tiny, infinite) and operand kinds.",
 "Tests check relu nowhere, tanh and abs on one small matrix and the product of two 3-vectors; scaling is tested on one constant vector and never on a view.",
 [EW, MISC, RAW, RC, TL], [("generic_unary_op", EW), ("relu, tanh, abs_raw", EW), ("element_wise_multiplication", MISC), ("left/right_scalar_multiplication", TL)],
 ["neg, abs, relu, tanh, generic_unary_op, *, left_/right_scalar_multiplication"])
prop("C04", "A view behaves like a copy of the region it selects",
 "A view created by slicing any tensor or view, or by reshaping a view, is indistinguishable in shape, element count, element lookup, enumeration, sum, equality and copying, and as an operand of any operation that accepts views, from a fresh tensor holding the selected region in row-major order. Ranges given to a view are relative to that view. A view with an empty range has no elements, sums to zero and copies to an empty tensor.",
 ["inputs", "histories"], "All base shapes, all valid range lists, all chains of slicing and reshaping, all operations that accept views.",
 "Two fixed slices of fixed tensors are compared and summed; views of views, reshaped views and views as operands are never exercised.",
 [VIEW, UT, TL, MISC], [("TensorView::get / new / reshape / slice", VIEW), ("global_index with offset, tensor_index", UT), ("ElementIterator", UT)],
 ["view, slice, TensorView::new, reshape, get, Index, to_tensor, sum, ==, +, *, dot, bmm"],
 [("offset", "selected range per dimension of the base tensor", VIEW), ("shape", "shape the view presents", VIEW)])
prop("C05", "Matrix multiplication is the sum of products",
 "Multiplying an m-by-k matrix, or a batch of them, by a k-by-n matrix yields an m-by-n matrix, or a batch, whose every entry is the sum over k of the products of the matching entries. This holds for all non-zero sizes, for every mix of plain tensors, shared tensors and views, for an operand multiplied with itself, and for every element type.",
 ["inputs", "configurations"], "All sizes m, k, n and batch sizes (from 1 to several hundred), operand kinds and element types, worker pool sizes.",
 "Values are checked for two 2-by-2 products only; other shapes are merely run.",
 [MISC, RAW, RC, VIEW], [("bmm_raw", MISC)], ["bmm, bmm_rc on RawTensor, RcTensor, TensorView"])
prop("C06", "Sum and dot count every element exactly once",
 "The sum of a non-empty tensor or view is a rank-0 tensor holding the total of all its elements, each counted exactly once. The dot product of two operands of the same shape is a one-element tensor holding the total of the products of the elements at equal indices. Both hold for every size, shape, operand kind and element type.",
 ["inputs", "configurations"], "All shapes and sizes (up to hundreds of thousands of elements), operand kinds, element types.",
 "A handful of sums of at most 12 elements and one dot of three elements are tested.",
 [RAW, RC, VIEW, MISC], [("sum", RAW), ("sum", VIEW), ("dot_raw", MISC)], ["sum, functional::dot, RawTensor::dot, dot_no_derivative"])
prop("C07", "Backward computes the exact gradient of any expression",
 "After one backward pass from a one-element result built from fresh tensors by broadcasting addition and subtraction, negation, absolute value, relu, tanh, sum, dot product and two-dimensional matrix multiplication, every tensor the result was computed from holds the partial derivative of the result with respect to that tensor, in that tensor's shape, with all paths through shared operands summed. This includes chains of tens of thousands of operations, results that are shared again and again, and tensors of a hundred thousand elements. An infinite or NaN factor affects only the derivatives it is a factor or term of. A backward pass through a product whose left operand is a batch of matrices is refused or just as exact. Tensors that did not contribute hold no gradient. At a kink of relu or absolute value any slope between the two one-sided ones is acceptable.",
 ["programs", "inputs"], "All expression graphs over the listed operations (shared sub-expressions, repeated operands, broadcasts, chains of any length, any amount of sharing, wide fan-out), all shapes and values.",
 "Each operation's gradient is tested alone on one or two small inputs, almost always directly below a sum; composed graphs, operands of more than 32 elements and shared operands are not.",
 [JVP, EW, MISC, RC, RAW], [("Derivative::compute_jvp", JVP), ("ones", JVP), ("generic_binop_jvp, jvp_from_diagonal_broadcast, generic_unary_jvp", EW), ("tanh_jvp, abs_jvp", EW), ("bmm_jvp, SplitArrayWriter, dot_jvp", MISC)],
 ["backward, grad on RcTensor"], [("grad", "accumulated gradient", RAW), ("grad_fn", "how the tensor was computed", RAW)])
prop("C08", "Gradients accumulate, clear and stay with their tensor; values never change",
 "Over any history of forward operations, backward passes, clearing, handle cloning and copying, a tensor's gradient is the sum of what was added since it was last cleared (or absent if nothing was), the same through all handles to it. Clearing one tensor or updating a copy affects no other tensor; a deep copy starts without a gradient and is cut off from the original. Nothing in such a history, including operations that are refused, changes the elements or shape of an existing tensor.",
 ["histories"], "All sequences of build, backward, clear, clone, copy, accumulate and read operations over a shared set of tensors.",
 "Tests run one backward pass per tensor; only one test clears a gradient, and none checks what the other tensors hold.",
 [RAW, RC, TL, JVP], [("update_grad, zero_grad, Clone", RAW), ("deep_clone", TL), ("backward", RC)],
 ["backward, zero_grad, update_grad, grad, clone, deep_clone, to_tensor"], [("grad", "accumulated gradient, behind a lock", RAW)])
prop("C09", "Concurrent gradient updates are linearizable: none lost, none doubled",
 "When several threads run backward passes, accumulate, clear and read gradients of shared tensors at the same time, every tensor's gradient behaves as if those operations had happened one at a time in an order consistent with real time. In particular, after any set of concurrent backward passes each contribution is included exactly once, and no read sees a partly applied one.",
 ["schedules", "histories"], "All interleavings of backward, accumulate, clear and read calls on tensors shared between threads.",
 "No test uses a tensor from two threads.",
 [RAW, RC, JVP], [("update_grad / zero_grad read-modify-write", RAW), ("grad lock", RAW)], ["backward, update_grad, zero_grad, grad from several threads"],
 [("grad", "accumulated gradient, behind a lock", RAW)])
prop("C10", "Parallel kernels give the same answer and always finish, on any pool",
 "Matrix multiplication and its gradient return the same correct result, and return at all, whatever the number of worker threads, whether they are called from an ordinary thread, from inside a worker pool, from nested parallel tasks or from many threads at once, and however the workers are scheduled.",
 ["schedules", "configurations"], "All worker pool sizes, calling contexts, numbers of concurrent calls and worker interleavings.",
 "All tests call from an ordinary test thread with one pool size and do not control scheduling.",
 [MISC], [("bmm_raw scope per row", MISC), ("bmm_jvp scopes, SplitArrayWriter channels", MISC)], ["bmm, backward under rayon pools"],
 [("segments, senders, receivers", "gradient accumulators fed by worker tasks", MISC)])
prop("C11", "A panic in element arithmetic surfaces and is contained",
 "If the element type's arithmetic panics anywhere inside a tensor operation, a backward pass or an optimizer step (for example integer overflow inside a parallel kernel), the caller sees a panic; the call neither hangs nor returns a result. Existing tensors keep their values and their gradients stay readable and clearable, a model whose step failed keeps its parameters, the worker pool stays usable, and after clearing gradients repeating the operation gives the exact result.",
 ["fault_sequences", "schedules"], "Every arithmetic operation of a kernel as the failing one, inside and outside worker pools, single and repeated faults.",
 "No test makes arithmetic fail.",
 [MISC, EW, RAW, SGD], [("rayon scopes, channel send/receive", MISC), ("update_grad locking", RAW), ("sgd_step computes before it updates", SGD)],
 ["any operation over a user-defined element type"])
prop("C12", "An SGD step moves each parameter along its own gradient only",
 "A step with step size s replaces every parameter p of a layer or network by p - s*g, where g is that parameter's own accumulated gradient, in the same position and shape and with no gradient of its own. The replaced tensors keep their values and gradients, and later backward passes through the updated model never reach them. If any parameter has no gradient the step is refused and the model stays as it was.",
 ["inputs", "histories"], "All layer and network shapes, gradients, step sizes, and sequences of steps and backward passes.",
 "The only test that takes a step is ignored as too slow, and only looks at the final loss.",
 [SGD, LIN, MLP], [("sgd_step", SGD), ("params / update_params", LIN), ("params / update_params", MLP)], ["sgd_step, params, update_params, grad"])
prop("C13", "A network computes the composition of its layers",
 "A linear layer maps a matrix or a batch of matrices x to activation(x*W + b), with b broadcast over rows and no activation meaning the identity, and a network applies its layers in order. The parameter list is each layer's weights then bias, in layer order, and refers to the tensors the forward pass uses; replacing the parameters by a list in that order makes the next forward pass use exactly those. A forward pass leaves no gradients and gives the same result when repeated.",
 ["inputs", "configurations"], "All network depths, layer widths, batch sizes, bias shapes, activations and parameter values.",
 "One layer without activation is checked against one value; multi-layer forward results and parameter order are not.",
 [LIN, MLP], [("forward, params, update_params", LIN), ("forward, params, update_params", MLP)], ["Linear::forward, Mlp::forward, params, update_params"])
prop("C14", "Training follows the reference trajectory at constant cost per step",
 "Any number of forward, backward, step iterations on a network gives the parameters that exact gradient descent on the same data gives, step after step. The arithmetic work per iteration and the live memory after it do not grow with the number of iterations already done, and neither does the memory held by a gradient that keeps accumulating.",
 ["histories", "inputs"], "All training histories: networks, data, losses, step sizes, numbers of steps, interleaved gradient clearing.",
 "The one training test is ignored, takes minutes, and checks only that the final loss is small.",
 [SGD, MLP, JVP, RAW], [("sgd_step", SGD), ("update_grad", RAW), ("compute_jvp", JVP)], ["forward, backward, sgd_step over many iterations"])
prop("C15", "No undefined behaviour or data race in any execution",
 "No use of the library through its safe interface, including the parallel kernels and tensors shared between threads, performs an out-of-bounds or uninitialised access, a use after free, an invalid aliasing access, a data race or a memory leak that grows with the number of calls.",
 ["schedules", "inputs"], "All workloads over the public interface and all interleavings of the worker threads.",
 "The tests run uninstrumented: an access error or a race that happens to give the right value passes.",
 [MISC, RAW, RC, UT], [("disjoint mutable slices handed to rayon tasks", MISC), ("channel hand-over of partial gradients", MISC), ("RwLock around gradients", RAW)],
 ["whole public interface under Miri, ThreadSanitizer and AddressSanitizer"])
prop("C16", "Equality means same shape and same elements",
 "Two tensors, shared tensors or views compare equal exactly when their shapes are identical and the elements at every index are equal. Gradient state, how the operands were computed, sharing and the underlying storage of a view make no difference.",
 ["inputs", "histories"], "All pairs of tensors and views: equal, differing in one element anywhere, differing only in shape.",
 "Tests use equality as their oracle and never check that it distinguishes; only one inequality is asserted.",
 [RAW, RC, VIEW], [("PartialEq for RawTensor", RAW), ("PartialEq for TensorView", VIEW)], ["== and != on all tensor types"])
prop("C17", "Ill-formed requests are refused, never answered",
 "Data that does not fill the shape, ragged nested lists, sums of incompatible shapes, products and dot products of different shapes (unless a product has a rank-0 side), matrix products with wrong ranks or inner extents, ranges that are reversed, too long or wrong in number, reshapes that change the element count, taking the single value of a tensor that is not rank 0, reading a gradient that is absent, and backward from a result that has several elements or was not computed from anything all panic or return an error, in debug and release builds alike. None of them returns a value, and the operands stay usable and unchanged.",
 ["inputs", "configurations"], "All ill-formed combinations of shapes, ranges, ranks and lengths (including shapes whose element count exceeds the machine word), all operand kinds, debug and release builds.",
 "No test expects a refusal.",
 [RAW, RC, VIEW, TL, MISC, EW], [("assertions in constructors and kernels", RAW), ("broadcastable, same_shape", TL), ("shape assertions in bmm_raw, dot_raw, element_wise_multiplication", MISC)],
 ["panics and Err values of the public interface"])
prop("C18", "Every answer depends on the request alone, not on what ran before",
 "The same operation or gradient computation on equal operands gives the same answer (for floats up to rounding) every time: however often it was asked for before, on whichever thread or worker pool, whatever else was computed, refused, interrupted by a panic in element arithmetic, or dropped in between, and whatever other threads are computing on other tensors at the same time. Operands with other data never receive an answer computed for earlier operands.",
 ["histories", "schedules"], "All interleavings of requests (operations of every kind, whole gradient computations) over several element types and operand kinds, with refusals, panics, drops and large operations in between, on one or many threads.",
 "Every test starts its own computation once and looks at one answer; nothing is asked twice, after a failure, or from another thread.",
 [MISC, EW, RAW, RC, VIEW, JVP], [("bmm_raw, bmm_jvp, SplitArrayWriter", MISC), ("generic_binop_raw, generic_unary_op", EW), ("compute_jvp", JVP), ("update_grad, zero_grad", RAW)],
 ["whole public interface of the tensor module"])
prop("C19", "Work and memory grow in proportion to what is asked for",
 "The element arithmetic, the peak of extra memory and the memory allocated altogether by an operation, a forward pass, a backward pass or an optimizer step stay within a constant factor of the number of elements read and written plus, for matrix products, of the multiplications they consist of. For a backward pass that count is taken over the distinct tensors the result was computed from: sharing a result, however often, and the length of a chain add nothing beyond that.",
 ["inputs", "histories"], "All operations and graphs: sizes, operand kinds, broadcasts, lengths of chains, numbers of uses of a shared result, networks and batch sizes.",
 "The tests look at values only, on inputs so small that quadratic work or memory does not show.",
 [EW, MISC, JVP, RAW, SGD], [("generic_binop_raw, jvp_from_diagonal_broadcast, generic_unary_jvp", EW), ("bmm_raw, bmm_jvp, dot_jvp", MISC), ("compute_jvp", JVP), ("update_grad", RAW), ("sgd_step", SGD)],
 ["whole public interface of the tensor, nn and optim modules"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
