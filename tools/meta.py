"""Writes properties.jsonl and MANIFEST.json from the list below.  A property is
claimed when checks/pXX_*.py exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, note=None, na=None, state=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, na=na, state=state))


prop("P01", "Exponential and logarithm maps are the matrix ones and invert each other",
     "For SO2, SE2, SO3 and SE3 the exponential of a tangent vector is the matrix exponential of its hat matrix, and the "
     "logarithm of any group element is finite and its exponential gives that element back. This includes angles near zero, "
     "near and at a half turn, and every choice of dominant axis, in both the object and the functional interface. "
     "Inside the cut locus the logarithm of the exponential is the original tangent vector.",
     ["inputs"], "every tangent vector and every group element (per branch of the implementation), any batch element",
     "Tests draw random tangent vectors; the near-zero and near-half-turn branches, their thresholds and ties between axes "
     "have measure zero or close to it under sampling.",
     ["theseus/geometry/so2.py", "theseus/geometry/se2.py", "theseus/geometry/so3.py", "theseus/geometry/se3.py",
      "torchlie/torchlie/functional/so3_impl.py", "torchlie/torchlie/functional/se3_impl.py"],
     [("exp/log implementations and their near-zero, near-pi switches", "torchlie/torchlie/functional/so3_impl.py"),
      ("SE2 exp_map/_log_map_impl", "theseus/geometry/se2.py")])

prop("P02", "Group operations agree with the homogeneous matrix representation",
     "Composition, inversion, hat/vee, adjoint, lifting/projection, action on points, and the conversions between "
     "quaternions, angles, rotation matrices and vectors agree with the corresponding operations on homogeneous matrices, "
     "for every operand and with batch broadcasting. Group axioms (associativity, inverses, identity, closure) follow for "
     "the stored representation. Between and local are the composed operations inverse(a)*b and log(inverse(a)*b).",
     ["inputs"], "every group element, tangent vector and point; batch sizes equal or broadcast",
     "Tests compare on a handful of random batches; algebraic identities must hold everywhere.",
     ["theseus/geometry/so2.py", "theseus/geometry/se2.py", "theseus/geometry/so3.py", "theseus/geometry/se3.py",
      "theseus/geometry/lie_group.py", "theseus/geometry/point_types.py", "torchlie/torchlie/functional/so3_impl.py",
      "torchlie/torchlie/functional/se3_impl.py"],
     [("compose/inverse/adjoint/transform implementations", "theseus/geometry/*.py, torchlie/torchlie/functional/*_impl.py")])

prop("P03", "Every analytic Lie group jacobian is the derivative of the operation",
     "Whenever a Lie group operation (compose, inverse, between, local, exponential, logarithm, action on a point, quaternion "
     "conversion, coordinate extraction) returns a jacobian with its value, that jacobian is the exact derivative of the "
     "value with respect to a right (body frame) perturbation of the operand, or with respect to the vector operand. "
     "Near-zero branches may deviate by the series remainder only.",
     ["inputs"], "every operand, batch sizes with broadcasting, generic angles and the near-zero branches",
     "Tests check a few random points against autograd; wrong terms that vanish at, or near, sampled points and the "
     "small-angle branches are not reached.",
     ["theseus/geometry/lie_group.py", "theseus/geometry/so2.py", "theseus/geometry/se2.py", "theseus/geometry/so3.py",
      "theseus/geometry/se3.py", "torchlie/torchlie/functional/so3_impl.py", "torchlie/torchlie/functional/se3_impl.py"],
     [("analytic jacobians", "torchlie/torchlie/functional/so3_impl.py, se3_impl.py, theseus/geometry/*.py")])

prop("P04", "Gradients through Lie group operations are the true derivatives",
     "Back-propagating any upstream gradient through a Lie group operation that has a hand-written backward pass gives the "
     "vector-Jacobian product of that operation: along every tangent direction of a group operand and every direction of a "
     "vector operand, the gradient's pairing equals the directional derivative of the output paired with the upstream gradient.",
     ["inputs"], "every operand and every upstream gradient, batch sizes with broadcasting",
     "Gradient tests sample a few operands and mostly gradcheck along a few directions; a wrong entry can hide in a direction "
     "or branch never sampled.",
     ["torchlie/torchlie/functional/so3_impl.py", "torchlie/torchlie/functional/se3_impl.py",
      "torchlie/torchlie/functional/lie_group.py"],
     [("torch.autograd.Function subclasses of each operation", "torchlie/torchlie/functional/so3_impl.py, se3_impl.py")])

prop("P05", "Embodied cost functions compute the documented error and its exact jacobian",
     "The built-in cost functions (difference, local cost, between, moving-frame between, reprojection, double-integrator and Gaussian-process motion "
     "models, quasi-static pushing, hinge, nonholonomic) return the documented error, and each returned jacobian block is the "
     "exact derivative of the returned error with respect to a tangent perturbation of the matching optimization variable.",
     ["inputs"], "every value of the optimization and auxiliary variables, batch sizes 1 and 2",
     "Unit tests compare with autograd on random points; thresholds, sign choices and rarely used variable combinations are not covered.",
     ["theseus/embodied/measurements/between.py", "theseus/embodied/measurements/moving_frame_between.py",
      "theseus/embodied/measurements/reprojection.py", "theseus/embodied/misc/local_cost_fn.py",
      "theseus/embodied/motionmodel/double_integrator.py", "theseus/embodied/motionmodel/quasi_static_pushing_planar.py",
      "theseus/embodied/motionmodel/misc.py"],
     [("error and jacobians methods", "theseus/embodied")])

prop("P06", "Automatic differentiation costs return the derivative of the user error",
     "For a cost function defined by a user's error function, the returned error is that function of the current variables, "
     "and each jacobian block is its derivative with respect to the (tangent-space) perturbation of that variable and batch "
     "element only, in every differentiation mode and batch-broadcast combination. Batch elements never influence each other.",
     ["inputs", "configurations"], "every input of generic error functions; variables of vector and Lie group type; batch 1-2",
     "Tests use a couple of polynomial error functions and random values.",
     ["theseus/core/cost_function.py"], [("AutoDiffCostFunction", "theseus/core/cost_function.py")])

prop("P07", "Cost weights scale errors and jacobians consistently",
     "Weighting by a scale or diagonal weight multiplies each error row and the same row of every jacobian by the same factor, "
     "for every batch combination of weight and error; a Gaussian-process weight L satisfies that the product of its transpose "
     "with itself is the documented inverse covariance. A weight that reports itself zero for a batch element yields zero weighted error.",
     ["inputs"], "every weight, error and jacobian value; batch sizes equal or broadcast",
     "Tests sample random weights; broadcast combinations and row/column mix-ups with equal sizes go unseen.",
     ["theseus/core/cost_weight.py", "theseus/embodied/motionmodel/double_integrator.py"],
     [("weight_error / weight_jacobians_and_error", "theseus/core/cost_weight.py")])

prop("P08", "Robust costs rescale by the loss consistently with its gradient",
     "With a robust loss the reported squared error of a cost equals the loss of the weighted squared error (up to the documented epsilon), and "
     "the rescaled jacobians and error used in the linear system satisfy J^T e = half the gradient of that loss. The loss and its derivative are consistent, nonnegative and "
     "bounded by the squared error, whether residuals are grouped or flattened.",
     ["inputs"], "every error, jacobian and radius value; Huber, Welsch; grouped and flattened residuals",
     "Tests sample random errors; crossing of the Huber threshold, zero error and small radii are not exercised.",
     ["theseus/core/robust_loss.py", "theseus/core/robust_cost_function.py"],
     [("RobustLoss.evaluate/linearize", "theseus/core/robust_loss.py"), ("RobustCostFunction", "theseus/core/robust_cost_function.py")])

prop("P09", "Dense linearization assembles exactly J^T J and -J^T e of the weighted problem",
     "The assembled dense system stacks every cost's weighted jacobian blocks in the columns of its own variables and its weighted error "
     "in its own rows, for any variable ordering, cost order and batch broadcast; the normal matrix and right-hand side are "
     "exactly J^T J and minus J^T e of that system.",
     ["inputs", "programs"], "all jacobian and error values over a family of problem structures (shared variables, repeated types, every ordering)",
     "Tests use a few random graphs, values and default orderings.",
     ["theseus/optimizer/dense_linearization.py", "theseus/optimizer/linearization.py", "theseus/optimizer/variable_ordering.py"],
     [("DenseLinearization._linearize_*", "theseus/optimizer/dense_linearization.py"),
      ("VariableOrdering", "theseus/optimizer/variable_ordering.py")])

prop("P10", "Sparse linearization represents the same system as the dense one",
     "The compressed sparse structure built once at construction, filled with values at each linearization, is the same matrix and "
     "right-hand side as the dense linearization of the same objective; its products with vectors and its diagonal scaling agree "
     "with the dense ones.",
     ["inputs", "programs"], "all jacobian and error values over a family of problem structures, batch sizes and orderings",
     "Tests compare for a few random values and structures.",
     ["theseus/optimizer/sparse_linearization.py", "theseus/utils/sparse_matrix_utils.py"],
     [("SparseLinearization", "theseus/optimizer/sparse_linearization.py"), ("mat_vec/tmat_vec", "theseus/utils/sparse_matrix_utils.py")])

prop("P11", "Linear solvers solve the damped normal equations for every batch element",
     "Every linear solver returns a step dx with (A^T A + damping) dx = A^T b in every batch element, where the damping is the documented "
     "one: absolute, or proportional to the diagonal, with the documented epsilon floor and per-batch or scalar values.",
     ["inputs", "configurations"], "every nonsingular system up to 3 unknowns and damping values; dense Cholesky and LU, sparse CHOLMOD",
     "Tests compare a handful of random well-conditioned systems.",
     ["theseus/optimizer/linear/dense_solver.py", "theseus/optimizer/linear/cholmod_sparse_solver.py",
      "theseus/optimizer/autograd/cholmod_sparse_autograd.py"],
     [("DenseSolver._apply_damping/solve", "theseus/optimizer/linear/dense_solver.py"),
      ("CholmodSolveFunction.forward", "theseus/optimizer/autograd/cholmod_sparse_autograd.py")])

prop("P12", "The differentiable sparse solve back-propagates the exact gradient",
     "The backward pass of the sparse solver returns, for any upstream gradient, the exact derivative of the solution of the (damped) "
     "normal equations with respect to the matrix values and to the right-hand side, including the dependence of the damping on the matrix.",
     ["inputs"], "every matrix value, right-hand side and upstream gradient, for a family of sparsity patterns with batches",
     "Tests run gradcheck at random points and only on unpatterned matrices.",
     ["theseus/optimizer/autograd/cholmod_sparse_autograd.py", "theseus/optimizer/autograd/common.py"],
     [("CholmodSolveFunction.backward", "theseus/optimizer/autograd/cholmod_sparse_autograd.py"),
      ("compute_A_grad", "theseus/optimizer/autograd/common.py")])

prop("P13", "Levenberg-Marquardt accepts, rejects and adapts damping as specified",
     "Adaptive Levenberg-Marquardt computes the step-quality ratio as true decrease over model decrease per batch element, rejects a step exactly when the "
     "ratio is not above the threshold, raises damping on rejected steps and lowers it on accepted ones "
     "within the configured limits; batch elements adapt independently. A rejected step leaves the variable unchanged.",
     ["inputs", "histories"], "every error, step and damping value per batch element over a few iterations",
     "Tests only check that final costs improve on sample problems.",
     ["theseus/optimizer/nonlinear/levenberg_marquardt.py", "theseus/optimizer/nonlinear/nonlinear_least_squares.py"],
     [("LevenbergMarquardt._complete_step", "theseus/optimizer/nonlinear/levenberg_marquardt.py")])

prop("P14", "Dogleg steps stay within the trust region along the dogleg path",
     "The Dogleg step of every batch element lies on the path from the origin through the Cauchy point to the Gauss-Newton step, "
     "never longer than the trust region radius, and equals the Gauss-Newton step when that fits. The radius update keeps the radius "
     "within its limits and follows the step quality per batch element.",
     ["inputs", "histories"], "every gradient, Gauss-Newton step, radius and step quality; per batch element",
     "Tests only check convergence on sample problems.",
     ["theseus/optimizer/nonlinear/dogleg.py", "theseus/optimizer/nonlinear/trust_region.py"],
     [("Dogleg._compute_step / TrustRegion._complete_step", "theseus/optimizer/nonlinear/dogleg.py, trust_region.py")])

prop("P15", "Nonlinear optimization bookkeeping reports exactly what happened",
     "For any sequence of errors and steps, the optimizer reports as best solution the variable values with the lowest recorded error per batch "
     "element, the error and state histories hold the value after each iteration, the converged/failed status and iteration counts follow "
     "the documented rules, and converged or failed elements are no longer modified. The iterate and error history are those of the "
     "objective evaluated at the variables.",
     ["histories", "inputs", "fault_sequences"], "every error trajectory and step over bounded iterations, batch sizes up to 2, solver failures at any iteration",
     "Tests run a few optimizations; status, best-iterate and failure combinations per batch element are not enumerated.",
     ["theseus/optimizer/nonlinear/nonlinear_optimizer.py", "theseus/optimizer/nonlinear/nonlinear_least_squares.py"],
     [("_optimize_loop, _update_info, _check_convergence", "theseus/optimizer/nonlinear")])

prop("P16", "Batch elements are optimized independently",
     "Running an optimization on a batch gives, for each element, exactly the result (iterates, status, damping) of optimizing that element "
     "alone, for every optimizer, as long as the element is still active.",
     ["inputs", "histories"], "every residual and jacobian value of batch 2 against batch 1, bounded iterations, each optimizer",
     "Tests never compare batched runs with single-element runs at rejected or converged elements.",
     ["theseus/optimizer/nonlinear/nonlinear_least_squares.py", "theseus/optimizer/nonlinear/levenberg_marquardt.py",
      "theseus/optimizer/nonlinear/dogleg.py"],
     [("per-batch masks", "theseus/optimizer/nonlinear")])

prop("P17", "An objective always mirrors the cost functions it currently contains",
     "After any sequence of adding, erasing and copying, an objective's cost functions, weights, optimization variables and auxiliary variables are exactly "
     "those used by the cost functions currently in it, in insertion order; names identify unique objects and conflicting additions are refused "
     "without altering it. A copy has equal content and shares no variable with the original.",
     ["histories", "programs"], "all add/erase/copy histories up to a bounded length over a family of cost functions sharing variables and weights",
     "Tests try a few fixed histories.",
     ["theseus/core/objective.py", "theseus/core/theseus_function.py", "theseus/core/variable.py"],
     [("add, erase, copy and variable dictionaries", "theseus/core/objective.py")])

prop("P18", "Updating and evaluating an objective affects exactly what was asked",
     "Updating an objective with named tensors changes exactly those variables and keeps a consistent batch size; the "
     "objective's error is the concatenation of the weighted errors in insertion order. Evaluating the error with temporary inputs and no update requested "
     "leaves every variable, optimization and auxiliary, with its previous value.",
     ["inputs", "histories"], "every input value; subsets of variables; batch sizes; vectorization on and off",
     "Tests use sample values and do not check that auxiliary variables are restored.",
     ["theseus/core/objective.py", "theseus/core/variable.py"],
     [("update, error, error_metric", "theseus/core/objective.py")])

prop("P19", "Vectorization changes performance only",
     "Evaluating errors and weighted jacobians of an objective with vectorization gives exactly the per-cost values that evaluating each "
     "cost function alone gives, for every grouping, shared or unshared variables, and batch broadcast; retracting all variables "
     "vectorized equals retracting each variable.",
     ["inputs", "programs"], "all variable values over a family of objectives mixing types, shared variables and weights, batch 1-2",
     "Tests cover a few mixes with random values.",
     ["theseus/core/vectorizer.py", "theseus/core/objective.py"],
     [("Vectorize", "theseus/core/vectorizer.py")])

prop("P20", "Retraction moves each variable by its own step, and only where allowed",
     "Retracting a variable composes it with the exponential of the step, elementwise addition for vectors; masked (ignored) batch elements keep their value exactly, "
     "each variable receives its own slice of the step, and local coordinates invert the retraction.",
     ["inputs"], "every variable value, step and mask; vector, point and Lie group variables",
     "Tests sample random steps and all-false or fixed masks.",
     ["theseus/geometry/manifold.py", "theseus/geometry/lie_group.py", "theseus/core/objective.py", "theseus/core/variable.py"],
     [("retract_vars_sequence / update with batch_ignore_mask", "theseus/core/objective.py, theseus/core/variable.py")])

prop("P21", "The layer's backward modes return the gradients they document",
     "Back-propagation through the optimization layer gives the exact gradient of the documented computation for each mode: implicit mode differentiates one "
     "undamped Gauss-Newton step at the solution, truncated mode the last iterations, unroll all of them, dlm the difference quotient of the "
     "loss at the solution and at the solution of the perturbed problem; the forward values agree across modes.",
     ["inputs", "configurations"], "every auxiliary value of parametric problems; unroll, truncated, implicit and dlm modes",
     "Tests compare with numerical gradients at few points.",
     ["theseus/theseus_layer.py", "theseus/optimizer/nonlinear/nonlinear_optimizer.py"],
     [("_optimize_impl per backward mode", "theseus/optimizer/nonlinear/nonlinear_optimizer.py")])

prop("P22", "Robot forward kinematics composes joint transforms, with exact jacobians",
     "For any kinematic tree, the pose of every link is the product of the joint transforms from the root, for every joint value and batch; "
     "analytic spatial and body jacobians, and the hand-written gradient, are the derivatives of those poses.",
     ["inputs", "programs"], "every joint value over a family of trees with revolute, continuous, prismatic and fixed joints on any axis",
     "Tests use one or two robot files and random joint angles.",
     ["torchkin/torchkin/forward_kinematics.py", "torchkin/torchkin/joint.py", "torchkin/torchkin/robot.py"],
     [("ForwardKinematicsFactory", "torchkin/torchkin/forward_kinematics.py"), ("Joint.relative_pose", "torchkin/torchkin/joint.py")])

prop("P23", "Gaussians on manifolds transport as specified",
     "Localizing and retracting Gaussians on manifolds gives the mean and precision of the documented formulas, and the resulting "
     "precision is symmetric; retracting the localized Gaussian gives the original back; samples drawn by the layer have the Gauss-Newton step as mean "
     "and the inverse of the approximate Hessian over the temperature as covariance.",
     ["inputs"], "every mean, tangent mean and precision value over vector and Lie group variables; every draw over vector variables",
     "Tests sample random Gaussians.",
     ["theseus/optimizer/manifold_gaussian.py", "theseus/theseus_layer.py"], [("retract_gaussian/local_gaussian", "theseus/optimizer/manifold_gaussian.py")])

prop("P24", "Signed distance queries interpolate the field and differentiate consistently",
     "A signed distance query returns the bilinear interpolation of the grid at the point, continuous across cells, with a jacobian that is its exact "
     "derivative; collision and contact costs are the documented hinge of that distance with exact jacobians.",
     ["inputs"], "every grid value, cell size, origin and query point inside the grid",
     "Tests sample points and one map.",
     ["theseus/embodied/collision/signed_distance_field.py", "theseus/embodied/collision/collision.py",
      "theseus/embodied/collision/eff_obj_contact.py", "theseus/embodied/kinematics/kinematics_model.py"],
     [("SignedDistanceField2D.signed_distance", "theseus/embodied/collision/signed_distance_field.py")])

prop("P25", "Sparse matrix products and their gradients equal the dense ones",
     "Batched sparse matrix-vector and transpose products, and their hand-written gradients, equal the dense computations for any structure, "
     "including empty rows and repeated use; gathering per-batch elements selects the requested one.",
     ["inputs", "programs"], "every matrix and vector value over a family of sparsity patterns, including empty rows and columns",
     "Tests use random patterns and values.",
     ["theseus/utils/sparse_matrix_utils.py", "theseus/utils/utils.py"],
     [("sparse_mv, sparse_mtv", "theseus/utils/sparse_matrix_utils.py")])

prop("P26", "Multi-label projection and cross-entropy updates respect their constraints",
     "The limited multi-label projection returns values in (0,1) that sum to the requested count, in the order of the inputs, and its gradient is the "
     "implicit derivative of that projection; the differentiable cross-entropy update is the weighted mean and deviation of the samples.",
     ["inputs"], "every input vector of bounded size", "Tests sample random vectors.",
     ["theseus/third_party/lml.py", "theseus/optimizer/nonlinear/dcem.py"],
     [("LML_Function", "theseus/third_party/lml.py"), ("DCEM", "theseus/optimizer/nonlinear/dcem.py")])

prop("P27", "Group elements made from data are valid, or refused",
     "Constructing SO2, SE2, SO3 or SE3 from data gives an element satisfying the group constraints: valid data is kept, other data is normalized to the "
     "nearest element or, under strict checks, refused; hat/vee and quaternion checks refuse invalid data; "
     "random and identity constructors give valid elements; the context managers that switch validation restore its state, also after an exception.",
     ["inputs", "programs"], "every planar datum, quaternion and hat vector, every rotation, and families of distorted matrices; nested contexts",
     "Tests check a few random valid and invalid tensors, mostly with the checks disabled.",
     ["theseus/geometry/so2.py", "theseus/geometry/se2.py", "theseus/geometry/so3.py", "theseus/geometry/se3.py", "theseus/geometry/lie_group_check.py",
      "theseus/global_params.py", "torchlie/torchlie/functional/so3_impl.py", "torchlie/torchlie/functional/se3_impl.py",
      "torchlie/torchlie/functional/check_contexts.py"],
     [("LieGroup._check_tensor", "theseus/geometry/lie_group.py"), ("check_group_tensor/normalize", "torchlie/torchlie/functional/so3_impl.py")])

prop("P28", "Lie tensors act as elements of their group and refuse the rest",
     "Methods, operators and constructors of Lie tensors give the functional group operation on their data, of the same group type; operations that are not "
     "defined on the group are refused; gradients are Riemannian, and in-place updates and torch optimizers move along the group, a*exp(alpha*projected gradient).",
     ["inputs", "programs"], "every element, vector and matrix of bounded batch size, two optimizer steps",
     "Tests sample random elements and one optimizer run.",
     ["torchlie/torchlie/lie_tensor.py", "torchlie/torchlie/types.py", "theseus/geometry/utils.py"],
     [("LieTensor", "torchlie/torchlie/lie_tensor.py"), ("LieGroupTensor", "theseus/geometry/utils.py")])


NOTE = {}


def main():
    checks = sorted(os.listdir(os.path.join(ROOT, "checks")))
    man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=["public API return values"], hook_needed=None))
            f.write(json.dumps(d) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            have = any(c.startswith(p["id"].lower() + "_") for c in checks)
            if have and not p["na"]:
                cmd = "/opt/venv/bin/python checks/run.py " + p["id"]  # thorough: the same check over more cases, larger shapes and longer solver time
                man["checks"].append(dict(
                    property=p["id"], quick_cmd=cmd, thorough_cmd="env VERIF_TIER=thorough " + cmd, technique="symbolic execution of the real Python code on "
                    "symbolic tensors; identities and path conditions decided by polynomial normalisation and z3; counterexamples replayed",
                    level="other", level_note=p["note"] or
                    "For all real values within the stated shapes/structures (bounded); real arithmetic stands for floating point, "
                    "comparison thresholds are the real ones. Trusted: the symbolic tensor semantics of the torch operations (validated "
                    "on a concrete witness of every path), the normaliser, z3."))
            else:
                man["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
