AI = "abstract interpretation of the type-checked MIR"
TRUST = ("Sound up to the trusted base: rustc's MIR, the models of std/wide functions in lib/models.py and the algebraic normal form in "
         "lib/alg.py; items the analysis cannot decide are listed as undecided in the evidence and raise no alarm.")
PROPS = [
 dict(id="P01", title="All evaluation engines compute the same function",
      statement="A compiled expression has one meaning: evaluating a point alone, in a batch, in the vectorised part of a batch or in its "
                "scalar remainder gives the same value up to floating-point rounding. Every operation of the compiled form consumes and "
                "produces the same number of values in every engine, equal to the declared effect, and every lane of a vectorised "
                "operation computes the scalar operation of that lane.",
      over=["programs", "inputs"], for_all="every compiled program and every input vector, in all evaluation engines",
      why="Tests compare a few expressions at a few points; about 100 operations exist in four hand-written engines and most pairs "
          "(operation, engine, special case) are never executed.",
      files=["src/evaluator/execution.rs", "src/evaluator/simd.rs", "src/evaluator/stack.rs", "src/evaluator/instruction.rs"],
      mech=[("scalar and SIMD dispatch loops", "src/evaluator/execution.rs, src/evaluator/simd.rs"), ("declared stack effects", "src/evaluator/instruction.rs")],
      technique=AI + ": per-instruction effect extraction in each executor and comparison by normal form",
      note="Per-instruction transfer functions of all executors are extracted for every path and compared pairwise. " + TRUST),
 dict(id="P02", title="Batch evaluation: each point gets its own inputs and its own output slot",
      statement="For every number of points, batch evaluation writes exactly one result per point: output i is the value of the expression at "
                "row i of the columns. Wrong column counts, unequal column lengths and short outputs are rejected before anything is read, "
                "and the parallel driver splits inputs and output at the same places and reports every error.",
      over=["inputs"], for_all="all numbers of points, column sets and output lengths",
      why="Batch sizes interact with the vector width (remainders, chunk edges); tests use a handful of sizes.",
      files=["src/evaluator/simd.rs"], mech=[("chunk and remainder loops", "src/evaluator/simd.rs: eval_batch"), ("parallel chunking", "src/evaluator/simd.rs: eval_batch_parallel")],
      technique=AI + ": loop summaries, index coverage, dominance of validation",
      note="Stores are traced to the executor results symbolically; index coverage is evaluated on the extracted quasi-affine loop "
           "summaries for 0..40 points and sizes around 64 and 256 (the summaries have the vector width as period). " + TRUST),
 dict(id="P03", title="Bytecode optimisation never changes what a program computes",
      statement="Every optimisation of the compiled form (fusing, cancelling or reordering neighbouring operations, removing unused stores, "
                "sharing constants, reusing temporary slots) leaves the value of every program unchanged over the reals wherever the original "
                "program is defined. It also leaves the number of values on the operand stack unchanged.",
      over=["programs"], for_all="every instruction sequence the compiler can hand to the optimiser",
      why="Rewriting windows fire only for particular neighbouring instructions; tests reach a few of the windows and constants.",
      files=["src/evaluator/mod.rs"], mech=[("peephole patterns", "src/evaluator/mod.rs: peephole_optimize"), ("fusion", "src/evaluator/mod.rs: fuse_muladd"),
                                           ("constant sharing", "src/evaluator/mod.rs: deduplicate_constants")],
      technique=AI + ": before/after symbolic stack composition of every rewriting path",
      note="Each path of each rewriting loop is one obligation: the composed effects of consumed and emitted instructions must agree. " + TRUST),
 dict(id="P04", title="Evaluation buffers are always large enough",
      statement="Whatever the expression and whatever buffer a caller provides, evaluation never accesses its operand stack or its temporary "
                "slots beyond the memory reserved for them. The depth recorded for a compiled expression covers the deepest point of the "
                "program that is really executed.",
      over=["programs", "inputs"], for_all="all compiled programs and all caller-provided buffers",
      why="Overflow needs expressions nested beyond the inline limits or buffers with particular capacities, and shows up as silent memory "
          "corruption rather than as a failing assertion.",
      files=["src/evaluator/mod.rs", "src/evaluator/execution.rs", "src/evaluator/simd.rs"],
      mech=[("recorded stack depth", "src/evaluator/mod.rs: compile"), ("inline/heap choice", "src/evaluator/execution.rs: evaluate; src/evaluator/simd.rs: eval_batch")],
      technique=AI + ": provenance of buffers and dominating size conditions at unchecked accesses",
      note="Assumes safe code does not overwrite the evaluator's public fields after compilation. " + TRUST),
 dict(id="P07", title="Derivative rules of the built-in functions are their derivatives",
      statement="For every built-in function f, every position of the differentiated argument and every integer order, symbolic "
                "differentiation multiplies the derivative of the argument by the true partial derivative of f wherever f is differentiable "
                "and real, including negative arguments and degenerate orders.",
      over=["inputs"], for_all="all 60 built-in functions, all argument positions, all points of the domain",
      why="Tests check a few functions at a few (mostly positive) points; special functions with several arguments, negative branches and "
          "degenerate orders are not sampled.",
      files=["src/functions/definitions.rs"], mech=[("derivative closures", "src/functions/definitions.rs: all_definitions")],
      technique=AI + ": formula extraction from the rule closures and identity testing against independent definitions",
      note="The rule closures are interpreted on opaque arguments; the resulting formula is compared with the derivative of an independent "
           "definition (mpmath) at sample points on every branch: identity testing, not a proof of the identity. " + TRUST),
 dict(id="P08", title="Symbolic differentiation follows the rules of calculus at every node",
      statement="Differentiating a sum, product (of any number of factors), quotient, power, polynomial, function call or unevaluated "
                "derivative gives the derivative prescribed by calculus in terms of its parts and their derivatives: every argument of a "
                "call contributes, registered partial derivatives of user functions are always used, constant parts contribute zero and "
                "shortcuts for special values never change the result.",
      over=["inputs"], for_all="all expressions, variables and registered user functions",
      why="The rules have many shortcuts (literal parts, zero or unit derivatives, constant base or exponent, long products); tests reach few "
          "of the combinations.",
      files=["src/diff/engine.rs", "src/core/poly.rs"], mech=[("derivative of each node", "src/diff/engine.rs: derive_impl"), ("polynomials", "src/core/poly.rs: derivative, derivative_expr")],
      technique=AI + ": closed form of every path per expression variant, compared with the rules of calculus",
      note="The recursion is cut at the children (their derivatives are symbols), so the argument is inductive; up to three children per node "
           "(eleven for long products), and valuations of the children (value, literal or not, mentions the variable, derivative literal 0/1) on "
           "every path: identity testing at those valuations. " + TRUST),
 dict(id="P05", title="Compilation preserves the meaning of every expression node",
      statement="Compiling an expression produces instructions that compute the value of the expression: for every kind of node (number, "
                "symbol, sum, product, quotient, power with any exponent, polynomial over any base, call of any built-in function), for every "
                "special case the compiler treats separately, constant folding, the constant pool, the mapping of symbols to parameters and the "
                "reuse of cached subexpressions, the emitted code leaves exactly the value of the node on the stack, and the stack depth the "
                "compiler records covers it.",
      over=["inputs"], for_all="all expression kinds and every special case of the compiler",
      why="The compiler has dozens of pattern-dependent special cases (powers, x/x, sin(x)/x, exp(x)-1, sparse and high-degree polynomials, "
          "repeated factors and subexpressions); a test reaches a handful of combinations at a handful of points.",
      files=["src/evaluator/compiler.rs", "src/evaluator/mod.rs"],
      mech=[("translation of each node", "src/evaluator/compiler.rs: compile_expr, compile_division, compile_pow, compile_product, compile_polynomial"), ("constant folding", "src/evaluator/compiler.rs: try_eval_const"), ("caching", "src/evaluator/compiler.rs: cse_cache")],
      technique=AI + ": denotation of the emitted code per path of the compiler, compared with the meaning of the node",
      note="The recursion is cut at the children (code that leaves the child's value), so the argument is inductive over expressions; children are "
           "drawn from trees of bounded size that reach every branch of the compiler; formulas are compared at sample points over the reals "
           "(identity testing, not rounding). User-defined functions are outside. " + TRUST),
 dict(id="P06", title="The function table: every built-in name denotes its function",
      statement="Every built-in function evaluates to the mathematical function it is named after, on every branch of its definition (both "
                "signs, all integer orders, all argument ranges it treats separately), gives a real value only inside its domain, declares the arity of that "
                "function and is known to the lexer under its name; operator names, aliases and the named constants (pi, PI, Pi, e, E) mean the "
                "same everywhere.",
      over=["inputs"], for_all="all built-in functions, names and constants; all branches of the numeric kernels",
      why="Kernels switch algorithms by sign, magnitude and order (series, recurrences, reflections, asymptotics); tests check one or two values "
          "per function, so a whole range of arguments can be wrong unnoticed.",
      files=["src/functions/definitions.rs", "src/math/special.rs", "src/math/bessel.rs", "src/math/polynomials.rs", "src/math/elliptic.rs", "src/parser/tokens.rs", "src/parser/lexer.rs", "src/core/known_symbols.rs"],
      mech=[("evaluation rules", "src/functions/definitions.rs: all_definitions"), ("numeric kernels", "src/math/*"), ("names", "src/parser/tokens.rs: Operator; src/parser/lexer.rs: BUILTINS"), ("constants", "src/core/known_symbols.rs")],
      technique=AI + ": closed form (with loop equations) of every path of every rule and kernel, compared with an independent definition",
      note="The extracted formulas and loop equations are evaluated over the reals at sample points of every branch and compared with independent "
           "definitions (mpmath) up to 3e-6 for kernels: rounding, overflow and finer accuracy are outside. zeta_deriv of order >= 5 left of 1 is not reduced. " + TRUST),
dict(id="P09", title="API methods and operators build the expression they name",
 statement="Every arithmetic operator and every method named after a mathematical function on Symbol, Expr, Arc<Expr> handles, numbers on "
           "the left-hand side, and on the Python Expr and Symbol classes (including the reflected operators such as __rsub__ and __rpow__, "
           "and every accepted operand type) builds an expression denoting exactly that operation of its operands: operands in their "
           "documented places (receiver as the argument, parameters as order, base or second argument), numbers unchanged, and "
           "conversions between handles preserve the value.",
 over=["inputs"], for_all="all operands of every operator and method of the Rust and Python interfaces",
 why="About 450 operator and method instances are generated by macros or written by hand for combinations of owned, borrowed, symbol, number and "
     "Python operands; tests call a fraction of them and the Python ones not at all.",
 files=["src/core/symbol/operators.rs","src/core/symbol/math_methods.rs","src/core/symbol/mod.rs","src/bindings/python/expr.rs","src/bindings/python/symbol.rs"],
 mech=[("operators","src/core/symbol/operators.rs: impl_binary_ops, ArcExprExt"),("methods","src/core/symbol/math_methods.rs"),("Python classes","src/bindings/python/expr.rs, symbol.rs")],
 technique=AI+": denotation of every returned path compared with the named function at separating sample operands",
 note="The expression constructors are free symbols here (their own bodies are P11's subject), operands are opaque. Identity testing at up to five points per function. "+TRUST),
 dict(id="P10", title="Every simplification rule preserves the value of what it rewrites",
 statement="Whenever a simplification rule rewrites an expression, the new expression has the same value as the old one at every point where "
           "both have a value (for rules that declare that they alter the domain, at least on part of it), up to the tolerance of 1e-14 "
           "within which literals count as special constants (no computed value is taken for zero because it is small), and the rule does not panic. In the domain-safe mode, "
           "a rule that is still applied there must in addition be defined wherever the original was: in particular the sign of an "
           "even power, roots of negative numbers and quotients of negative parts survive.",
 over=["inputs"], for_all="all expressions a rule matches, all values of the variables, default and domain-safe mode",
 why="About 120 pattern-matching rules rewrite terms wherever they match; the tests try a few matches per rule, at positive arguments. A pattern that matches a "
     "little too much, a lost sign, or a swapped factor gives a plausible but wrong formula.",
 files=["src/simplification/rules/*/*.rs","src/simplification/helpers.rs","src/simplification/engine.rs"],
 mech=[("rules","src/simplification/rules: trait Rule and its implementations"),("helpers","src/simplification/helpers.rs, rules/hyperbolic/helpers.rs")],
 technique=AI+": closed form of every rewriting path of every rule, compared as functions with the expression matched under the path condition",
 note="Lists of up to three terms; rules whose paths are too many are explored by a bounded selection of paths (counted in the evidence). Values are compared at "
      "eight points per instance of a path condition, corners (0^0, poles) excepted. Termination and strength of the simplification are not covered. "+TRUST),
dict(id="P11", title="Expression constructors denote the operation they name",
 statement="Building an expression with the constructors (sum, product, the flat and the Arc variants, add, sub, mul, div, pow, negate, number, "
           "polynomial) yields an expression whose value is that operation of the operands, whatever the operands are: flattening, "
           "collecting of numbers, merging of like terms, folding of numeric quotients and powers, and conversion of sums to polynomials "
           "neither lose, duplicate nor merge operands that are not structurally equal (a hash collision included), keep the numbers "
           "however small they are, and do not panic.",
 over=["inputs"], for_all="all operands and operand lists of every constructor",
 why="Every expression the library handles passes through these constructors, which rewrite eagerly under many special cases; tests check a few shapes, "
     "and cannot provoke a hash collision.",
 files=["src/core/expr/constructors.rs","src/core/expr/mod.rs","src/core/expr/analysis.rs"],
 mech=[("constructors","src/core/expr/constructors.rs: Expr::sum ... pow_static"),("merging","src/core/expr/constructors.rs: finalize_sum, finalize_product")],
 technique=AI+": denotation of every path of a constructor compared with the operation, other constructors and polynomial operations as contracts",
 note="Lists of up to three operands, nested lists of two. The order that sorting gives is taken as arbitrary. 0/0, 0^0 and literals within 1e-14 of a special constant are excepted. "+TRUST),
dict(id="P12", title="Polynomials compute polynomial algebra and keep their representation",
 statement="Sum, difference, product, negation, powers, scaling, derivative, division with remainder, exact division and gcd of polynomials with a common base "
           "denote the algebraic operation of their arguments (division: dividend = quotient * divisor + remainder with a remainder of lower degree; "
           "a gcd divides both arguments), conversion from and to expressions and evaluation keep the value, and every polynomial "
           "built keeps its terms in strictly ascending powers without zero coefficients; no coefficient is dropped because it is small "
           "in absolute terms, and degrees too large for the power type are refused, not wrapped.",
 over=["inputs"], for_all="all polynomials (any coefficients, degrees and bases) and expressions converted to them",
 why="Sums are converted to polynomials silently, so a wrong coefficient, an unsorted or duplicate term breaks simplification, differentiation and evaluation far away; "
     "tests check a few small integer polynomials.",
 files=["src/core/poly.rs"],
 mech=[("polynomial","src/core/poly.rs: Polynomial"),("conversion","src/core/poly.rs: try_from_expr, to_expr")],
 technique=AI+": every path of a polynomial operation on symbolic term lists compared with the algebraic operation and the representation invariant",
 note="Term lists of up to three terms per polynomial, with the loops unrolled. Rounding of coefficients is outside. "+TRUST),
dict(id="P13", title="Dual numbers carry the value and the exact derivative",
 statement="Every arithmetic operator (with its assigning form), every Float and Signed method, every constant and conversion and every special function of "
           "Dual, and every operator and method of the Python Dual class (reflected operators, int, float and Dual operands included), returns a "
           "dual whose val is the function of the vals and whose eps is the sum of the partial derivatives times the eps of the arguments, "
           "wherever the function is differentiable: at zero and negative arguments, for integer powers of zero and negative bases, for "
           "negative and zero orders, and for both arguments of binary functions; step functions have eps zero, and arguments where the function "
           "is undefined give None (an exception in Python) or a NaN, never a number.",
 over=["inputs"], for_all="all dual arguments of every operator, method and special function, in Rust and Python",
 why="About 160 hand-written value/derivative pairs; tests check a few functions at one or two positive points and the Python class not at all.",
 files=["src/math/dual.rs","src/bindings/python/dual.rs","src/core/traits.rs"],
 mech=[("dual numbers","src/math/dual.rs: Dual"),("Python class","src/bindings/python/dual.rs: PyDual")],
 technique=AI+": value and eps parts of every path compared with the function and its partial derivatives",
 note="Identity testing at 10 to 100 points per method (8 positive and negative values, 0 and values next to it where the function is smooth there). Rounding is outside; the eps of %, which the code documents as zero, is not compared. "+TRUST),
]
