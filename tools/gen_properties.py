#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python for readable line breaks)."""
import json, os
L = "libeantic/"
def P(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
PROPS = [
P("C01", "Field arithmetic is exact",
  "For elements of the same real embedded number field, and for elements combined with integers of every machine width, arbitrary precision integers or rationals, addition, subtraction, multiplication, division, negation, inversion and powers return exactly the algebraic number that the mathematics prescribes, in every degree, in the C and in the C++ interface. "
  "This holds regardless of whether result and operands are the same object, of what the result object contained before, and the operands that are not the result are left unchanged in value.",
  ["inputs", "histories"], "all fields, all operands including huge, tiny, zero and non-reduced ones, all aliasing patterns and all previous contents of the result",
  "Tests sample a few operands in a few fields and compare the library with itself; the representation switches with the degree of the field and with the size of the coefficients, so that each operation is many code paths.",
  [L+"src/renf_elem/", L+"srcxx/renf_elem_class.cpp", L+"e-antic/renf_elem.h", L+"e-antic/renf_elem_class.hpp"],
  [("coefficient arithmetic per representation", L+"src/renf_elem/{add,sub,mul,div,inv,pow,neg}*.c"), ("C++ operators and coercion of integers and rationals", L+"srcxx/renf_elem_class.cpp binop/relop helpers")]),
P("C02", "Every cached real enclosure contains the value it stands for",
  "After any sequence of operations, the real interval that an element carries contains the true real value of that element, and the interval that a caller obtains from it at a requested precision contains the true value and is as accurate as requested. "
  "Evaluating a polynomial on an interval yields an interval that contains the value of the polynomial at each point of that interval.",
  ["inputs", "histories"], "all sequences of constructions, assignments, arithmetic and refinements at all precisions, also when the enclosures start out wide or exact",
  "A wrong enclosure shows up as a wrong sign or rounding only for values that are close to the point of comparison; tests never compare enclosures with an independent value.",
  [L+"src/renf_elem/", L+"src/fmpz_poly_extra/evaluate.c", L+"src/fmpq_poly_extra/"],
  [("ball arithmetic along with exact arithmetic", L+"src/renf_elem/*.c, field .emb"), ("evaluation of coefficients at the generator", L+"src/renf_elem/set_evaluation.c"), ("requested precision", L+"src/renf_elem/get_arb.c")]),
P("C03", "Comparisons decide the true order of the reals",
  "Comparison, equality and sign, between elements of a field and with integers and rationals of all types, agree with the order of the real numbers that the operands denote, no matter how close they are to each other. "
  "In particular two elements compare equal exactly when they denote the same number, and the comparison never modifies the operands, fails or runs forever.",
  ["inputs", "histories"], "all pairs of operands, in particular pairs that agree to hundreds of bits, and all current accuracies of the cached enclosures",
  "The answer is decided by interval arithmetic with adaptive precision; only operands that are much closer than the current accuracy exercise the refinement loops.",
  [L+"src/renf_elem/cmp*.c", L+"src/renf_elem/equal*.c", L+"src/renf_elem/sgn.c", L+"srcxx/renf_elem_class.cpp"],
  [("adaptive comparison", L+"src/renf_elem/cmp.c, cmp_fmpq.c, cmp_fmpz.c"), ("C++ relations with all integer types", L+"srcxx/renf_elem_class.cpp operator==, operator<, ...")]),
P("C04", "Rounding and floor division are exact",
  "Floor, ceiling, floor division and continued fraction expansions return the exact integers of the true real values, also for negative numbers, for integers, and for values extremely close to an integer.",
  ["inputs", "histories"], "all elements and all pairs of dividend and non-zero divisor, all current accuracies of the cached enclosures",
  "Errors occur only for values close to an integer, at a precision boundary or for negative values; tests round a handful of small numbers.",
  [L+"src/renf_elem/floor_ceil.c", L+"src/renf_elem/rounding_template.h", L+"src/renf_elem/fdiv.c", L+"src/renf_elem/get_cfrac.c", L+"srcxx/renf_elem_class.cpp"],
  [("rounding with refinement", L+"src/renf_elem/floor_ceil.c, rounding_template.h"), ("floor division", L+"src/renf_elem/fdiv.c, renf_elem_class::floordiv"), ("continued fractions", L+"src/renf_elem/get_cfrac.c")]),
P("C05", "Conversion to double is correctly rounded",
  "Converting an element to a floating point number returns the double that IEEE arithmetic prescribes for its true real value in the requested rounding direction, in particular the nearest double in the C++ conversion, for normal and subnormal results.",
  ["inputs", "histories"], "all elements whose absolute value does not exceed the largest double, all rounding directions, all current accuracies of the cached enclosures",
  "Double rounding and wrong ties only show for values next to a rounding boundary, e.g., near the middle of two doubles or in the subnormal range.",
  [L+"src/renf_elem/get_d.c", L+"srcxx/renf_elem_class.cpp"],
  [("rounding with refinement", L+"src/renf_elem/get_d.c"), ("conversion operator", L+"srcxx/renf_elem_class.cpp operator double")]),
P("C06", "Fields denote the requested root and bad requests are refused",
  "A field constructed from a polynomial and an approximate root is the field of that polynomial embedded at the one real root described, whatever the given precision, and it knows the root to the precision that was asked for; asking for all embeddings of a polynomial delivers each of its real roots exactly once and in increasing order. "
  "Copies and fields for the same root compare equal, fields for different roots do not; textual descriptions that are malformed or do not describe exactly one root are refused with an exception and have no other effect. "
  "The random polynomials, fields and elements that the library offers are irreducible, embedded and valid for every seed.",
  ["inputs", "configurations"], "all irreducible polynomials with a real root, each of their real roots, every enclosure that isolates the root, all precisions, and arbitrary other descriptions",
  "Whether the root is identified depends on root separation, scale and precision; tests use a few well separated roots.",
  [L+"src/renf/", L+"srcxx/renf_class.cpp"],
  [("construction", L+"src/renf/init.c, init_set.c, init_nth_root.c"), ("all embeddings", L+"src/renf/set_embeddings_fmpz_poly.c"), ("equality", L+"src/renf/equal.c"), ("C++ factories", L+"srcxx/renf_class.cpp make"), ("random fields", L+"src/renf/randtest.c, src/fmpz_poly_extra/randtest_irreducible.c")]),
P("C07", "Results do not depend on precision or on history",
  "A computation gives the same exact values, signs, comparisons, roundings, floating point numbers, exact texts and hashes no matter with which precision or isolating interval its field was created, which unrelated operations refined the field or its elements before, and whether intermediate results were copied.",
  ["histories", "configurations"], "all programs over elements of a field, run under two configurations of precision, isolating interval and interleaved refinements",
  "Caches of approximations are updated behind the scenes by reading operations; a test runs a computation only once under one configuration.",
  [L+"src/renf/", L+"src/renf_elem/", L+"srcxx/renf_class.cpp", L+"srcxx/renf_elem_class.cpp"],
  [("shared, mutable enclosure of the generator", L+"src/renf/refine_embedding.c"), ("lazy refinement by observers", L+"src/renf_elem/{cmp*,floor_ceil,get_d,get_arb}.c")]),
P("C08", "Real roots of integer polynomials are counted and isolated exactly",
  "For squarefree integer polynomials the numbers of real roots on the line and in the unit interval are exact, upper bounds for the number and the size of the roots are upper bounds, and isolation returns for each real root exactly one disjoint interval or the exact value, in increasing order; squarefree part and substitutions preserve the roots.",
  ["inputs"], "all non-zero integer polynomials: sparse, with huge coefficients, with clustered, rational, dyadic or negative roots",
  "The bisection tree and the sign change counts depend on the position of all roots relative to dyadic points; tests use products of few random factors.",
  [L+"src/fmpz_poly_extra/"],
  [("Descartes/Vincent isolation", L+"src/fmpz_poly_extra/isolate_real_roots.c, descartes_bound_0_1.c"), ("counts", L+"src/fmpz_poly_extra/num_real_roots_*.c, has_real_root.c"), ("root bound", L+"src/fmpz_poly_extra/positive_root_upper_bound_2exp.c")]),
P("C09", "Refining the generator stays on the selected root and makes progress",
  "Each refinement of the approximation of the generator yields an interval inside the previous one that still contains the selected root and no other, and reaches any requested accuracy in finitely many steps. "
  "A real interval is accepted as describing a unique root of a polynomial if, and only if, it contains exactly one root (roots at the very end points aside).",
  ["inputs", "histories"], "all irreducible polynomials and isolating intervals, in particular with roots that are extremely close to each other, huge or tiny, all sequences of requested precisions",
  "Newton steps and bisection steps fail only for badly conditioned roots and wide intervals.",
  [L+"src/renf/refine_embedding.c", L+"src/fmpz_poly_extra/newton_step_arb.c", L+"src/fmpz_poly_extra/bisection_step_arb.c", L+"src/fmpq_poly_extra/check_unique_real_root.c"],
  [("refinement loop", L+"src/renf/refine_embedding.c"), ("interval Newton and bisection step", L+"src/fmpz_poly_extra/*_step_arb.c"), ("uniqueness test", L+"src/fmpq_poly_extra/check_unique_real_root.c")]),
P("C10", "Text input and output round-trip and malformed text is refused",
  "The exact text of every element or polynomial reads back as the same value, through strings and through streams, and each well formed expression, in whatever order, spacing and notation of its terms, is read as the value it denotes. "
  "The approximate part of a text is correct to the digits shown; malformed text is refused with an error and never crashes, hangs or changes unrelated values.",
  ["inputs"], "all elements in all fields and with all generator names, all well formed expressions, all byte strings",
  "The space of texts is unbounded and the parser is written by hand; tests parse a few fixed strings.",
  [L+"src/fmpq_poly_extra/set_str_pretty.c", L+"src/fmpz_poly_extra/set_str_pretty.c", L+"src/renf_elem/get_str_pretty.c", L+"srcxx/renf_elem_class.cpp", L+"srcxx/renf_class.cpp"],
  [("parser", L+"src/fmp?_poly_extra/set_str_pretty.c"), ("printing", L+"src/renf_elem/get_str_pretty.c, renf_elem_class::to_string"), ("streams", L+"srcxx/renf_class.cpp operator>>, operator<<")]),
P("C11", "Serialization restores equal values in the same shared fields",
  "Saving elements and fields to an archive and loading them again, in the same process or after the original field is gone, yields equal values in equal fields, elements that shared a field share it again, and several fields in one archive are never confused. "
  "The description of its construction that a field reports recreates the identical field. JSON archives in the format of versions before 1.0 are still read.",
  ["inputs", "histories"], "all fields and elements, all archives of several elements and fields in any order, saved and loaded after arbitrary creations and destructions of fields",
  "The archive tracks shared fields by identity and describes the root by a decimal approximation; failures need several fields, reuse of memory, or close roots.",
  [L+"e-antic/cereal.hpp", L+"srcxx/renf_class.cpp", L+"srcxx/renf_elem_class.cpp"],
  [("archives", L+"e-antic/cereal.hpp"), ("construction data", L+"srcxx/renf_class.cpp construction, make")]),
P("C12", "Fields are unique parents and live exactly as long as they are used",
  "At any time two fields with the same polynomial, root and generator name are the same object and fields that differ in any of these are different objects. "
  "A field stays valid for as long as any handle or element refers to it and is released when the last one goes away, after which it can be created again.",
  ["histories"], "all sequences of creating fields in different ways, creating, copying, moving, reassigning and destroying elements and handles",
  "Use after free, lost references and duplicates show only for particular orders of creation and destruction.",
  [L+"srcxx/renf_class.cpp", L+"e-antic/renf_class.hpp", L+"srcxx/renf_elem_class.cpp"],
  [("registry of fields", L+"srcxx/renf_class.cpp make, fields"), ("reference counting", L+"srcxx/renf_class.cpp intrusive_ptr_add_ref/release")]),
P("C13", "Elements are values that move between fields only when that is exact",
  "Copies, moves, swaps and assignments transfer the exact value and the field, a moved-from element can be assigned again, and copies never influence each other. "
  "Operations that mix fields succeed exactly when an operand is rational, with the exact result, and are refused with an exception that leaves the operands unchanged otherwise; in strict mode all arithmetic between two different fields other than the rationals is refused.",
  ["histories", "inputs", "configurations"], "all sequences of constructions, assignments and operations over elements of several fields, including self-assignment and in-place operators",
  "Value semantics can only be violated through histories: an alias, a moved-from element, or a particular mixture of fields.",
  [L+"srcxx/renf_elem_class.cpp", L+"e-antic/renf_elem_class.hpp"],
  [("special members", L+"srcxx/renf_elem_class.cpp constructors, operator=, swap"), ("coercion between fields", L+"srcxx/renf_elem_class.cpp binop, relop, promote")]),
P("C14", "Predicates, parts, conversions and hashes reflect the exact value",
  "Tests for zero, one, integer and rational, numerator and denominator, coefficient vector, content, and conversions to integers and rationals agree with the exact value of an element, independent of how it was computed; conversions to integers and rationals require integers and rationals. "
  "Equal elements have equal hashes, and an element that changes and changes back hashes the same again.",
  ["inputs", "histories"], "all elements, all ways to compute the same element",
  "Normalisation may depend on the computation that produced an element; tests look at freshly constructed ones.",
  [L+"src/renf_elem/is_*.c", L+"srcxx/renf_elem_class.cpp", L+"src/renf_elem/"],
  [("predicates", L+"src/renf_elem/is_*.c"), ("parts and conversions", L+"srcxx/renf_elem_class.cpp num, den, num_vector, num_content, operator mpz_class"), ("hash", L+"srcxx/renf_elem_class.cpp std::hash")]),
P("C15", "No operation leaks memory or touches memory it does not own",
  "Each operation of the C and C++ interfaces, including the ones that fail with an exception or an error, releases all memory that it does not hand out, and never reads or writes memory out of bounds, uninitialised or already released.",
  ["inputs", "histories"], "all operations, on all operands, including refused constructions and refused texts",
  "The tests do not watch memory, and leaks are mostly on error paths and early returns.",
  [L+"src/"],
  [("explicit init/clear pairs", L+"src/**/*.c"), ("exceptions between them", L+"srcxx/renf_class.cpp, srcxx/renf_elem_class.cpp")]),
P("C16", "The Python interface agrees with the exact values",
  "From Python, fields and elements built from strings, integers, GMP rationals, coefficient lists and realalg numbers denote the described values, and arithmetic, comparison, rounding, hashing, printing and pickling give the exact results; unsuitable arguments raise exceptions.",
  ["inputs", "histories"], "all Python expressions over elements and Python numbers, including integers beyond machine size",
  "Conversions happen in glue code that depends on argument types and sizes; tests use small integers.",
  ["pyeantic/src/pyeantic/", L+"e-antic/"],
  [("Python wrapper", "pyeantic/src/pyeantic/cppyy_eantic.py"), ("conversions of real algebraic numbers", "pyeantic/src/pyeantic/realalg_conversion.py"), ("templates used from Python", L+"e-antic/cppyy.hpp")]),
P("C17", "Fields may be created, shared and released by several threads at once",
  "When threads concurrently create fields, equal and different ones, and copy, use and release independent elements and handles, there is no data race, uniqueness of fields holds throughout, and every field is released exactly once.",
  ["schedules", "histories"], "all interleavings of programs of several threads that do not modify the same element",
  "Races between releasing the last handle and looking up the same field need a particular schedule.",
  [L+"srcxx/renf_class.cpp"],
  [("lock around the registry", L+"srcxx/renf_class.cpp fields_mutex"), ("atomic reference counts", L+"srcxx/renf_class.cpp intrusive_ptr_add_ref/release")]),
]
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
