#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code only so that the JSON stays valid)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="compile-time entry point in src/main.rs (cfg verif_hooks); the crate has no library target"
HL=H+"; guarded access to the private limit trait in src/compute/limit/mod.rs"
R="src/compute/num_aggregate/rules/"
p("C01","Folding preserves the value of an expression",
 "Folding the numbers of an expression (num_aggregate) gives an expression with the same value: for every assignment of real values to the variables at which the original is defined, the folded expression is defined too and equal to it, exactly when only integers and rationals are involved and up to floating-point rounding otherwise. This covers every operator (neg, +, -, *, /, sin, cos, exp, ln, ^), the named constants pi and e, and expressions of any depth.",
 ["inputs","programs"],"all expressions over all operators, integer/rational/real/named constants and variables, at all assignments where they are defined",
 "The tests fold a handful of expressions and mostly compare printed text; the rules are a product of operator, operand class (number kind, zero, one, pi, e, variable, operator) and nesting, of which they reach about fifteen points (pow and cos folding are not tested at all).",
 ["src/compute/num_aggregate/mod.rs"]+[R+f+".rs" for f in "add sub mul div neg sin cos exp ln pow".split()]+["src/smart_num/mod.rs","src/smart_num/val_holder.rs"],
 [("one rewrite rule per operator, children folded first",R)],["Expression::num_aggregate()"],hook=H)
p("C02","Folding is complete, idempotent and stays exact",
 "After folding, nothing foldable is left anywhere in the expression: no negation, sum, difference, product or quotient of only numbers (except a division by exact zero, which stays as it is and never becomes a number), no zero summand, no zero or one factor, no zero numerator over a nonzero divisor, no power with exponent 0 or 1 or base 1, no double negation, no recognised special value (sin, cos of 0 and pi; exp of 0, 1 and ln u; ln of 1, e and exp u); folding the result again changes nothing. Folding an expression over integers and rationals without exp never introduces a floating-point number: sin, cos, ln and powers of other numbers stay symbolic.",
 ["inputs","programs"],"all expressions",
 "No test folds twice or inspects what is left inside a result; completeness depends on every rule seeing every other rule's output shape.",
 ["src/compute/num_aggregate/mod.rs"]+[R+f+".rs" for f in "add sub mul div neg sin cos exp ln pow".split()],
 [("bottom-up folding with neutral-element rules",R)],["Expression::num_aggregate() applied once and twice"],hook=H)
p("C03","Number arithmetic is exact or refuses",
 "+, -, *, / and negation on numbers give the exact mathematical result whenever both operands are integers or rationals, sums, differences and products of integers being integers (named constants and other reals: the floating-point result, up to rounding), for all mixes of integer, rational and real operands; division by exact zero is outside this claim. If an exact result or intermediate does not fit the 64-bit representation the operation refuses (panics in a checked build) and never returns a wrong number; results that stay well inside 64 bits are never refused.",
 ["inputs","histories"],"all pairs of numbers of all kinds including the limits of the representation, and all chains of operations feeding results back",
 "Tests sweep integers in -100..100 with a 1e-9 float tolerance and rationals built from them; nothing near the 64-bit limits, no rational-rational or rational-real mix through the public number type, no chains.",
 ["src/smart_num/mod.rs","src/smart_num/val_holder.rs","src/smart_num/rational.rs"],
 [("promotion Integer -> Rational -> Real per operator","src/smart_num/val_holder.rs"),("cross-multiplication then reduce","src/smart_num/rational.rs"),("neutral-element shortcuts by tag","src/smart_num/mod.rs")],["SmartNum operators"],hook=H)
p("C04","Rationals stay canonical and compare by value",
 "Rational construction accepts exactly sign +1/-1 with a nonzero denominator. Every +, -, *, / (by a nonzero rational) and reduce of valid rationals yields a valid rational (sign +1 or -1, positive denominator) in lowest terms that denotes the exact result; == holds exactly when the two values are equal whatever their representation; negation, float conversion and printed text (sign, numerator/denominator) agree with the value.",
 ["inputs","histories"],"all rationals incl. unreduced ones, zeros of either sign and large components; all operation chains",
 "Tests check four fixed pairs per operator and three equalities; results that are zero, unreduced inputs, sign fields and the printed form are never inspected.",
 ["src/smart_num/rational.rs"],[("reduce by gcd after every operation","src/smart_num/rational.rs"),("PartialEq on reduced forms","src/smart_num/rational.rs")],["RationalNum operators, ==, Display, to_f64"],
 [("sign/nominator/denominator","value = sign*nominator/denominator","src/smart_num/rational.rs")],hook=H)
p("C05","Zero, one, pi and e marks are truthful",
 "A number reports is_zero or is_one exactly when it is an exact integer or rational with that value, however it was built or computed, and reports is_pi or is_e only when its value is that constant. Arithmetic with neutral elements (adding or subtracting exact zero, multiplying by exact one) keeps pi and e recognisable; every other arithmetic result is not marked as pi or e; what floats compute is marked zero only by an exact zero factor or dividend and never marked one; numbers and constants print as 0, 1, pi, e exactly when so marked.",
 ["inputs","histories"],"all numbers reachable by any chain of constructions and operations",
 "Marks are cached in a tag next to the value; tests only look at freshly built constants, so a tag that goes stale through some operation is invisible to them.",
 ["src/smart_num/mod.rs","src/smart_num/special_const.rs"],[("wrap_val re-derives the tag; shortcuts keep it","src/smart_num/mod.rs")],["SmartNum::is_zero/is_one/is_pi/is_e, Display"],
 [("tag","cached ConstType","src/smart_num/mod.rs")],hook=H)
p("C06","Conversions into and out of numbers keep the value",
 "Converting any primitive integer or float (i8..i64, u8..u64, f32, f64) to a number or expression keeps its exact value. Reading a number back is faithful: the integer view exists exactly for integers, the rational view exactly for integers and rationals, the float view is the nearest value up to rounding, the sign matches the value when it is not zero, and is_close/near(eps) answer whether the values differ by less than eps, strictly - an infinite value or one that is not a number is close to nothing - (near may refuse where the exact difference does not fit the representation).",
 ["inputs"],"all values of all primitive types incl. extremes; all pairs and tolerances",
 "Tests convert small i64/f64/u32/i32 only; the other eight conversions and the upper half of u64 are never exercised, nor are sign, rational views or near on close values.",
 ["src/smart_num/val_holder.rs","src/smart_num/mod.rs","src/ast/tree.rs","src/ast/op/operand.rs"],[("From<T> impls","src/smart_num/val_holder.rs"),("to_i64/to_f64/to_rational/sign","src/smart_num/mod.rs")],["SmartNum::from, Expression::from, to_*, sign, is_close, near"],hook=H)
D="src/compute/derivative/"
p("C07","Derivatives are mathematically correct",
 "The derivative of an expression with respect to a variable has, at every assignment where the expression is differentiable, the value of the partial derivative there (all other variables held constant), for every operator and every composition, including powers with constant or variable exponents and repeated differentiation. Over integers and rationals, without exp, the derivative is exact: no floating-point number appears in it.",
 ["inputs","programs"],"all expressions, all variables, all assignments where the expression is differentiable",
 "Tests compare printed text for six one-step derivatives; quotient, power, difference and negation rules and all nested chains are untested.",
 [D+"mod.rs"]+[D+"rules/"+f+".rs" for f in "add sub mul div neg sin cos exp ln pow".split()],[("one differentiation rule per operator, then folding",D+"rules/")],["Expression::derivative"],hook=H)
p("C08","Derivatives depend only on the named variable",
 "Differentiating with respect to a variable that does not occur in the expression (an expression that has a value somewhere) gives the number zero, differentiating a variable with respect to itself gives one, and variables match by exact name only. The derivative is fully folded and mentions no variable that the expression does not mention.",
 ["inputs","programs"],"all expressions and variable names, including names that are prefixes, case variants or extensions of each other",
 "Tests use single-letter names and check one partial derivative.",
 [D+"mod.rs"],[("name comparison at the leaves, folding at every level",D+"mod.rs")],["Expression::derivative"],hook=H)
S="src/compute/substitute/mod.rs"
p("C09","Substitution replaces exactly the named variable",
 "Substituting v for variable u replaces every occurrence of u, at any depth, by v and changes nothing else: the value of the result at any assignment equals the value of the original with u bound to the value of v, the shape outside the replaced leaves is unchanged, v itself is not rewritten (even if it mentions u), and other variables, however similar their names, stay. All three call forms agree.",
 ["inputs","programs"],"all expressions, variable names and replacement expressions",
 "One test substitutes a constant into one two-level expression.",
 [S],[("recursive rebuild of children",S)],["Expression::substitute"],hook=H)
p("C10","Printed expressions read back with the same meaning",
 "Text printed for an expression identifies its value: read back with the library's own precedences (negation and negative literals loosest, then + and -, then *, then / and ^, then functions; binary operators associate to the left; n/d without blanks is a rational literal), it yields an expression with the same value wherever that is defined. No two expressions of different value print the same text.",
 ["inputs","programs"],"all expressions over exact numbers, named constants and ordinary variable names",
 "Tests print five small trees; parenthesisation is a function of parent, side, child and literal sign.",
 ["src/ast/tree.rs","src/ast/op/operator.rs","src/math_op"]+["src/smart_num/mod.rs"],[("priority-driven parentheses","src/ast/tree.rs to_string_raw"),("operator symbols and priorities","src/math_op/*.rs")],["Expression::to_string / Display"],hook=H)
T="src/compute/taylor_expansion/partial_expansion.rs"
p("C11","Taylor coefficients are f^(k)(a)/k!",
 "Expanding f around a to order n yields exactly the coefficients c_0..c_n with c_k equal to the k-th derivative of f at a divided by k!, for every f that is analytic at a, whatever the operators used, for numeric and symbolic a and every n, as long as the numbers involved stay within the representation (64-bit exact numbers, finite floats); over integers and rationals, without exp, the coefficients are exact.",
 ["inputs","programs"],"all expressions analytic at the point, all points, all orders",
 "The only test prints the expansion of sin and asserts nothing.",
 [T],[("repeated derivative, substitution, folding and running factorial",T)],["taylor_expansion().coefficient"],hook=H)
p("C12","Expansions describe and print the right polynomial",
 "An expansion records the requested order, variable and point, has exactly order+1 coefficients, and its residual is the derivative of order n+1. Its printed form reads back as the sum of c_k*(x-a)^k over the nonzero coefficients plus one final error term O((x-a)^(n+1)); the example program prints such expansions of exp at 0 and ln at 1.",
 ["inputs","programs"],"all successful expansions",
 "No test looks at the fields or the printed form.",
 [T,"src/main.rs"],[("Display for PartialExpansion",T)],["PartialExpansion fields and Display","stdout of the binary"],hook=H)
L="src/compute/limit/"
p("C13","Limits are never wrong",
 "Whenever the limit computation answers for x -> a, the answer is right: 'zero' means the expression tends to 0, 'infinity' that its absolute value grows without bound, a value means it tends to that value, 'bounded' that it stays bounded near a. If it cannot decide it refuses; it never answers for an expression whose limit is something else.",
 ["inputs","programs"],"expressions over +, -, *, /, negation, sin and cos (and refusals for the rest), exact limit points, all L'Hopital orders, where zero-ness of intermediate constants is decidable by exact arithmetic",
 "Three tests compute limits at 0 of sin-over-power quotients; other points, sums, differences, negations, nested functions and limits of different class are untested.",
 [L+"mod.rs"]+[L+"rules/"+f+".rs" for f in "add sub mul div neg sin cos".split()]+[L+"limit_expression.rs"],[("class algebra plus rewriting plus L'Hopital",L+"rules/")],["LimitTry::limit"],hook=HL)
p("C14","Limit classes combine soundly",
 "Combining limit classes (zero, infinity, bounded, nonzero value) with +, -, *, /, negation gives the class that every pair of functions with these limits has, or refuses; it refuses when different pairs behave differently (inf+inf, 0*inf, 0/0, inf/inf, ...) and answers when the class is determined, except that anything over bounded may be refused. Values combine to the value of the combined expressions, in operand order. Printed, an answer shows its class.",
 ["inputs"],"all pairs of classes, all operators, all value expressions",
 "The tests reach 3 of the 68 combinations.",
 [L+"limit_expression.rs"],[("nested match per operator",L+"limit_expression.rs")],["LimitExpression operators"],hook=H)
p("C15","Decidable limits are decided",
 "The limit computation always terminates, and answers (does not refuse) whenever the expression uses only +, -, *, /, negation, sin, cos and no indeterminate combination arises at the point other than quotients (the expression itself or any part of it) of functions analytic at the point, each resolved by at most the requested number of L'Hopital differentiations.",
 ["inputs","programs"],"all such expressions, points and orders",
 "Tests reach three quotients with order 1 and no other operator at top level.",
 [L+"mod.rs",L+"rules"],[("L'Hopital loop bounded by order_try",L+"rules/div.rs")],["LimitTry::limit"],hook=HL)
p("C16","Targets that are not variables are refused",
 "Differentiating, substituting, expanding or taking a limit with respect to something that is not a variable (a number, a constant, a compound expression) returns an error and no expression, for every expression they are applied to and in every call form; casting an expression to a number succeeds exactly for number leaves and near() errors exactly when an operand is not a number.",
 ["inputs","programs"],"all expressions and all non-variable targets, for all four operations",
 "One cast is tested; no refusal path of derivative, substitute or taylor_expansion is.",
 [D+"mod.rs",S,T,L+"mod.rs","src/ast/tree.rs","src/ast/op/operand.rs"],[("Into<Option<Variable>> conversions","src/ast/tree.rs")],["Result of derivative/substitute/taylor_expansion/limit/to_smart_num/near"],hook=HL)
p("C17","Building an expression builds exactly that expression",
 "Every constructor and operator builds exactly the requested node over exactly the given operands in the given order, by value and by reference alike, and evaluates nothing; the shorthand operators (x + y, -x, x * 2, ...) and the named constructors build the same tree; two operators are equal exactly when they are the same kind; type queries (is_num, is_operator, is_operand, is_zero, is_one, is_pi, is_e, variable and rational views) answer according to the node.",
 ["inputs","programs"],"all sequences of constructor calls",
 "Tests build about twenty trees and only print them.",
 ["src/math_op","src/ast/tree.rs","src/ast/op/operand.rs"],[("operator trait impls","src/math_op/*.rs")],["tree structure"],hook=H)
p("C18","Folding, derivatives, substitution and printing are total",
 "Folding, differentiating, substituting, printing and expanding never panic, overflow the stack or hang on any well-formed expression, including divisions by zero, logarithms of non-positive numbers, powers of zero and deep nesting, as long as the exact numbers involved stay far from the 64-bit limits; the result is always a well-formed expression.",
 ["inputs","programs","histories"],"all well-formed expressions and chains of operations on them",
 "Tests only use benign inputs.",
 ["src/compute","src/ast/tree.rs","src/smart_num"],[("unwrap() calls on children popped in order","src/compute/*/rules/*.rs")],["normal return of every call"],hook=H)
p("C19","Results depend only on the arguments",
 "Every operation (folding, differentiation, substitution, printing, expansion, limits and number arithmetic) is a pure function of its arguments: the same call with the same arguments gives the same result whenever it is made - again, in another order, after calls on other similar or equal arguments, or in a fresh process - and it leaves its arguments unchanged, also those passed by value from a clone.",
 ["histories","inputs"],"all histories of calls, in particular calls on arguments that resemble each other (same shape with other names, near-equal numbers, the same text with other structure)",
 "Each test calls an operation once in a fresh state; nothing repeats a call, interleaves look-alike calls or compares histories, so shared state (caches, counters, interned names) would be invisible.",
 ["src/compute","src/ast/tree.rs","src/smart_num","src/math_op"],[("functions over owned or cloned trees, no shared state","src/compute/*/mod.rs")],["results of all calls of two different histories of the same calls"],hook=HL)
p("C20","Limit answers are stable and in normal form",
 "Allowing more L'Hopital differentiations never changes an answer: a limit answered at order n is answered, with the same class and value, at every larger order. A value answered is fully folded, is not the number zero (that is the class 'zero'), and mentions only variables of the limit point and variables of the expression other than the one taken to the limit.",
 ["inputs","programs"],"all expressions, points and pairs of orders",
 "Tests use order 1 throughout and compare one printed value.",
 [L+"mod.rs"]+[L+"rules/"+f+".rs" for f in "add sub mul div neg sin cos".split()]+[L+"limit_expression.rs"],[("answers fixed before the next differentiation is tried",L+"rules/div.rs"),("values folded after substitution",L+"mod.rs")],["LimitTry::limit at several orders"],hook=HL)
p("C21","Folding never grows an expression",
 "Folding only simplifies: the result has at most as many nodes as the input and is at most as deep, mentions each variable at most as often, and uses no operator that the input does not use, except a negation in place of a subtraction from zero. Derivatives do not explode: the derivative of an expression with n nodes and depth d has at most 12*n*d nodes.",
 ["inputs","programs"],"all expressions whose exact numbers stay within the 64-bit representation",
 "Tests compare the folded text of a handful of expressions; the size of results on deep or repetitive expressions is never looked at.",
 ["src/compute/num_aggregate/mod.rs"]+[R+f+".rs" for f in "add sub mul div neg sin cos exp ln pow".split()]+[D+"mod.rs"],[("one rewriting rule per operator","src/compute/num_aggregate/rules/"),("rules that duplicate their operands",D+"rules/")],["NumAggregate::num_aggregate","Expression::derivative"],hook=H)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
