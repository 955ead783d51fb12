#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json,os
P=[]
def p(id,title,st,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Prime-field arithmetic is exact and canonical",
 "For any integers, field addition, subtraction, negation, doubling, squaring, multiplication, inversion, division and exponentiation return the mathematically correct residue, in the canonical range [0,q), and leave their operands unchanged. Inversion and division by a non-zero residue are true inverses, exponentiation equals repeated multiplication for every exponent, equality holds exactly when the operands are congruent, and parsing a decimal string yields its residue or reports failure without crashing.",
 ["inputs"],"every operand value (canonical or not, for the full 254-bit modulus) and every exponent up to the stated width",
 "tests multiply a couple of literals in small fields; the modulus has 2^254 operands and the defects sit at 0, q, negative values and aliasing",
 ["utils/finiteField.go"],[("Fq operations reduce with Mod","utils/finiteField.go"),("square-and-multiply ladders","utils/finiteField.go Exp/ExpInt")],["return value of each Fq method"])
p("C02","Dense polynomial arithmetic implements the polynomial ring",
 "Adding, subtracting, multiplying and scaling dense polynomials produces, coefficient by coefficient, the sum, difference, product and scaling of the polynomials they represent, with canonical coefficients. Evaluation of a polynomial at a point equals the sum of its coefficients times powers of the point, so that evaluating a sum or product equals the sum or product of the evaluations; no operation changes its inputs.",
 ["inputs"],"all coefficient vectors (zeros included) up to the stated lengths, all points",
 "tests use a handful of literal coefficient vectors; identities over all coefficients cannot be sampled",
 ["utils/polynomialField.go","utils/finiteField.go"],[("schoolbook convolution / Horner","utils/polynomialField.go Mul,Add,Sub; finiteField.go EvalPoly")])
p("C03","Dense polynomial division returns quotient and remainder",
 "For any dividend and any non-zero divisor with non-zero leading coefficient, dense division returns q and r with a = q*b + r and deg r < deg b, also when the dividend is shorter than the divisor (quotient zero, remainder the dividend). The division neither crashes nor changes its inputs.",
 ["inputs"],"all dividends/divisors up to the stated lengths over the field, including vanishing leading coefficients during the reduction",
 "tests divide fixed or random polynomials of generic shape; length relations and cancellations are not enumerated",
 ["utils/polynomialField.go"],[("long division loop","utils/polynomialField.go Div")])
p("C04","Interpolation passes through every data point",
 "For every vector of n field values, the dense and the sparse interpolation both return the unique polynomial of degree below n that takes the i-th value at point i, independently of what was interpolated before and of what was done with earlier results. The domain polynomial of size n vanishes exactly on 0..n-1 and is monic of degree n.",
 ["inputs","histories"],"all data vectors up to the stated length (zero entries included), repeated use of the same field object with its cached bases",
 "tests interpolate one vector; cached basis polynomials are shared between calls so a corruption shows only in later calls",
 ["utils/polynomialField.go","utils/sparsePolynomial.go"],[("cached Lagrange bases","utils/polynomialField.go LagrangeInterpolation; utils/sparsePolynomial.go InterpolateSparseArray")])
p("C05","The sparse array behaves as a sorted finite map without zeros",
 "After any history of inserts, combining puts and removals, the sparse array holds exactly the keys whose latest value is non-zero with those values: lookups, membership, size, smallest and largest key, ordered traversal in both directions, conversion to a dense array and cloning all agree with that map. Inserting over a non-zero entry is refused where overwriting is forbidden, and a clone is unaffected by later changes to the original.",
 ["histories","inputs"],"every history of operations with arbitrary keys and values up to the stated length, every tree shape up to the stated size",
 "tests insert random keys once; rebalancing and two-child removal after adversarial key orders are not covered",
 ["utils/avl.go"],[("AVL Put/Remove/balance","utils/avl.go"),("zero values are removed on Put","utils/avl.go AvlTree.Put")],None,[("AvlNode","binary search tree keyed by position","utils/avl.go")])
p("C06","Sparse polynomial arithmetic agrees with dense arithmetic",
 "Sparse addition, subtraction, multiplication, scaling, linear combination, scalar product and evaluation give the same polynomial or value as the corresponding dense operations, with canonical results and no stored zero coefficients. Operands are left unchanged, also by later changes to a result.",
 ["inputs"],"all sparse operands up to the stated number of terms and degree, all coefficients and evaluation points",
 "tests compare fixed or random operands that practically never cancel",
 ["utils/sparsePolynomial.go","utils/avl.go"],[("tree traversal + combining Put","utils/sparsePolynomial.go")])
p("C07","Sparse polynomial division returns quotient and remainder",
 "For any sparse dividend and any non-zero sparse divisor, constants included, sparse division terminates and returns q and r with a = q*b + r and deg r < deg b (or r = 0). The division neither crashes nor changes its inputs.",
 ["inputs"],"all dividends/divisors up to the stated degree, including exact division and constant divisors",
 "tests divide random generic polynomials and never reach cancellation or constant divisors",
 ["utils/sparsePolynomial.go"],[("leading term elimination loop","utils/sparsePolynomial.go DivideSparse")])
p("C08","Sparse traversals are race free under every goroutine schedule",
 "Every operation that walks a sparse array through a channel gives the same result under every interleaving of the producing and the consuming goroutine, visits each stored entry exactly once, and never reads tree memory while the other goroutine writes it. Both goroutines finish.",
 ["schedules","inputs"],"all interleavings at channel operations of producer and consumer, every operand up to the stated size",
 "tests see one schedule per run; a mutation during traversal corrupts results only under rare interleavings",
 ["utils/avl.go","utils/sparsePolynomial.go"],[("ChannelNodes producer goroutine","utils/avl.go ChannelNodes"),("consumers","utils/sparsePolynomial.go")])
p("C09","Tower-field arithmetic is correct, alias-safe and pool-safe",
 "In the quadratic, sextic and dodecic extension fields every operation (addition, subtraction, negation, multiplication, squaring, doubling, scalar and non-residue multiplication, inversion, Frobenius maps, conjugation) computes the field operation defined by the tower polynomials. This holds for all elements, also when the destination is one of the operands and with or without a scratch pool.",
 ["inputs"],"all coordinates modulo the 254-bit prime as formal variables, all aliasing patterns of receiver and operands",
 "tests only exercise generic pairings; identities over all coordinates and aliasing patterns are not sampled",
 ["pairing/gfp2.go","pairing/gfp6.go","pairing/gfp12.go","pairing/constants.go"],[("Karatsuba style formulas","pairing/gfp2.go, gfp6.go, gfp12.go")])
p("C10","G1 and G2 implement the elliptic-curve group",
 "Addition, doubling and negation of points in both source groups follow the chord-and-tangent law with the point at infinity as neutral element, for all pairs of points including equal and opposite ones and when the destination is one of the operands. Scalar multiplication by k equals k-fold addition, for a negative k that of the opposite point, and normalisation to affine coordinates keeps the point. A random group element comes with the non-zero scalar it is the multiple of.",
 ["inputs"],"all curve points in any projective representation, all scalars up to the stated bit length, all aliasing patterns",
 "tests use random points where equal, opposite or infinite operands never occur",
 ["pairing/curve.go","pairing/twist.go","pairing/bn256.go"],[("Jacobian add/double formulas","pairing/curve.go, twist.go"),("double-and-add","pairing/curve.go Mul, twist.go Mul")])
p("C11","Point and target-group encodings round-trip and reject bad input",
 "Marshalling a point of either source group or a target-group element and unmarshalling the result gives back the same element, for every element including infinity. Unmarshalling never crashes, reports failure for inputs of wrong length, and accepts source-group bytes only if they encode infinity or a point on the curve.",
 ["inputs"],"all coordinates modulo the 254-bit prime, all byte strings with the field values as variables, all short lengths",
 "tests round-trip random points; invalid encodings and infinity are not covered",
 ["pairing/bn256.go"],[("Marshal/Unmarshal","pairing/bn256.go")])
p("C12","Pairing building blocks compute the optimal-ate pairing steps",
 "The line functions used in the pairing evaluate to the tangent or chord line through the given points (up to factors removed by the final exponentiation) while updating the running point by doubling or addition, and sparse line multiplication equals full multiplication. The final exponentiation raises to a fixed non-zero multiple of (p^12-1)/r prime to r, pairing with infinity gives one, and scalar multiplication and addition in the target group are exponentiation, also by negative scalars, and multiplication.",
 ["inputs"],"all projective points and field elements as formal variables; the exponent as exact integer",
 "a pairing test on a few random points cannot separate an algebraic identity from a coincidence and does not reach infinity",
 ["pairing/optate.go","pairing/gfp12.go","pairing/bn256.go"],[("lineFunctionAdd/Double, mulLine, finalExponentiation","pairing/optate.go")])
p("C13","The lexer terminates and its tokens cover the source",
 "For every source text the lexer terminates: it either reports an error or delivers a token sequence ended by an end marker, with every token non-empty (an empty quoted name excepted). Each token is a literal piece of the source, in order, numbers, names and comments are not cut, nothing but whitespace, repeated line breaks and quotation marks is dropped between tokens, and adjacent operators are recognised by longest match. A source without an unknown character or an open quotation is never rejected.",
 ["inputs"],"every byte string up to the stated length, plus templates with symbolic holes",
 "tests lex well-formed samples only; stray or unterminated characters are not covered",
 ["circuitcompiler/lexer.go","circuitcompiler/rune_stack.go"],[("state functions with Rewind/Emit/Ignore","circuitcompiler/lexer.go")])
p("C14","The parser preserves expression structure and brackets",
 "For every expression built from identifiers, numbers, operators, calls, array accesses and brackets, the parsed tree contains exactly the operators and operands of the source in order, grouped as the brackets prescribe, and redundant brackets do not change the meaning. Malformed expressions and unbalanced brackets are rejected, and the statements of a program are delivered completely and in order: only = assigns, comments and blank lines between lines change nothing, and an import is read as if the text of the file stood there.",
 ["programs"],"all bracketed expression shapes up to the stated number of operands, with every operator choice at each position; programs with a comment or blank text inserted at every line break; every assignment form with every operator; every run of statements moved into imported files",
 "tests parse a few fixed snippets and check almost nothing about the tree",
 ["circuitcompiler/parser.go"],[("splitAt / stripOfBrackets / bracket counting","circuitcompiler/parser.go")])
p("C15","Factor algebra preserves value and never corrupts shared constants",
 "Multiplying, adding, negating, inverting and factoring out linear combinations yields linear combinations with the same value as the algebraic operation on the originals, for all coefficients. No operation changes the coefficients of its operands, so a variable or constant used twice has the same value both times.",
 ["inputs","histories"],"all coefficients in the field (zero included), all combinations up to the stated number of factors, repeated use of operands",
 "tests use fixed coefficients and check single calls; in-place changes of shared numbers show up only on re-use",
 ["circuitcompiler/factorHandling.go","circuitcompiler/Programm.go"],[("mulFactors/addFactors/negateFactors/invertFactors/extractGCD","circuitcompiler/factorHandling.go")])
p("C16","Executing a compiled circuit computes what the program computes",
 "For every program in the supported straight-line language and every input, the witness computed for the compiled circuit contains, at the output, the value the program computes over the field, or reports failure exactly where the program is undefined (division by zero, failing equality). This holds for all constants, however they are written, and for repeated use of sub-expressions.",
 ["programs","inputs"],"all expression programs up to the stated size (every operator and operand choice), all field inputs and constants",
 "tests compile a few fixed programs and compare single inputs",
 ["circuitcompiler/circuit.go","circuitcompiler/Programm.go","circuitcompiler/factorHandling.go","circuitcompiler/ER1CS.go"],[("compile to gates","circuitcompiler/Programm.go compile"),("R1CS generation","circuitcompiler/Programm.go GatesToR1CS")])
p("C17","The constraints force the output",
 "Every assignment that satisfies all constraints of a compiled circuit and carries given inputs also carries, at the output positions, the values the program computes on these inputs: no satisfying assignment with a different output exists. Equality assertions in the program are enforced by the constraints even if the same product, comparison or sub-expression occurs elsewhere.",
 ["programs","inputs"],"all assignments of field values to every wire, all programs of the stated family",
 "a test checks that an honest witness satisfies the constraints, never that no dishonest one does",
 ["circuitcompiler/Programm.go","circuitcompiler/gate.go","circuitcompiler/ER1CS.go"],[("gate de-duplication by identifier","circuitcompiler/gate.go, Programm.go"),("constraint rows","circuitcompiler/Programm.go GatesToR1CS")])
p("C18","Control flow, functions and arrays follow the program",
 "Statically decidable conditionals execute exactly the first branch whose condition holds, loops run exactly as often as their condition says, return leaves the enclosing function at once, nested calls and function arguments bind by position in their own scope, and array elements are read and written at the evaluated index. Redeclaring or updating a variable inside a block or call never leaks another scope's value.",
 ["programs","inputs"],"all programs of the stated templates with symbolic constants in conditions, bounds and indices",
 "tests have one fixed program per construct",
 ["circuitcompiler/circuit.go","circuitcompiler/Programm.go"],[("static condition evaluation and compile loop","circuitcompiler/circuit.go, Programm.go")])
p("C19","Dense and sparse constraint systems and witness solvers agree",
 "The sparse and the dense constraint system of a circuit describe the same constraints and have the same wire layout, and both witness solvers return the same witness for the same input. A returned witness satisfies every constraint; if no witness exists an error is reported rather than a wrong vector or a crash.",
 ["programs","inputs"],"all inputs (symbolic field elements) for the stated program family, and hand-built constraint rows with symbolic coefficients",
 "tests run the two solvers on different fixed programs with single inputs",
 ["circuitcompiler/ER1CS.go","circuitcompiler/Programm.go"],[("CalculateWitness / CalculateSparseWitness","circuitcompiler/ER1CS.go"),("GatesToR1CS / GatesToSparseR1CS","circuitcompiler/Programm.go")])
p("C20","Constraint systems convert losslessly to polynomial form",
 "Transposing a constraint system and interpolating its columns gives polynomials whose value at point i equals the column's entry in row i, for the dense and the sparse form, for any number of rows and columns. Combining these polynomials with a witness satisfies the divisibility by the domain polynomial exactly when the witness satisfies every constraint.",
 ["inputs"],"all constraint matrices and witnesses up to the stated dimensions, wide and tall ones",
 "tests use circuits with more wires than gates and never check the interpolated values row by row",
 ["circuitcompiler/ER1CS.go","utils/sparsePolynomial.go","utils/polynomialField.go"],[("Transpose, ER1CSToEAP","circuitcompiler/ER1CS.go")])
p("C21","Public inputs occupy a fixed prefix of the witness",
 "The witness starts with the constant one followed by the public inputs in the declared order, then the private inputs, and the number of public positions reported equals their count. The same program with different private inputs has the same layout.",
 ["programs","inputs"],"all parameter lists up to the stated length with any split into public and private, any use of the parameters in the program",
 "tests use two parameters in source order; unused, permuted or repeated use is not covered",
 ["circuitcompiler/Programm.go","circuitcompiler/ER1CS.go"],[("witness/index layout","circuitcompiler/Programm.go GatesToR1CS")])
p("C22","Bit decomposition is sound and complete",
 "Splitting a value into bits yields a witness with the value's binary digits (for a negative or unreduced input those of its residue), and the constraints admit only bit values 0 or 1 that add up to the split value in the field. A multiple of a wire is split as a whole, and what cannot be split (a number, a sum) is rejected; reading a digit of a value gives that digit, in any scope.",
 ["inputs","programs"],"all values of the stated width, every assignment to the bit wires",
 "tests never check the bits produced",
 ["circuitcompiler/Programm.go","circuitcompiler/ER1CS.go","circuitcompiler/factorHandling.go"],[("SPLIT builtin and zero-or-one gates","circuitcompiler/Programm.go")])
p("C23","Honest proofs verify (dense and sparse prover)",
 "For every circuit over field operations, every satisfying input (reduced, negative or above the field order) and every setup randomness, the proof generated from the honest witness is accepted by the verifier together with the matching public inputs, for the dense and for the sparse variant and for any ratio of wires to gates. Neither setup, proving nor verifying crashes.",
 ["programs","inputs","configurations"],"all setup secrets and witness values as formal variables in the generic group model, the stated circuit family",
 "the repository's end-to-end tests take one program and one random setup and do not pass",
 ["zkSNARK/wol19.go","circuitcompiler/ER1CS.go"],[("GenerateTrustedSetup, GenerateProofs, VerifyProof","zkSNARK/wol19.go")])
p("C24","The verifier rejects wrong statements and tampered proofs",
 "A proof made for one vector of public inputs is accepted for another vector only if both give every constraint the same value, and not after any proof element is replaced by another multiple of the same element, except for an accidental equality of secrets of negligible probability. A witness that violates a constraint yields no accepted proof, public input vectors of wrong length are rejected without a crash, and the secrets behind the published keys are independent of each other and drawn anew by every setup.",
 ["inputs"],"all public inputs, witnesses and tampering factors as variables in the generic group model",
 "a test can only try single wrong inputs",
 ["zkSNARK/wol19.go"],[("pairing equation with public input commitment","zkSNARK/wol19.go VerifyProof")])
p("C25","The pairing is bilinear and non-degenerate on the real curve",
 "For all points P, Q and scalars a, b the pairing of aP and bQ is the ab-th power of the pairing of P and Q, and the pairing of the generators is not one.",
 ["inputs"],"all pairs of points and all scalars",
 "tests check a few random scalars",
 ["pairing/optate.go"],[("Miller loop","pairing/optate.go")])
p("C26","Compiling is deterministic and leaves the program unchanged",
 "Parsing, executing and converting a program gives the same constraint system, wire layout, number of public inputs and witnesses every time: again on the same program object, on a newly parsed one, in any order of the dense and the sparse conversion, and whatever order the entries of a map are visited in. A program that is rejected is rejected every time.",
 ["programs","inputs","histories"],"all programs of a family that assigns to inputs, globals, captured variables and arrays, every history of the stated length, reversed visits of maps, all inputs",
 "Go randomises map order per run, so a test sees one order at a time; no test executes a program twice",
 ["circuitcompiler/Programm.go","circuitcompiler/circuit.go","circuitcompiler/ER1CS.go"],[("Program.Execute","circuitcompiler/Programm.go"),("GatesToR1CS / GatesToSparseR1CS","circuitcompiler/Programm.go")])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,x["id"]
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
