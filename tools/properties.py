"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A="projects/sm-algorithm/src/"
P=[]
def p(id,title,st,over,qt,why,files,mech,observe):
    assert len(title)<=80
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})
p("C01","Integer powers are exact",
 "Raising an integer to a natural power returns exactly the product of that many copies of the base, with a^0 = 1 for a non-zero base and a^1 = a. 0^0 is reported as indeterminate and never given a value. The only other refusal is an overflow error, and only for exponents of 2^32 or more with a base other than 0 and 1.",
 ["inputs"],"every integer base of any size and sign, every natural exponent",
 "The one test of the module calls the bignum library's own power, never this function; the shortcuts for 0 and 1 on either side are each wrong for only a few of infinitely many pairs.",
 [A+"basic/mod.rs"],[("shortcut chain before the library power","power_iu")],["return value of power_iu"])
p("C02","Extended gcd returns the gcd and Bezout coefficients",
 "For every two integers the extended gcd returns a non-negative g that divides both, and exactly two coefficients x, y with a*x + b*y = g. g is 0 only when both numbers are 0.",
 ["inputs"],"every pair of integers, including zero, negative, equal, multiples of one another",
 "The existing test prints the answer for one pair and asserts nothing.",
 [A+"basic/mod.rs"],[("library extended Euclid, repackaged","extended_gcd2")],["return value of extended_gcd2"])
p("C03","Coprimality test agrees with the gcd",
 "Two integers are called coprime exactly when no integer greater than 1 divides both, whatever their signs, order and size.",
 ["inputs"],"every pair of integers","No test calls the predicate.",
 [A+"basic/mod.rs"],[("gcd compared with 1","is_coprime")],["return value of is_coprime"])
p("C04","Modular inverse is sound and complete",
 "For every integer a and modulus m >= 1, a returned inverse x satisfies a*x = 1 (mod m). No inverse is returned only when a and m have a common factor greater than 1.",
 ["inputs"],"every integer a (any sign, also larger than m), every m >= 1","One inverse is printed by a test, none is checked.",
 [A+"basic/mod.rs"],[("Bezout coefficient of a when the gcd is 1","modulo_inverse")],["return value of modulo_inverse"])
p("C05","Modular division is sound and complete",
 "For every a, b and modulus m >= 1, a returned quotient x satisfies b*x = a (mod m). A division is refused only when no integer x satisfies that congruence, that is when gcd(b, m) does not divide a.",
 ["inputs"],"every triple a, b, m >= 1, coprime or not","One quotient is printed by a test, none is checked (the shipped code returned wrong quotients and the test passed).",
 [A+"basic/mod.rs"],[("Bezout coefficient of b times a / gcd","modulo_division")],["return value of modulo_division"])
p("C06","Chinese remaindering solves every congruence of a coprime system",
 "For moduli >= 1 that are pairwise coprime, the system of congruences x = u_i (mod m_i) gets an integer x that satisfies every one of them, including systems of no or one congruence. A system whose lists differ in length, or whose moduli share a factor, is refused or given a value that satisfies all its congruences, and the call never panics.",
 ["inputs"],"every list of residues (any sign, any size) and positive moduli","One system of three congruences is printed by a test and nothing is asserted; errors of single digits of the mixed-radix form show only for some residues.",
 [A+"basic/mod.rs"],[("Garner's mixed radix digits","chinese_remainder")],["return value of chinese_remainder"])
p("C07","Factorials are exact and negative arguments are complex infinity",
 "The factorial of n >= 0 is the product 1*2*...*n (1 for 0). Every negative integer, however large, is reported as complex infinity, and an n too large for a machine word is reported as overflow, never as a wrong value or a panic.",
 ["inputs"],"every integer n","The test prints 100! and asserts nothing.",
 [A+"gamma/factorial.rs"],[("sign and size dispatch","factorial_i"),("product","factorial_fold_u")],["return value of factorial_i and factorial_fold_u"])
p("C08","Fibonacci numbers satisfy the recurrence at every index",
 "F(0) = 0, F(1) = 1 and F(n+2) = F(n+1) + F(n) for every integer n of either sign, so F(-n) = (-1)^(n+1) F(n). The iterative and the doubling algorithm agree at every index, and an index outside the machine word is reported as overflow.",
 ["inputs"],"every integer index","Tests compare both algorithms at the single index 100; negative indices are never called.",
 [A+"linear/fibonacci.rs"],[("sign dispatch","fibonacci_i"),("doubling with a memo table","fibonacci_fast_u"),("iteration","fibonacci_fold_u")],["return values"])
p("C09","Sums of primes are exact",
 "The sum of primes up to n is exactly the sum of the primes p <= n, for small n, for powers of ten served from a table and for n beyond 32 bits alike; it is 0 for n < 2 and n >= 0. A negative n is reported as undefined and an n that cannot be computed as unimplemented, never as a wrong value or a panic.",
 ["inputs"],"every integer n","Fourteen values are tested, none 0, none above 10^4, none of the table, none near a square of a large prime or a word boundary.",
 [A+"prime/prime_sum.rs"],[("table of powers of ten","prime_sum_table"),("Lucy's sieve by distinct quotients","prime_sum_u64")],["return values of prime_sum_i, prime_sum_u64"])
p("C10","A prime count is exact or refused",
 "A number returned as the count of primes up to n is exact; the counts for the powers of ten 10^0 to 10^27 are always available. Every other non-negative n is either counted exactly or reported as unimplemented, and a negative n as undefined.",
 ["inputs"],"every integer n","No test calls it.",
 [A+"prime/prime_count.rs"],[("table of powers of ten","prime_count_table")],["return value of prime_count_i"])
S="projects/sm-ast/src/"; G="projects/sm-parser/src/sm_parser.rs"
p("C11","Evaluation is exact or an explicit error",
 "Evaluating an expression gives exactly the mathematical value of what was written, or an explicit error. Sums, differences, products, integer powers with a natural exponent, factorials, Fibonacci numbers and the named functions of integers are exact for integers of any size; an operator, function, option, argument count or argument kind without a meaning, 0^0 and a negative or astronomically large exponent are refused, and never give a wrong value or a panic.",
 ["inputs"],"every operand, every supported operator and function name, any number and kind of arguments",
 "No test asserts the value of an evaluation; wrong results appear only for some operands (a negative or 33-bit exponent gave the base, a call with two arguments ignored one).",
 [S+"evaluate/forward.rs",S+"evaluate/traits.rs",S+"internal/"],[("dispatch on operators and names","ForwardAST for AST"),("functions of numbers","internal/number_theory.rs, internal/elementary.rs")],["Runner::evaluate"])
p("C12","Expressions group by precedence and associativity",
 "An expression is read as the tree its operators' precedence and associativity give: ^ binds tighter than /, / tighter than *, * tighter than + and -, + - * / group to the left and ^ to the right, × and ÷ are * and /, suffixes bind tighter than prefixes and prefixes tighter than infix operators, juxtaposition is a product, and parentheses override all of it. No operand or operator is lost, duplicated or reordered.",
 ["inputs"],"every chain of these operators over every operand",
 "The parser tests print trees and assert a few of them; each precedence error needs its own pair of operators to show.",
 [S+"parser/parse.rs",S+"parser/ops.rs",G],[("precedence climber table","PREC_CLIMBER"),("prefix and suffix folding","parse_term")],["ParserSettings::parse"])
p("C13","A displayed expression reads back as the same expression",
 "The text printed for an expression, read again, is the same expression: parentheses, signs, argument lists, options, lists and slices are written so that no grouping, operand or digit changes. Only string literals are shown bare, as output, and are not meant to be read back.",
 ["inputs"],"every expression tree the reader can produce, every integer",
 "Two displayed strings are pinned by tests; the shipped code dropped the parentheses of (1+2)*3 and all tests passed.",
 [S+"ast/traits.rs"],[("Display for AST","ast/traits.rs")],["Display for AST then ParserSettings::parse"])
p("C14","Literals keep every digit",
 "An integer literal is exactly the number written, in base 10, 2, 8 and 16, with any length, leading zeros after a radix mark and underscores; a decimal literal is exactly the fraction written, including zeros after the point. No digit is lost and no literal panics.",
 ["inputs"],"every natural number in every base and spelling",
 "A handful of literals is tested, none with zeros after the point, none beyond a machine word.",
 [S+"parser/parse.rs",G],[("parse_integer, parse_number and the radix dispatch","parser/parse.rs"),("rules Integer, Decimal, Byte","sm_parser.rs")],["ParserSettings::parse"])
p("C15","A session answers every input as on its own and remembers the last",
 "In a session every input gets the answer it gets on its own, whatever was evaluated before it and whether that succeeded or failed. The last result is the output of the latest evaluation; there is none before the first evaluation or when the latest failed, and asking for it never panics.",
 ["histories"],"every sequence of successful and failing evaluations",
 "The runner has no test with more than one evaluation.",
 [S+"evaluate/traits.rs",S+"evaluate/mod.rs"],[("index and history maps","Runner")],["Runner::evaluate, Runner::last"])
p("C16","A dot applies a function to what is before it",
 "x.f(a) is f with x inserted before its other arguments, a.1 selects the part with that number, chains associate to the left, and options and further argument groups stay in place. Suffixes and slices after such a call apply to its result. What is neither a name nor a call nor an index stays the second operand of a dot, with nothing of either side lost.",
 ["inputs"],"every chain of dots and every operand",
 "No test asserts a dot call's tree.",
 [S+"parser/parse.rs",S+"ast/"],[("dot folding","parse_expr, push_dot")],["ParserSettings::parse"])
p("C17","Slices keep every index, start, end and step",
 "A slice applies to the whole operand before it and keeps each of its indices in order, with the start, end and step that were written and the documented default (first, all, one) where one was left out; negative numbers and expressions are kept.",
 ["inputs"],"every slice of one or two indices with every part present or absent",
 "No test asserts a slice's parts.",
 [S+"parser/parse.rs"],[("parse_slice, parse_index","parser/parse.rs")],["ParserSettings::parse, ToWolfram"])
p("C18","Calls, lists and programs keep every part in order",
 "A call keeps its function, every positional argument in order, every option under its own name and every further group of arguments; a list keeps its elements in order and its nesting; a text of several statements keeps all of them in order.",
 ["inputs"],"every list of arguments and options, every nested list, every sequence of statements",
 "A few calls are printed by tests; programs of several statements kept only the first and no test noticed.",
 [S+"parser/parse.rs",S+"ast/"],[("parse_apply, parse_list, program loop","parser/parse.rs")],["ParserSettings::parse, ToWolfram"])
p("C19","Blanks and comments between tokens change nothing",
 "Blanks, newlines and comments between the tokens of an expression do not change what it means and do not make it fail, and the text inside a comment is never read as code.",
 ["inputs"],"every place between two tokens, every kind of blank and comment",
 "No test puts a comment into an expression; ( 1 + 2 ) with blanks inside the parentheses was refused.",
 [G],[("rules WHITESPACE and COMMENT, atomic rules","sm_parser.rs")],["ParserSettings::parse"])
p("C20","Every text is read or refused, never a panic or a hang",
 "Any text at all is either read as an expression, which can then be displayed and exported, or refused with an error. No text, whether well formed, malformed, empty or deeply nested, makes the reader, the display, the export or a session panic or run away.",
 ["inputs"],"every string of characters",
 "Tests read a few dozen well formed texts; the shipped reader panicked on ##1, on a prefix \u00ac and on every construct without a conversion, and ran for minutes on twenty nested slices.",
 [S+"parser/parse.rs",S+"ast/traits.rs",S+"evaluate/forward.rs",G],[("grammar, and what of it the converter supports","is_supported, parse_*"),("display and export of every node","ast/traits.rs")],["ParserSettings::parse, Display, to_wolfram, Runner::evaluate"])
p("C21","Names, texts, slots and references are kept as written",
 "A name of letters, digits and underscores of any script is read as exactly that name wherever a name may stand, also when it begins with the letters of a keyword. The text between quotes is kept character by character, and the functions of a text count and select characters. Slots and references to earlier inputs and outputs keep their number.",
 ["inputs"],"every name that is no keyword, every text, every number",
 "Tests use single latin letters; names such as format, iffy or nullable were read as keywords followed by something else.",
 [S+"parser/parse.rs",S+"internal/",G],[("keywords, Symbol, String, Slot, REPL rules","sm_parser.rs"),("parse_string, parse_slot, parse_in_out","parser/parse.rs")],["ParserSettings::parse, Runner::evaluate"])
p("C22","The exported expression mirrors the expression",
 "The Wolfram export of an expression has exactly its structure: every call is its name with a capital first letter (factor is FactorInteger) applied, group by group, to all its arguments in order and then to its options as rules; several statements are one CompoundExpression of all of them in order; integers and decimals keep every digit, texts every character, names their last part, and true and false are True and False. Nothing is lost, repeated, merged or reordered, and exporting twice gives the same.",
 ["inputs"],"every expression: any nesting, width, number, name and text",
 "Tests export a few dozen texts with one-digit numbers; none has options, two statements, a text in a call, a second group with several arguments, or an expression deeper than two.",
 [S+"traits/wolfram/mod.rs"],[("one arm per kind of node, groups applied one after the other","ToWolfram for AST"),("names","function_map")],["to_wolfram"])
p("C23","A file is exported whole or not at all",
 "parse_file writes to the target exactly the export of the text in the source file, whatever the target held before, and changes no other file. When the source is missing, no valid text or no expression, or the target cannot be written, it reports an error and an existing target keeps its content.",
 ["inputs","histories"],"every text, every earlier content of the target, every kind of failure of the files",
 "No test calls it; a target longer than the new export, a source that is refused, or a source that is its own target show errors that a first run on a fresh target does not.",
 [S+"parser/parse.rs"],[("read, parse, then create and write","parse_file")],["content of the files, return value of parse_file"])
p("C24","Positions say where a part was written",
 "Every argument group of an expression names the file of its parser and the lines and columns, counted from 1 in characters, between which it was written: the parentheses of a call, the brackets of a list or slice, the sign of a prefix or suffix, the text of a slot or reference, and for an infix operator the whole chain it stands in. Line breaks, wide characters, blanks and comments before and inside are counted.",
 ["inputs"],"every layout of every expression",
 "No test looks at a position; a line or column off by one shows only behind line breaks or characters of several bytes.",
 [S+"parser/parse.rs",S+"parser/traits.rs"],[("span of a pair as lines and columns","get_position")],["position of every Parameter of the parsed AST"])
p("C25","The reader takes texts apart exactly as its grammar file says",
 "For every rule and every text, the parser of sm_parser accepts the text exactly when the grammar in simple-math.pest does, and then reports the same nested rules at the same places: the same alternatives in the same order, the same repetitions and options, blanks and comments skipped in the same places and no others, the same keywords, operators and character classes.",
 ["inputs"],"every text, every rule of the grammar, including the statements the evaluator does not support yet",
 "The parser is a committed file of 1200 generated lines which nothing regenerates or compares with the grammar; the tests of the crate read one file.",
 [G,"projects/sm-parser/simple-math.pest"],[("one function per rule","sm_parser.rs"),("the rules","simple-math.pest")],["SMParser::parse"])
p("C26","Every expression has a TeX form that keeps all its parts",
 "Whatever expression is read or results from an evaluation, its TeX form exists, never panics, is the same every time and shows every part in its place: numbers with every digit, true and false, names by their last part, texts; calls with their name, all their groups, positional arguments in order and then their options; lists and programs with all their elements in order; prefix, suffix and infix operators with their own sign and all their operands in order (an infix operand looks as in an output; grouping of one infix operator inside another is not promised). The trigonometric functions take no brackets around one plain argument.",
 ["inputs"],"every expression: any nesting, width, number, name and text",
 "Tests show a few dozen texts; the shipped code panicked on an empty list, on x!, -x and on two statements, wrote * between the operands of any operator, and dropped options and further groups.",
 [S+"traits/tex/mod.rs",S+"traits/tex/utils.rs"],[("one arm per kind of node","ToTex for AST"),("operators, calls, lists","tex/utils.rs")],["to_tex"])
p("C27","What fails says why: each error has its own kind",
 "A text that is not of the language gives a ParseError that names the place at which the grammar fails; a text of the language that is not supported, and an operator, function or argument without an implementation, give Unimplemented. A file that cannot be read or written gives an IOError, a refused text in a file the error of the text. An index of factorial or fibonacci and an exponent that are too large give Overflow, the factorial of a negative number ComplexInfinity, 0^0 Unknown, first and last of an empty text and the last result of a session without one EmptyContainer. A session gives the error the reader gives for the same text.",
 ["inputs","histories"],"every text, every number, every kind of failure of a file",
 "No test looks at the kind of an error.",
 [S+"error/traits.rs",S+"evaluate/forward.rs",S+"parser/parse.rs",S+"internal/"],[("conversions into SMError","error/traits.rs"),("Overflow, ComplexInfinity, EmptyContainer, Unimplemented","evaluate, internal")],["parse, parse_file, Runner::evaluate, forward, internal::*"])
p("C28","Every operator stands for one function of its own",
 "Whatever its operands, an operator is read as one call of the same function with exactly its operands in the order written, and is refused for all operands or for none. Two spellings of an operator (\u00d7 and *, \u00f7 and /, \u00ac and !) are one function; any two other operators are different functions, also a sign before an operand and the same sign between two, and are exported as different functions. An operator is displayed with its sign.",
 ["inputs"],"every operator with every operand, and every two operators",
 "No test compares the functions of two operators.",
 [S+"parser/ops.rs",S+"parser/parse.rs"],[("infix_map, prefix_map, suffix_map","parser/ops.rs")],["ParserSettings::parse, ToWolfram, Display"])
p("C29","Reading, showing and exporting depend on the text alone",
 "The same text is read as the same expression with the same positions, or refused with the same error, however often it is read, whatever was read, evaluated, shown or exported before, and whichever parser reads it (another file name appears in the positions only). The same expression always has the same display, TeX form and export, and the same text the same value in every new or used session.",
 ["inputs","histories"],"every text and everything that may go before it",
 "Every test reads a text once, in a new parser.",
 [S+"parser/parse.rs",S+"traits/",S+"evaluate/traits.rs"],[("static tables: CLIMBER, function_map","parser/mod.rs, traits/wolfram/mod.rs")],["ParserSettings::parse, Display, to_tex, to_wolfram, Runner::evaluate"])
p("C30","The head of an expression is what its last arguments apply to",
 "The head of a call with one group of arguments is the function's symbol, with its name space; that of a call with several groups is the same call without the last group, whose other groups keep every argument, option and position, so that head and last group together are the whole call again. The head of any other expression names its kind (Boolean, Integer, Decimal, Symbol, String); a program and an empty statement have the empty statement.",
 ["inputs"],"every expression",
 "No test calls it.",
 [S+"internal/list_like.rs"],[("head","internal/list_like.rs")],["internal::head"])
# ALG END
json_lines="".join(json.dumps(x)+"\n" for x in P)
open(V+'/properties.jsonl','w').write(json_lines)
T="symbolic execution of the real Rust code over symbolic integers, path conditions and assertions decided by z3"
checks=[]
for x in P:
    checks.append({"property":x["id"],"quick_cmd":"python3 check.py %s quick"%x["id"],"thorough_cmd":"python3 check.py %s thorough"%x["id"],
     "technique":T,"level":"model_checking",
     "level_note":"Bounded: within the bounds printed in the evidence file every value of the symbolic inputs is decided by the solver; every path is also replayed natively. Trusts the exactness of num-bigint's arithmetic and z3."})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":[],"notes":"No hooks in /repo: the harness crates use its public interface and patch num-bigint with symbolic integers at the dependency level."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
