"""Which harnesses decide which property: (harness, quick seconds, thorough seconds)."""

TARGETS = {
    "alg": {
        "assumptions": [
            "num-bigint's own arithmetic (+ - * / % comparison, pow, gcd, text) is exact: it is replaced by exact "
            "symbolic integers; num-integer, num-traits and the code of /repo run as they are",
            "conversions to machine integers are explored within the stated windows",
            "z3's answers are right; unknown counts as undecided, never as a pass",
        ],
    },
    "ast": {
        "assumptions": [
            "num-bigint's own arithmetic and text are exact: they are replaced by exact symbolic integers",
            "wolfram_wxf, bigdecimal and text-utils are stand-ins (they are not in the offline crate cache): "
            "an expression tree, a decimal fraction kept as its text, and nothing",
            "pest 2.8.3 from the crate cache stands for the git revision the repository names; the places where it "
            "looks at a character of the text (string, range, character class, end of text) are decided by the solver, "
            "the rest of it and the grammar of /repo run as they are",
            "a symbolic character is held as one of 1024 tokens from U+F0000 on, which no text under test contains; a text "
            "with such tokens is compared in the code of /repo only with the literals found in its sources",
            "z3's answers are right; unknown counts as undecided, never as a pass",
        ],
    },
}

PROPERTIES = {
    "C01": {
        "target": "alg",
        "functions": ["sm_algorithm::power_iu"],
        "harnesses": [("power_any_base", 60, 300), ("power_any_exponent", 60, 300),
                      ("power_of_minus_one", 60, 60), ("power_huge_exponent", 30, 60), ("power_laws", 60, 600),
                      ("power_again", 60, 300)],
    },
    "C02": {
        "target": "alg",
        "functions": ["sm_algorithm::extended_gcd2", "num_integer::Integer::extended_gcd"],
        "harnesses": [("egcd_second_small", 60, 600), ("egcd_first_small", 60, 600), ("egcd_deep", 60, 300), ("egcd_any", 60, 600),
                      ("egcd_again", 60, 300)],
    },
    "C03": {
        "target": "alg",
        "functions": ["sm_algorithm::is_coprime"],
        "harnesses": [("coprime_second_small", 60, 300), ("coprime_first_small", 60, 300),
                      ("coprime_deep", 60, 300),
                      ("coprime_shared", 60, 300), ("coprime_neighbours", 60, 300),
                      ("coprime_again", 60, 300)],
    },
    "C04": {
        "target": "alg",
        "functions": ["sm_algorithm::modulo_inverse", "num_integer::Integer::extended_gcd"],
        "harnesses": [("inverse_small_modulus", 60, 300), ("inverse_small_number", 60, 300),
                      ("inverse_deep", 60, 300), ("inverse_any", 60, 600), ("inverse_negative", 60, 600),
                      ("inverse_again", 60, 300)],
    },
    "C05": {
        "target": "alg",
        "functions": ["sm_algorithm::modulo_division", "num_integer::Integer::extended_gcd"],
        "harnesses": [("division_small_modulus", 60, 600), ("division_small_divisor", 60, 600),
                      ("division_deep", 60, 300), ("division_any", 60, 600),
                      ("division_again", 60, 300)],
    },
    "C06": {
        "target": "alg",
        "functions": ["sm_algorithm::chinese_remainder", "sm_algorithm::modulo_inverse"],
        "harnesses": [("crt_small_moduli", 60, 600), ("crt_large_moduli", 90, 600), ("crt_unequal_lengths", 30, 30), ("crt_many", 60, 300),
                      ("crt_again", 60, 300)],
    },
    "C07": {
        "target": "alg",
        "functions": ["sm_algorithm::factorial_i", "sm_algorithm::factorial_fold_u"],
        "harnesses": [("factorial_any", 60, 300), ("factorial_far", 60, 300),
                      ("factorial_again", 60, 300)],
    },
    "C08": {
        "target": "alg",
        "functions": ["sm_algorithm::fibonacci_i", "sm_algorithm::fibonacci_fold_u", "sm_algorithm::fibonacci_fast_u"],
        "harnesses": [("fibonacci_any", 60, 300),
                      ("fibonacci_again", 60, 300)],
    },
    "C09": {
        "target": "alg",
        "functions": ["sm_algorithm::prime_sum_i", "sm_algorithm::prime_sum_u64"],
        "harnesses": [("prime_sum_any", 60, 300), ("prime_sum_large", 60, 300),
                      ("prime_sum_again", 60, 300)],
    },
    "C10": {
        "target": "alg",
        "functions": ["sm_algorithm::prime_count_i"],
        "harnesses": [("prime_count_any", 60, 300),
                      ("prime_count_again", 60, 300)],
    },
    "C11": {
        "target": "ast",
        "functions": ["sm_ast::Runner::evaluate", "sm_ast::AST::forward", "sm_ast::internal"],
        "harnesses": [("evaluate_tree", 60, 300), ("evaluate_power", 60, 300), ("evaluate_text", 60, 300),
                      ("evaluate_odd", 60, 300), ("evaluate_operators", 60, 300),
                      ("evaluate_binary", 60, 300), ("evaluate_programs", 60, 300), ("internal_functions", 60, 300),
                      ("evaluate_long", 60, 300)],
    },
    "C12": {
        "target": "ast",
        "functions": ["sm_parser::SMParser::parse", "sm_ast::parser::ParserSettings::parse"],
        "harnesses": [("grouping_chain", 60, 300), ("grouping_operands", 60, 300), ("grouping_parentheses", 60, 300),
                      ("grouping_signs", 60, 300), ("grouping_products", 60, 300), ("grouping_long", 60, 300)],
    },
    "C13": {
        "target": "ast",
        "functions": ["<sm_ast::AST as Display>::fmt", "sm_ast::parser::ParserSettings::parse"],
        "harnesses": [("display_small", 60, 300), ("display_wide", 60, 300), ("display_chain", 60, 300),
                      ("display_space", 60, 300), ("display_dots", 60, 300), ("display_calls", 60, 300),
                      ("display_programs", 60, 300), ("display_long", 60, 300)],
    },
    "C14": {
        "target": "ast",
        "functions": ["sm_ast::parser::ParserSettings::parse"],
        "harnesses": [("literal_decimal", 60, 300), ("literal_radix", 60, 300), ("literal_fraction", 60, 300),
                      ("literal_digits", 60, 300)],
    },
    "C15": {
        "target": "ast",
        "functions": ["sm_ast::Runner::evaluate", "sm_ast::Runner::last"],
        "harnesses": [("session", 90, 600), ("session_any", 90, 900), ("session_long", 60, 300), ("session_clones", 60, 300)],
    },
    "C16": {
        "target": "ast",
        "functions": ["sm_ast::parser::ParserSettings::parse"],
        "harnesses": [("dot_calls", 90, 600), ("dots_long", 60, 300)],
    },
    "C17": {
        "target": "ast",
        "functions": ["sm_ast::parser::ParserSettings::parse"],
        "harnesses": [("slices", 90, 600), ("slices_wide", 60, 300)],
    },
    "C18": {
        "target": "ast",
        "functions": ["sm_ast::parser::ParserSettings::parse", "<sm_ast::AST as ToWolfram>::to_wolfram"],
        "harnesses": [("call_arguments", 60, 300), ("lists", 60, 300), ("programs", 60, 300),
                      ("call_names", 60, 300), ("calls_wide", 60, 300)],
    },
    "C19": {
        "target": "ast",
        "functions": ["sm_parser::SMParser::parse", "sm_ast::parser::ParserSettings::parse"],
        "harnesses": [("layout", 90, 900), ("layout_long", 60, 300)],
    },
    "C20": {
        "target": "ast",
        "functions": ["sm_parser::SMParser::parse", "sm_ast::parser::ParserSettings::parse",
                      "<sm_ast::AST as Display>::fmt", "<sm_ast::AST as ToWolfram>::to_wolfram"],
        "harnesses": [("text_any", 120, 1800), ("text_inside", 120, 1800), ("nested_text", 60, 300), ("numbers_inside", 60, 300)],
    },
    "C21": {
        "target": "ast",
        "functions": ["sm_parser::SMParser::parse", "sm_ast::parser::ParserSettings::parse",
                      "sm_ast::Runner::evaluate"],
        "harnesses": [("names", 60, 600), ("strings", 60, 600), ("string_functions", 60, 300),
                      ("references", 60, 300)],
    },
    "C22": {
        "target": "ast",
        "functions": ["<sm_ast::AST as ToWolfram>::to_wolfram", "sm_ast::traits::wolfram::function_map"],
        "harnesses": [("export_pieces", 60, 300), ("export_trees", 60, 300), ("export_any", 60, 900), ("export_long", 60, 300)],
    },
    "C23": {
        "target": "ast",
        "functions": ["sm_ast::parser::ParserSettings::parse_file"],
        "harnesses": [("file_export", 90, 900), ("file_long", 60, 300), ("file_trouble", 30, 60)],
    },
    "C24": {
        "target": "ast",
        "functions": ["sm_ast::parser::ParserSettings::parse", "sm_ast::parser::ParserSettings::get_position"],
        "harnesses": [("positions", 60, 600), ("positions_long", 60, 300)],
    },
    "C25": {
        "target": "ast",
        "functions": ["sm_parser::SMParser::parse"],
        "harnesses": [("grammar_any", 60, 900), ("grammar_sentences", 60, 900), ("grammar_slips", 90, 900), ("grammar_statements", 60, 900)],
        "assumptions": ["the notation of the grammar file means what the pest 2 book says: the file is interpreted by the "
                        "harness on the same lifted pest engine, so the engine itself is not in question"],
    },
    "C26": {
        "target": "ast",
        "functions": ["<sm_ast::AST as ToTex>::to_tex", "sm_ast::traits::tex"],
        "harnesses": [("tex_pieces", 60, 900), ("tex_functions", 60, 300), ("tex_any", 90, 900), ("tex_results", 60, 300), ("tex_long", 60, 300)],
        "assumptions": ["the operands of an infix operator are expected as they are displayed, without grouping, which the "
                        "tests of the repository pin; commands that only concern looks are not compared"],
    },
    "C27": {
        "target": "ast",
        "functions": ["sm_ast::parser::ParserSettings::parse", "sm_ast::parser::ParserSettings::parse_file", "sm_ast::Runner::evaluate",
                      "sm_ast::internal::{factorial, fibonacci, length, first, last}"],
        "harnesses": [("errors_values", 90, 600), ("errors_functions", 60, 300), ("errors_texts", 90, 900), ("errors_files", 30, 60)],
    },
    "C28": {
        "target": "ast",
        "functions": ["sm_ast::parser::{prefix_map, infix_map, suffix_map}", "sm_ast::parser::ParserSettings::parse"],
        "harnesses": [("operators", 60, 300)],
    },
    "C29": {
        "target": "ast",
        "functions": ["sm_ast::parser::ParserSettings::parse", "sm_ast::Runner::evaluate", "<sm_ast::AST as Display>::fmt",
                      "<sm_ast::AST as ToTex>::to_tex", "<sm_ast::AST as ToWolfram>::to_wolfram"],
        "harnesses": [("again_any", 90, 900), ("again_pieces", 60, 300)],
    },
    "C30": {
        "target": "ast",
        "functions": ["sm_ast::internal::head"],
        "harnesses": [("heads", 60, 300)],
    },
}
