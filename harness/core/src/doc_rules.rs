//! The rule table of docs/rules.qmd at the pinned commit: (name, categories, fix, disabled, minimum R version).
//! fix: s(afe) u(nsafe) n(one) ?(documentation and code disagree, not judged).
pub const DOC: &[(&str, &[&str], char, bool, Option<(u32, u32, u32)>)] = &[
    ("all_equal", &["SUSP"], 'u', false, None),
    ("any_duplicated", &["PERF"], 's', false, None),
    ("any_is_na", &["PERF"], 's', false, None),
    ("assignment", &["READ"], 's', true, None),
    ("blanket_suppression", &["COMM"], 'n', false, None),
    ("browser", &["CORR"], '?', false, None),
    ("class_equals", &["SUSP"], '?', false, None),
    ("coalesce", &["READ"], 's', false, Some((4, 4, 0))),
    ("comparison_negation", &["READ"], 's', false, None),
    ("download_file", &["SUSP"], 'n', false, None),
    ("duplicated_arguments", &["SUSP"], 'n', false, None),
    ("duplicated_function_definition", &["CORR"], 'n', false, None),
    ("empty_assignment", &["READ"], '?', false, None),
    ("equals_na", &["CORR"], 's', false, None),
    ("equals_nan", &["CORR"], 's', false, None),
    ("equals_null", &["CORR"], 's', false, None),
    ("expect_length", &["TESTTHAT"], 's', true, None),
    ("expect_match", &["TESTTHAT"], 's', true, None),
    ("expect_named", &["TESTTHAT"], 's', true, None),
    ("expect_no_match", &["TESTTHAT"], 's', true, None),
    ("expect_not", &["TESTTHAT"], 's', true, None),
    ("expect_null", &["TESTTHAT"], 's', true, None),
    ("expect_s3_class", &["TESTTHAT"], 's', true, None),
    ("expect_true_false", &["TESTTHAT"], 's', true, None),
    ("expect_type", &["TESTTHAT"], 's', true, None),
    ("fixed_regex", &["PERF"], 's', true, None),
    ("for_loop_dup_index", &["CORR", "SUSP"], 'n', false, None),
    ("for_loop_index", &["READ"], 'n', false, None),
    ("grepv", &["READ"], 's', false, Some((4, 5, 0))),
    ("if_always_true", &["READ", "SUSP"], 'n', false, None),
    ("implicit_assignment", &["READ"], 'n', false, None),
    ("internal_function", &["SUSP"], 'n', false, None),
    ("invalid_chunk_suppression", &["COMM"], 'n', false, None),
    ("is_numeric", &["READ"], 's', false, None),
    ("length_levels", &["READ"], 's', false, None),
    ("length_test", &["CORR"], 's', false, None),
    ("lengths", &["PERF", "READ"], 's', false, None),
    ("list2df", &["PERF", "READ"], 's', false, Some((4, 0, 0))),
    ("matrix_apply", &["PERF"], 's', false, None),
    ("misnamed_suppression", &["COMM"], 'n', false, None),
    ("misplaced_file_suppression", &["COMM"], 'n', false, None),
    ("misplaced_suppression", &["COMM"], 'n', false, None),
    ("numeric_leading_zero", &["READ"], 's', false, None),
    ("outer_negation", &["PERF", "READ"], 's', false, None),
    ("redundant_equals", &["READ"], 's', false, None),
    ("redundant_ifelse", &["CORR", "PERF", "READ"], 's', false, None),
    ("repeat", &["READ"], 's', false, None),
    ("sample_int", &["READ"], 's', true, None),
    ("seq", &["SUSP"], 's', false, None),
    ("seq2", &["SUSP"], 's', false, None),
    ("sort", &["PERF", "READ"], 's', false, None),
    ("sprintf", &["CORR", "SUSP"], 's', false, None),
    ("string_boundary", &["PERF", "READ"], 's', false, None),
    ("system_file", &["READ"], 's', false, None),
    ("true_false_symbol", &["READ"], 'n', false, None),
    ("undesirable_function", &["CORR"], 'n', false, None),
    ("unexplained_suppression", &["COMM"], 'n', false, None),
    ("unmatched_range_suppression", &["COMM"], 'n', false, None),
    ("unnecessary_nesting", &["READ"], 's', true, None),
    ("unreachable_code", &["READ", "SUSP"], 'n', false, None),
    ("unused_function", &["CORR"], 'n', true, None),
    ("vector_logic", &["PERF"], 'n', false, None),
    ("which_grepl", &["PERF", "READ"], 's', false, None),
];
