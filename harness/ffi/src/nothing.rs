//! P50, second part: every function of the C API that takes a pointer, given none.
use crate::text::hostile;
use moncore::*;

type Any = unsafe extern "C" fn(usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize, usize) -> usize;

extern "C" {
  fn pactffi_add_text_comment();
  fn pactffi_async_message_delete();
  fn pactffi_async_message_generate_contents();
  fn pactffi_async_message_get_contents();
  fn pactffi_async_message_get_contents_bin();
  fn pactffi_async_message_get_contents_length();
  fn pactffi_async_message_get_contents_str();
  fn pactffi_async_message_get_description();
  fn pactffi_async_message_get_provider_state();
  fn pactffi_async_message_get_provider_state_iter();
  fn pactffi_async_message_set_contents_bin();
  fn pactffi_async_message_set_contents_str();
  fn pactffi_async_message_set_description();
  fn pactffi_check_regex();
  fn pactffi_consumer_get_name();
  fn pactffi_fetch_log_buffer();
  fn pactffi_free_string();
  fn pactffi_generate_datetime_string();
  fn pactffi_generate_regex_value();
  fn pactffi_generator_generate_integer();
  fn pactffi_generator_generate_string();
  fn pactffi_generator_to_json();
  fn pactffi_generators_iter_delete();
  fn pactffi_generators_iter_next();
  fn pactffi_generators_iter_pair_delete();
  fn pactffi_get_error_message();
  fn pactffi_given();
  fn pactffi_given_with_param();
  fn pactffi_given_with_params();
  fn pactffi_interaction_test_name();
  fn pactffi_log_message();
  fn pactffi_match_message();
  fn pactffi_matcher_definition_delete();
  fn pactffi_matcher_definition_error();
  fn pactffi_matcher_definition_generator();
  fn pactffi_matcher_definition_iter();
  fn pactffi_matcher_definition_value();
  fn pactffi_matcher_definition_value_type();
  fn pactffi_matches_binary_value();
  fn pactffi_matches_bool_value();
  fn pactffi_matches_f64_value();
  fn pactffi_matches_i64_value();
  fn pactffi_matches_json_value();
  fn pactffi_matches_string_value();
  fn pactffi_matches_u64_value();
  fn pactffi_matching_rule_id();
  fn pactffi_matching_rule_iter_delete();
  fn pactffi_matching_rule_iter_next();
  fn pactffi_matching_rule_pointer();
  fn pactffi_matching_rule_reference_name();
  fn pactffi_matching_rule_to_json();
  fn pactffi_matching_rule_value();
  fn pactffi_matching_rules_iter_delete();
  fn pactffi_matching_rules_iter_next();
  fn pactffi_matching_rules_iter_pair_delete();
  fn pactffi_message_contents_delete();
  fn pactffi_message_contents_get_contents_bin();
  fn pactffi_message_contents_get_contents_length();
  fn pactffi_message_contents_get_contents_str();
  fn pactffi_message_contents_get_generators_iter();
  fn pactffi_message_contents_get_matching_rule_iter();
  fn pactffi_message_contents_get_metadata_iter();
  fn pactffi_message_contents_set_contents_bin();
  fn pactffi_message_contents_set_contents_str();
  fn pactffi_message_delete();
  fn pactffi_message_expects_to_receive();
  fn pactffi_message_find_metadata();
  fn pactffi_message_get_contents();
  fn pactffi_message_get_contents_bin();
  fn pactffi_message_get_contents_length();
  fn pactffi_message_get_description();
  fn pactffi_message_get_metadata_iter();
  fn pactffi_message_get_provider_state();
  fn pactffi_message_get_provider_state_iter();
  fn pactffi_message_given();
  fn pactffi_message_given_with_param();
  fn pactffi_message_insert_metadata();
  fn pactffi_message_metadata_iter_delete();
  fn pactffi_message_metadata_iter_next();
  fn pactffi_message_metadata_pair_delete();
  fn pactffi_message_new_from_body();
  fn pactffi_message_new_from_json();
  fn pactffi_message_pact_delete();
  fn pactffi_message_pact_find_metadata();
  fn pactffi_message_pact_get_consumer();
  fn pactffi_message_pact_get_message_iter();
  fn pactffi_message_pact_get_metadata_iter();
  fn pactffi_message_pact_get_provider();
  fn pactffi_message_pact_message_iter_delete();
  fn pactffi_message_pact_message_iter_next();
  fn pactffi_message_pact_metadata_iter_delete();
  fn pactffi_message_pact_metadata_iter_next();
  fn pactffi_message_pact_metadata_triple_delete();
  fn pactffi_message_pact_new_from_json();
  fn pactffi_message_set_contents();
  fn pactffi_message_set_contents_bin();
  fn pactffi_message_set_description();
  fn pactffi_message_with_contents();
  fn pactffi_message_with_metadata();
  fn pactffi_message_with_metadata_v2();
  fn pactffi_mismatch_ansi_description();
  fn pactffi_mismatch_description();
  fn pactffi_mismatch_summary();
  fn pactffi_mismatch_to_json();
  fn pactffi_mismatch_type();
  fn pactffi_mismatches_delete();
  fn pactffi_mismatches_get_iter();
  fn pactffi_mismatches_iter_delete();
  fn pactffi_mismatches_iter_next();
  fn pactffi_new_async_message();
  fn pactffi_new_interaction();
  fn pactffi_new_message();
  fn pactffi_new_message_interaction();
  fn pactffi_new_message_pact();
  fn pactffi_new_pact();
  fn pactffi_new_sync_message_interaction();
  fn pactffi_pact_async_message_iter_delete();
  fn pactffi_pact_async_message_iter_next();
  fn pactffi_pact_consumer_delete();
  fn pactffi_pact_get_consumer();
  fn pactffi_pact_get_provider();
  fn pactffi_pact_handle_write_file();
  fn pactffi_pact_interaction_as_asynchronous_message();
  fn pactffi_pact_interaction_as_message();
  fn pactffi_pact_interaction_as_synchronous_http();
  fn pactffi_pact_interaction_as_synchronous_message();
  fn pactffi_pact_interaction_delete();
  fn pactffi_pact_interaction_iter_delete();
  fn pactffi_pact_interaction_iter_next();
  fn pactffi_pact_message_iter_delete();
  fn pactffi_pact_message_iter_next();
  fn pactffi_pact_model_delete();
  fn pactffi_pact_model_interaction_iterator();
  fn pactffi_pact_provider_delete();
  fn pactffi_pact_spec_version();
  fn pactffi_pact_sync_http_iter_delete();
  fn pactffi_pact_sync_http_iter_next();
  fn pactffi_pact_sync_message_iter_delete();
  fn pactffi_pact_sync_message_iter_next();
  fn pactffi_parse_matcher_definition();
  fn pactffi_parse_pact_json();
  fn pactffi_provider_get_name();
  fn pactffi_provider_state_delete();
  fn pactffi_provider_state_get_name();
  fn pactffi_provider_state_get_param_iter();
  fn pactffi_provider_state_iter_delete();
  fn pactffi_provider_state_iter_next();
  fn pactffi_provider_state_param_iter_delete();
  fn pactffi_provider_state_param_iter_next();
  fn pactffi_provider_state_param_pair_delete();
  fn pactffi_request_contents_get_generators_iter();
  fn pactffi_request_contents_get_matching_rule_iter();
  fn pactffi_response_contents_get_generators_iter();
  fn pactffi_response_contents_get_matching_rule_iter();
  fn pactffi_response_status_v2();
  fn pactffi_set_comment();
  fn pactffi_set_header();
  fn pactffi_set_key();
  fn pactffi_string_delete();
  fn pactffi_sync_http_delete();
  fn pactffi_sync_http_get_description();
  fn pactffi_sync_http_get_provider_state();
  fn pactffi_sync_http_get_provider_state_iter();
  fn pactffi_sync_http_get_request();
  fn pactffi_sync_http_get_request_contents();
  fn pactffi_sync_http_get_request_contents_bin();
  fn pactffi_sync_http_get_request_contents_length();
  fn pactffi_sync_http_get_response();
  fn pactffi_sync_http_get_response_contents();
  fn pactffi_sync_http_get_response_contents_bin();
  fn pactffi_sync_http_get_response_contents_length();
  fn pactffi_sync_http_set_description();
  fn pactffi_sync_http_set_request_contents();
  fn pactffi_sync_http_set_request_contents_bin();
  fn pactffi_sync_http_set_response_contents();
  fn pactffi_sync_http_set_response_contents_bin();
  fn pactffi_sync_message_delete();
  fn pactffi_sync_message_generate_request_contents();
  fn pactffi_sync_message_generate_response_contents();
  fn pactffi_sync_message_get_description();
  fn pactffi_sync_message_get_number_responses();
  fn pactffi_sync_message_get_provider_state();
  fn pactffi_sync_message_get_provider_state_iter();
  fn pactffi_sync_message_get_request_contents();
  fn pactffi_sync_message_get_request_contents_bin();
  fn pactffi_sync_message_get_request_contents_length();
  fn pactffi_sync_message_get_request_contents_str();
  fn pactffi_sync_message_get_response_contents();
  fn pactffi_sync_message_get_response_contents_bin();
  fn pactffi_sync_message_get_response_contents_length();
  fn pactffi_sync_message_get_response_contents_str();
  fn pactffi_sync_message_set_description();
  fn pactffi_sync_message_set_request_contents_bin();
  fn pactffi_sync_message_set_request_contents_str();
  fn pactffi_sync_message_set_response_contents_bin();
  fn pactffi_sync_message_set_response_contents_str();
  fn pactffi_upon_receiving();
  fn pactffi_validate_datetime();
  fn pactffi_verifier_add_custom_header();
  fn pactffi_verifier_add_directory_source();
  fn pactffi_verifier_add_file_source();
  fn pactffi_verifier_add_provider_transport();
  fn pactffi_verifier_broker_source();
  fn pactffi_verifier_broker_source_with_selectors();
  fn pactffi_verifier_execute();
  fn pactffi_verifier_json();
  fn pactffi_verifier_logs();
  fn pactffi_verifier_logs_for_provider();
  fn pactffi_verifier_new_for_application();
  fn pactffi_verifier_output();
  fn pactffi_verifier_set_coloured_output();
  fn pactffi_verifier_set_consumer_filters();
  fn pactffi_verifier_set_filter_info();
  fn pactffi_verifier_set_no_pacts_is_error();
  fn pactffi_verifier_set_provider_info();
  fn pactffi_verifier_set_provider_state();
  fn pactffi_verifier_set_publish_options();
  fn pactffi_verifier_set_verification_options();
  fn pactffi_verifier_shutdown();
  fn pactffi_verifier_url_source();
  fn pactffi_with_binary_body();
  fn pactffi_with_binary_file();
  fn pactffi_with_body();
  fn pactffi_with_generators();
  fn pactffi_with_header();
  fn pactffi_with_header_v2();
  fn pactffi_with_matching_rules();
  fn pactffi_with_message_pact_metadata();
  fn pactffi_with_metadata();
  fn pactffi_with_multipart_file();
  fn pactffi_with_multipart_file_v2();
  fn pactffi_with_pact_metadata();
  fn pactffi_with_query_parameter();
  fn pactffi_with_query_parameter_v2();
  fn pactffi_with_request();
  fn pactffi_write_message_pact_file();
  fn pactffi_write_pact_file();
}

/// Name, kind of each argument (p a pointer, t a text, n a number), and whether what is given back for nothing is nothing.
static ALL: &[(&str, unsafe extern "C" fn(), &str, bool)] = &[
  ("pactffi_add_text_comment", pactffi_add_text_comment, "nt", false),
  ("pactffi_async_message_delete", pactffi_async_message_delete, "p", false),
  ("pactffi_async_message_generate_contents", pactffi_async_message_generate_contents, "p", true),
  ("pactffi_async_message_get_contents", pactffi_async_message_get_contents, "p", true),
  ("pactffi_async_message_get_contents_bin", pactffi_async_message_get_contents_bin, "p", true),
  ("pactffi_async_message_get_contents_length", pactffi_async_message_get_contents_length, "p", false),
  ("pactffi_async_message_get_contents_str", pactffi_async_message_get_contents_str, "p", true),
  ("pactffi_async_message_get_description", pactffi_async_message_get_description, "p", true),
  ("pactffi_async_message_get_provider_state", pactffi_async_message_get_provider_state, "pn", true),
  ("pactffi_async_message_get_provider_state_iter", pactffi_async_message_get_provider_state_iter, "p", true),
  ("pactffi_async_message_set_contents_bin", pactffi_async_message_set_contents_bin, "ppnt", false),
  ("pactffi_async_message_set_contents_str", pactffi_async_message_set_contents_str, "ptt", false),
  ("pactffi_async_message_set_description", pactffi_async_message_set_description, "pt", false),
  ("pactffi_check_regex", pactffi_check_regex, "tt", false),
  ("pactffi_consumer_get_name", pactffi_consumer_get_name, "p", true),
  ("pactffi_fetch_log_buffer", pactffi_fetch_log_buffer, "t", false),
  ("pactffi_free_string", pactffi_free_string, "p", false),
  ("pactffi_generate_datetime_string", pactffi_generate_datetime_string, "t", false),
  ("pactffi_generate_regex_value", pactffi_generate_regex_value, "t", false),
  ("pactffi_generator_generate_integer", pactffi_generator_generate_integer, "pt", false),
  ("pactffi_generator_generate_string", pactffi_generator_generate_string, "pt", true),
  ("pactffi_generator_to_json", pactffi_generator_to_json, "p", true),
  ("pactffi_generators_iter_delete", pactffi_generators_iter_delete, "p", false),
  ("pactffi_generators_iter_next", pactffi_generators_iter_next, "p", true),
  ("pactffi_generators_iter_pair_delete", pactffi_generators_iter_pair_delete, "p", false),
  ("pactffi_get_error_message", pactffi_get_error_message, "pn", false),
  ("pactffi_given", pactffi_given, "nt", false),
  ("pactffi_given_with_param", pactffi_given_with_param, "nttt", false),
  ("pactffi_given_with_params", pactffi_given_with_params, "ntt", false),
  ("pactffi_interaction_test_name", pactffi_interaction_test_name, "nt", false),
  ("pactffi_log_message", pactffi_log_message, "ttt", false),
  ("pactffi_match_message", pactffi_match_message, "pp", true),
  ("pactffi_matcher_definition_delete", pactffi_matcher_definition_delete, "p", false),
  ("pactffi_matcher_definition_error", pactffi_matcher_definition_error, "p", true),
  ("pactffi_matcher_definition_generator", pactffi_matcher_definition_generator, "p", true),
  ("pactffi_matcher_definition_iter", pactffi_matcher_definition_iter, "p", true),
  ("pactffi_matcher_definition_value", pactffi_matcher_definition_value, "p", true),
  ("pactffi_matcher_definition_value_type", pactffi_matcher_definition_value_type, "p", false),
  ("pactffi_matches_binary_value", pactffi_matches_binary_value, "ppnpnn", false),
  ("pactffi_matches_bool_value", pactffi_matches_bool_value, "pnnn", false),
  ("pactffi_matches_f64_value", pactffi_matches_f64_value, "pnnn", false),
  ("pactffi_matches_i64_value", pactffi_matches_i64_value, "pnnn", false),
  ("pactffi_matches_json_value", pactffi_matches_json_value, "pttn", false),
  ("pactffi_matches_string_value", pactffi_matches_string_value, "pttn", false),
  ("pactffi_matches_u64_value", pactffi_matches_u64_value, "pnnn", false),
  ("pactffi_matching_rule_id", pactffi_matching_rule_id, "p", false),
  ("pactffi_matching_rule_iter_delete", pactffi_matching_rule_iter_delete, "p", false),
  ("pactffi_matching_rule_iter_next", pactffi_matching_rule_iter_next, "p", true),
  ("pactffi_matching_rule_pointer", pactffi_matching_rule_pointer, "p", true),
  ("pactffi_matching_rule_reference_name", pactffi_matching_rule_reference_name, "p", true),
  ("pactffi_matching_rule_to_json", pactffi_matching_rule_to_json, "p", true),
  ("pactffi_matching_rule_value", pactffi_matching_rule_value, "p", true),
  ("pactffi_matching_rules_iter_delete", pactffi_matching_rules_iter_delete, "p", false),
  ("pactffi_matching_rules_iter_next", pactffi_matching_rules_iter_next, "p", true),
  ("pactffi_matching_rules_iter_pair_delete", pactffi_matching_rules_iter_pair_delete, "p", false),
  ("pactffi_message_contents_delete", pactffi_message_contents_delete, "p", false),
  ("pactffi_message_contents_get_contents_bin", pactffi_message_contents_get_contents_bin, "p", true),
  ("pactffi_message_contents_get_contents_length", pactffi_message_contents_get_contents_length, "p", false),
  ("pactffi_message_contents_get_contents_str", pactffi_message_contents_get_contents_str, "p", true),
  ("pactffi_message_contents_get_generators_iter", pactffi_message_contents_get_generators_iter, "pn", true),
  ("pactffi_message_contents_get_matching_rule_iter", pactffi_message_contents_get_matching_rule_iter, "pn", true),
  ("pactffi_message_contents_get_metadata_iter", pactffi_message_contents_get_metadata_iter, "p", true),
  ("pactffi_message_contents_set_contents_bin", pactffi_message_contents_set_contents_bin, "ppnt", false),
  ("pactffi_message_contents_set_contents_str", pactffi_message_contents_set_contents_str, "ptt", false),
  ("pactffi_message_delete", pactffi_message_delete, "p", false),
  ("pactffi_message_expects_to_receive", pactffi_message_expects_to_receive, "nt", false),
  ("pactffi_message_find_metadata", pactffi_message_find_metadata, "pt", true),
  ("pactffi_message_get_contents", pactffi_message_get_contents, "p", true),
  ("pactffi_message_get_contents_bin", pactffi_message_get_contents_bin, "p", true),
  ("pactffi_message_get_contents_length", pactffi_message_get_contents_length, "p", false),
  ("pactffi_message_get_description", pactffi_message_get_description, "p", true),
  ("pactffi_message_get_metadata_iter", pactffi_message_get_metadata_iter, "p", true),
  ("pactffi_message_get_provider_state", pactffi_message_get_provider_state, "pn", true),
  ("pactffi_message_get_provider_state_iter", pactffi_message_get_provider_state_iter, "p", true),
  ("pactffi_message_given", pactffi_message_given, "nt", false),
  ("pactffi_message_given_with_param", pactffi_message_given_with_param, "nttt", false),
  ("pactffi_message_insert_metadata", pactffi_message_insert_metadata, "ptt", false),
  ("pactffi_message_metadata_iter_delete", pactffi_message_metadata_iter_delete, "p", false),
  ("pactffi_message_metadata_iter_next", pactffi_message_metadata_iter_next, "p", true),
  ("pactffi_message_metadata_pair_delete", pactffi_message_metadata_pair_delete, "p", false),
  ("pactffi_message_new_from_body", pactffi_message_new_from_body, "tt", false),
  ("pactffi_message_new_from_json", pactffi_message_new_from_json, "ntn", false),
  ("pactffi_message_pact_delete", pactffi_message_pact_delete, "p", false),
  ("pactffi_message_pact_find_metadata", pactffi_message_pact_find_metadata, "ptt", true),
  ("pactffi_message_pact_get_consumer", pactffi_message_pact_get_consumer, "p", true),
  ("pactffi_message_pact_get_message_iter", pactffi_message_pact_get_message_iter, "p", true),
  ("pactffi_message_pact_get_metadata_iter", pactffi_message_pact_get_metadata_iter, "p", true),
  ("pactffi_message_pact_get_provider", pactffi_message_pact_get_provider, "p", true),
  ("pactffi_message_pact_message_iter_delete", pactffi_message_pact_message_iter_delete, "p", false),
  ("pactffi_message_pact_message_iter_next", pactffi_message_pact_message_iter_next, "p", true),
  ("pactffi_message_pact_metadata_iter_delete", pactffi_message_pact_metadata_iter_delete, "p", false),
  ("pactffi_message_pact_metadata_iter_next", pactffi_message_pact_metadata_iter_next, "p", true),
  ("pactffi_message_pact_metadata_triple_delete", pactffi_message_pact_metadata_triple_delete, "p", false),
  ("pactffi_message_pact_new_from_json", pactffi_message_pact_new_from_json, "tt", false),
  ("pactffi_message_set_contents", pactffi_message_set_contents, "ptt", false),
  ("pactffi_message_set_contents_bin", pactffi_message_set_contents_bin, "ppnt", false),
  ("pactffi_message_set_description", pactffi_message_set_description, "pt", false),
  ("pactffi_message_with_contents", pactffi_message_with_contents, "ntpn", false),
  ("pactffi_message_with_metadata", pactffi_message_with_metadata, "ntt", false),
  ("pactffi_message_with_metadata_v2", pactffi_message_with_metadata_v2, "ntt", false),
  ("pactffi_mismatch_ansi_description", pactffi_mismatch_ansi_description, "p", true),
  ("pactffi_mismatch_description", pactffi_mismatch_description, "p", true),
  ("pactffi_mismatch_summary", pactffi_mismatch_summary, "p", true),
  ("pactffi_mismatch_to_json", pactffi_mismatch_to_json, "p", true),
  ("pactffi_mismatch_type", pactffi_mismatch_type, "p", true),
  ("pactffi_mismatches_delete", pactffi_mismatches_delete, "p", false),
  ("pactffi_mismatches_get_iter", pactffi_mismatches_get_iter, "p", true),
  ("pactffi_mismatches_iter_delete", pactffi_mismatches_iter_delete, "p", false),
  ("pactffi_mismatches_iter_next", pactffi_mismatches_iter_next, "p", true),
  ("pactffi_new_async_message", pactffi_new_async_message, "nt", false),
  ("pactffi_new_interaction", pactffi_new_interaction, "nt", false),
  ("pactffi_new_message", pactffi_new_message, "nt", false),
  ("pactffi_new_message_interaction", pactffi_new_message_interaction, "nt", false),
  ("pactffi_new_message_pact", pactffi_new_message_pact, "tt", false),
  ("pactffi_new_pact", pactffi_new_pact, "tt", false),
  ("pactffi_new_sync_message_interaction", pactffi_new_sync_message_interaction, "nt", false),
  ("pactffi_pact_async_message_iter_delete", pactffi_pact_async_message_iter_delete, "p", false),
  ("pactffi_pact_async_message_iter_next", pactffi_pact_async_message_iter_next, "p", true),
  ("pactffi_pact_consumer_delete", pactffi_pact_consumer_delete, "p", false),
  ("pactffi_pact_get_consumer", pactffi_pact_get_consumer, "p", true),
  ("pactffi_pact_get_provider", pactffi_pact_get_provider, "p", true),
  ("pactffi_pact_handle_write_file", pactffi_pact_handle_write_file, "ntn", false),
  ("pactffi_pact_interaction_as_asynchronous_message", pactffi_pact_interaction_as_asynchronous_message, "p", true),
  ("pactffi_pact_interaction_as_message", pactffi_pact_interaction_as_message, "p", true),
  ("pactffi_pact_interaction_as_synchronous_http", pactffi_pact_interaction_as_synchronous_http, "p", true),
  ("pactffi_pact_interaction_as_synchronous_message", pactffi_pact_interaction_as_synchronous_message, "p", true),
  ("pactffi_pact_interaction_delete", pactffi_pact_interaction_delete, "p", false),
  ("pactffi_pact_interaction_iter_delete", pactffi_pact_interaction_iter_delete, "p", false),
  ("pactffi_pact_interaction_iter_next", pactffi_pact_interaction_iter_next, "p", true),
  ("pactffi_pact_message_iter_delete", pactffi_pact_message_iter_delete, "p", false),
  ("pactffi_pact_message_iter_next", pactffi_pact_message_iter_next, "p", true),
  ("pactffi_pact_model_delete", pactffi_pact_model_delete, "p", false),
  ("pactffi_pact_model_interaction_iterator", pactffi_pact_model_interaction_iterator, "p", true),
  ("pactffi_pact_provider_delete", pactffi_pact_provider_delete, "p", false),
  ("pactffi_pact_spec_version", pactffi_pact_spec_version, "p", false),
  ("pactffi_pact_sync_http_iter_delete", pactffi_pact_sync_http_iter_delete, "p", false),
  ("pactffi_pact_sync_http_iter_next", pactffi_pact_sync_http_iter_next, "p", true),
  ("pactffi_pact_sync_message_iter_delete", pactffi_pact_sync_message_iter_delete, "p", false),
  ("pactffi_pact_sync_message_iter_next", pactffi_pact_sync_message_iter_next, "p", true),
  ("pactffi_parse_matcher_definition", pactffi_parse_matcher_definition, "t", false),
  ("pactffi_parse_pact_json", pactffi_parse_pact_json, "t", false),
  ("pactffi_provider_get_name", pactffi_provider_get_name, "p", true),
  ("pactffi_provider_state_delete", pactffi_provider_state_delete, "p", false),
  ("pactffi_provider_state_get_name", pactffi_provider_state_get_name, "p", true),
  ("pactffi_provider_state_get_param_iter", pactffi_provider_state_get_param_iter, "p", true),
  ("pactffi_provider_state_iter_delete", pactffi_provider_state_iter_delete, "p", false),
  ("pactffi_provider_state_iter_next", pactffi_provider_state_iter_next, "p", true),
  ("pactffi_provider_state_param_iter_delete", pactffi_provider_state_param_iter_delete, "p", false),
  ("pactffi_provider_state_param_iter_next", pactffi_provider_state_param_iter_next, "p", true),
  ("pactffi_provider_state_param_pair_delete", pactffi_provider_state_param_pair_delete, "p", false),
  ("pactffi_request_contents_get_generators_iter", pactffi_request_contents_get_generators_iter, "pn", true),
  ("pactffi_request_contents_get_matching_rule_iter", pactffi_request_contents_get_matching_rule_iter, "pn", true),
  ("pactffi_response_contents_get_generators_iter", pactffi_response_contents_get_generators_iter, "pn", true),
  ("pactffi_response_contents_get_matching_rule_iter", pactffi_response_contents_get_matching_rule_iter, "pn", true),
  ("pactffi_response_status_v2", pactffi_response_status_v2, "nt", false),
  ("pactffi_set_comment", pactffi_set_comment, "ntt", false),
  ("pactffi_set_header", pactffi_set_header, "nntt", false),
  ("pactffi_set_key", pactffi_set_key, "nt", false),
  ("pactffi_string_delete", pactffi_string_delete, "p", false),
  ("pactffi_sync_http_delete", pactffi_sync_http_delete, "p", false),
  ("pactffi_sync_http_get_description", pactffi_sync_http_get_description, "p", true),
  ("pactffi_sync_http_get_provider_state", pactffi_sync_http_get_provider_state, "pn", true),
  ("pactffi_sync_http_get_provider_state_iter", pactffi_sync_http_get_provider_state_iter, "p", true),
  ("pactffi_sync_http_get_request", pactffi_sync_http_get_request, "p", true),
  ("pactffi_sync_http_get_request_contents", pactffi_sync_http_get_request_contents, "p", true),
  ("pactffi_sync_http_get_request_contents_bin", pactffi_sync_http_get_request_contents_bin, "p", true),
  ("pactffi_sync_http_get_request_contents_length", pactffi_sync_http_get_request_contents_length, "p", false),
  ("pactffi_sync_http_get_response", pactffi_sync_http_get_response, "p", true),
  ("pactffi_sync_http_get_response_contents", pactffi_sync_http_get_response_contents, "p", true),
  ("pactffi_sync_http_get_response_contents_bin", pactffi_sync_http_get_response_contents_bin, "p", true),
  ("pactffi_sync_http_get_response_contents_length", pactffi_sync_http_get_response_contents_length, "p", false),
  ("pactffi_sync_http_set_description", pactffi_sync_http_set_description, "pt", false),
  ("pactffi_sync_http_set_request_contents", pactffi_sync_http_set_request_contents, "ptt", false),
  ("pactffi_sync_http_set_request_contents_bin", pactffi_sync_http_set_request_contents_bin, "ppnt", false),
  ("pactffi_sync_http_set_response_contents", pactffi_sync_http_set_response_contents, "ptt", false),
  ("pactffi_sync_http_set_response_contents_bin", pactffi_sync_http_set_response_contents_bin, "ppnt", false),
  ("pactffi_sync_message_delete", pactffi_sync_message_delete, "p", false),
  ("pactffi_sync_message_generate_request_contents", pactffi_sync_message_generate_request_contents, "p", true),
  ("pactffi_sync_message_generate_response_contents", pactffi_sync_message_generate_response_contents, "pn", true),
  ("pactffi_sync_message_get_description", pactffi_sync_message_get_description, "p", true),
  ("pactffi_sync_message_get_number_responses", pactffi_sync_message_get_number_responses, "p", false),
  ("pactffi_sync_message_get_provider_state", pactffi_sync_message_get_provider_state, "pn", true),
  ("pactffi_sync_message_get_provider_state_iter", pactffi_sync_message_get_provider_state_iter, "p", true),
  ("pactffi_sync_message_get_request_contents", pactffi_sync_message_get_request_contents, "p", true),
  ("pactffi_sync_message_get_request_contents_bin", pactffi_sync_message_get_request_contents_bin, "p", true),
  ("pactffi_sync_message_get_request_contents_length", pactffi_sync_message_get_request_contents_length, "p", false),
  ("pactffi_sync_message_get_request_contents_str", pactffi_sync_message_get_request_contents_str, "p", true),
  ("pactffi_sync_message_get_response_contents", pactffi_sync_message_get_response_contents, "pn", true),
  ("pactffi_sync_message_get_response_contents_bin", pactffi_sync_message_get_response_contents_bin, "pn", true),
  ("pactffi_sync_message_get_response_contents_length", pactffi_sync_message_get_response_contents_length, "pn", false),
  ("pactffi_sync_message_get_response_contents_str", pactffi_sync_message_get_response_contents_str, "pn", true),
  ("pactffi_sync_message_set_description", pactffi_sync_message_set_description, "pt", false),
  ("pactffi_sync_message_set_request_contents_bin", pactffi_sync_message_set_request_contents_bin, "ppnt", false),
  ("pactffi_sync_message_set_request_contents_str", pactffi_sync_message_set_request_contents_str, "ptt", false),
  ("pactffi_sync_message_set_response_contents_bin", pactffi_sync_message_set_response_contents_bin, "pnpnt", false),
  ("pactffi_sync_message_set_response_contents_str", pactffi_sync_message_set_response_contents_str, "pntt", false),
  ("pactffi_upon_receiving", pactffi_upon_receiving, "nt", false),
  ("pactffi_validate_datetime", pactffi_validate_datetime, "tt", false),
  ("pactffi_verifier_add_custom_header", pactffi_verifier_add_custom_header, "ptt", false),
  ("pactffi_verifier_add_directory_source", pactffi_verifier_add_directory_source, "pt", false),
  ("pactffi_verifier_add_file_source", pactffi_verifier_add_file_source, "pt", false),
  ("pactffi_verifier_add_provider_transport", pactffi_verifier_add_provider_transport, "ptntt", false),
  ("pactffi_verifier_broker_source", pactffi_verifier_broker_source, "ptttt", false),
  ("pactffi_verifier_broker_source_with_selectors", pactffi_verifier_broker_source_with_selectors, "pttttntpntpnpn", false),
  ("pactffi_verifier_execute", pactffi_verifier_execute, "p", false),
  ("pactffi_verifier_json", pactffi_verifier_json, "p", true),
  ("pactffi_verifier_logs", pactffi_verifier_logs, "p", true),
  ("pactffi_verifier_logs_for_provider", pactffi_verifier_logs_for_provider, "t", false),
  ("pactffi_verifier_new_for_application", pactffi_verifier_new_for_application, "tt", false),
  ("pactffi_verifier_output", pactffi_verifier_output, "pn", true),
  ("pactffi_verifier_set_coloured_output", pactffi_verifier_set_coloured_output, "pn", false),
  ("pactffi_verifier_set_consumer_filters", pactffi_verifier_set_consumer_filters, "ppn", false),
  ("pactffi_verifier_set_filter_info", pactffi_verifier_set_filter_info, "pttn", false),
  ("pactffi_verifier_set_no_pacts_is_error", pactffi_verifier_set_no_pacts_is_error, "pn", false),
  ("pactffi_verifier_set_provider_info", pactffi_verifier_set_provider_info, "ptttnt", false),
  ("pactffi_verifier_set_provider_state", pactffi_verifier_set_provider_state, "ptnn", false),
  ("pactffi_verifier_set_publish_options", pactffi_verifier_set_publish_options, "pttpnt", false),
  ("pactffi_verifier_set_verification_options", pactffi_verifier_set_verification_options, "pnn", false),
  ("pactffi_verifier_shutdown", pactffi_verifier_shutdown, "p", false),
  ("pactffi_verifier_url_source", pactffi_verifier_url_source, "ptttt", false),
  ("pactffi_with_binary_body", pactffi_with_binary_body, "nntpn", false),
  ("pactffi_with_binary_file", pactffi_with_binary_file, "nntpn", false),
  ("pactffi_with_body", pactffi_with_body, "nntt", false),
  ("pactffi_with_generators", pactffi_with_generators, "nnt", false),
  ("pactffi_with_header", pactffi_with_header, "nntnt", false),
  ("pactffi_with_header_v2", pactffi_with_header_v2, "nntnt", false),
  ("pactffi_with_matching_rules", pactffi_with_matching_rules, "nnt", false),
  ("pactffi_with_message_pact_metadata", pactffi_with_message_pact_metadata, "nttt", false),
  ("pactffi_with_metadata", pactffi_with_metadata, "nttn", false),
  ("pactffi_with_multipart_file", pactffi_with_multipart_file, "nnttt", false),
  ("pactffi_with_multipart_file_v2", pactffi_with_multipart_file_v2, "nntttt", false),
  ("pactffi_with_pact_metadata", pactffi_with_pact_metadata, "nttt", false),
  ("pactffi_with_query_parameter", pactffi_with_query_parameter, "ntnt", false),
  ("pactffi_with_query_parameter_v2", pactffi_with_query_parameter_v2, "ntnt", false),
  ("pactffi_with_request", pactffi_with_request, "ntt", false),
  ("pactffi_write_message_pact_file", pactffi_write_message_pact_file, "ntn", false),
  ("pactffi_write_pact_file", pactffi_write_pact_file, "ntn", false),
];

/// Nothing where a pointer is wanted: the call comes back, and gives nothing.
pub fn nothing(cx: &mut Cx) -> Verdict {
  let (name, f, kinds, empty) = ALL[cx.case as usize % ALL.len()];
  let round = cx.case as usize / ALL.len();
  let mut kept = vec![];
  let mut args = [0usize; 14];
  // first no texts either, then with some of them
  for (n, k) in kinds.bytes().enumerate() {
    args[n] = match k {
      b'n' if round == 0 => 0,
      b'n' => cx.rng.us(2),
      b't' if round > 0 && !name.contains("write") && cx.rng.bool() => { let t = hostile(&mut cx.rng); kept.push(t); kept.last().unwrap().ptr() as usize }
      _ => 0
    };
  }
  cx.note(format!("{}({:?})", name, &args[..kinds.len()]));
  if std::env::var("PACTMON_TRACE").is_ok() { eprintln!("{}({:?})", name, &args[..kinds.len()]); }
  let f: Any = unsafe { std::mem::transmute(f) };
  let r = unsafe { f(args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7], args[8], args[9], args[10], args[11], args[12], args[13]) };
  ensure!(!empty || r == 0, "something", "{} gives something for nothing", name);
  cx.tick("calls with nothing");
  cx.saw(name.to_string());
  Ok(())
}
