// name, tier (Q quick, T thorough only), unwinding bound, harness
harnesses! {
	c30_ascii Q 9 |s| h::blank_ascii::<_, 6>(s);
	c30_ascii_long Q 12 |s| h::blank_ascii::<_, 9>(s);
	c30_owned Q 9 |s| h::blank_owned::<_, 5>(s);
	c30_unicode Q 16 |s| h::blank_unicode::<_, 2>(s);
	c30_unicode_long Q 20 |s| h::blank_unicode::<_, 3>(s);
	c30_ascii_deep T 17 |s| h::blank_ascii::<_, 14>(s);
	c30_unicode_deep T 26 |s| h::blank_unicode::<_, 5>(s);
	c30_suffix Q 7 |s| h::blank_suffix::<_, 3>(s);
	c30_from_str Q 7 |s| h::blank_parse::<_, 5>(s, false);
	c30_serde Q 7 |s| h::blank_parse::<_, 5>(s, true);
	c31_number8 Q 6 |s| h::blank_number(s, 8);
	c31_number16 Q 6 |s| h::blank_number(s, 16);
	c31_number32 Q 6 |s| h::blank_number(s, 32);
	c31_number64 Q 6 |s| h::blank_number(s, 64);
	c31_wide16 Q 8 |s| h::generator_wide(s, "6553", 65530, 10, false);
	c31_wide32 Q 12 |s| h::generator_wide(s, "429496729", 4294967290, 10, false);
	c31_wide64 Q 22 |s| h::generator_wide(s, "1844674407370955161", 18446744073709551610, 5, false);
	c31_wide5 Q 8 |s| h::generator_wide(s, "9999", 99990, 10, true);
	c31_number_wide16 Q 8 |s| h::number_wide(s, "6553", 65530, 10);
	c31_number_wide32 Q 12 |s| h::number_wide(s, "429496729", 4294967290, 10);
	c31_number_wide64 Q 22 |s| h::number_wide(s, "1844674407370955161", 18446744073709551610, 6);
	c31_prefix3 Q 10 |s| h::generator(s, 3, true, 1);
	c31_plain Q 6 |s| h::generator(s, 0, false, 2);
	c31_prefix Q 6 |s| h::generator(s, 1, false, 2);
	c31_term Q 6 |s| h::generator(s, 1, true, 2);
	c31_term_plain T 6 |s| h::generator(s, 0, true, 2);
	c32_string Q 4 |s| h::show_string::<_, 2>(s);
	c32_owned Q 4 |s| h::show_owned::<_, 1>(s);
	c32_char Q 4 |s| h::show_char(s);
	c32_iri Q 6 |s| h::show_iri(s, 0);
	c32_iri_ref Q 6 |s| h::show_iri(s, 1);
	c32_iri_owned Q 6 |s| h::show_iri(s, 2);
	c32_names Q 4 |s| h::show_names(s);
	c32_type_iri Q 5 |s| h::show_type(s, false);
	c32_type_lang Q 4 |s| h::show_type(s, true);
	c32_literal_iri_ref Q 5 |s| h::show_literal(s, false, 0);
	c32_literal_lang_ref Q 4 |s| h::show_literal(s, true, 0);
	c32_plain_ref Q 4 |s| h::show_plain(s, 0);
	c32_literal_iri_ref_display Q 5 |s| h::show_literal(s, false, 1);
	c32_literal_lang_ref_display Q 4 |s| h::show_literal(s, true, 1);
	c32_plain_ref_display Q 4 |s| h::show_plain(s, 1);
	c32_literal_iri_owned Q 5 |s| h::show_literal(s, false, 2);
	c32_literal_lang_owned Q 4 |s| h::show_literal(s, true, 2);
	c32_plain_owned Q 4 |s| h::show_plain(s, 2);
	c32_literal_iri_owned_display Q 5 |s| h::show_literal(s, false, 3);
	c32_literal_lang_owned_display Q 4 |s| h::show_literal(s, true, 3);
	c32_plain_owned_display Q 4 |s| h::show_plain(s, 3);
	c32_literal_iri_term T 5 |s| h::show_literal(s, false, 4);
	c32_literal_lang_term T 4 |s| h::show_literal(s, true, 4);
	c32_plain_term T 4 |s| h::show_plain(s, 4);
	c32_literal_iri_local T 5 |s| h::show_literal(s, false, 5);
	c32_literal_lang_local Q 4 |s| h::show_literal(s, true, 5);
	c32_plain_local T 4 |s| h::show_plain(s, 5);
	c32_term_iri Q 5 |s| h::show_iri_term(s, false);
	c32_local_iri Q 5 |s| h::show_iri_term(s, true);
	c32_local_blank Q 4 |s| h::show_blank_term(s);
	c33_type_relations Q 8 |s| h::type_relations(s);
	c33_type_cow Q 8 |s| h::type_cow(s);
	c33_type_hash_lang Q 34 |s| h::type_hash(s, true);
	c33_type_hash_iri Q 34 |s| h::type_hash(s, false);
	c33_type_convert Q 8 |s| h::type_convert(s);
	c33_type_queries Q 8 |s| h::type_queries(s);
	c33_literal_relations Q 8 |s| h::literal_relations::<_, 2>(s);
	c33_literal_order Q 8 |s| h::literal_order::<_, 2>(s);
	c33_literal_cow Q 8 |s| h::literal_cow::<_, 1>(s);
	c33_literal_hash_lang Q 34 |s| h::literal_hash(s, true);
	c33_literal_hash_iri Q 34 |s| h::literal_hash(s, false);
	c33_literal_convert Q 8 |s| h::literal_convert::<_, 2>(s);
	c33_literal_convert_cow Q 8 |s| h::literal_convert_cow::<_, 2>(s);
	c33_literal_queries Q 8 |s| h::literal_queries::<_, 2>(s);
	c34_term_relations Q 8 |s| h::term_relations::<_, 1>(s);
	c34_term_order Q 8 |s| h::term_order::<_, 1>(s);
	c34_local_relations Q 8 |s| h::local_relations::<_, 1>(s);
	c34_local_order Q 8 |s| h::local_order::<_, 1>(s);
	c34_term_convert Q 8 |s| h::term_convert::<_, 1>(s);
	c34_local_convert Q 8 |s| h::local_convert::<_, 1>(s);
	c34_local_build Q 8 |s| h::local_build::<_, 1>(s);
	c34_term_queries Q 8 |s| h::term_queries::<_, 1>(s);
	c34_local_queries Q 8 |s| h::local_queries::<_, 1>(s);
	c34_ids Q 8 |s| h::ids(s);
	c34_blank Q 8 |s| h::blank_relations(s);
	c34_hash_blank Q 34 |s| h::hash_blank(s);
	c34_hash_blank_ref Q 34 |s| h::hash_blank_ref(s);
	c34_hash_iri Q 34 |s| h::hash_iri(s);
	c34_hash_local_iri T 34 |s| h::hash_local_iri(s);
	c34_hash_literal Q 34 |s| h::hash_literal(s, false);
	c34_hash_lang Q 34 |s| h::hash_literal(s, true);
	c34_term_convert_cow Q 8 |s| h::term_convert_cow::<_, 1>(s, true);
	c34_term_convert_borrowed Q 8 |s| h::term_convert_cow::<_, 1>(s, false);
	c34_term_into_cow Q 8 |s| h::term_into_cow::<_, 1>(s, true);
	c34_term_from Q 8 |s| h::term_into_cow::<_, 1>(s, false);
}
