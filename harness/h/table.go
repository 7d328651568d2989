package h

// Table lists the harnesses by name (generated by tools/gentable.sh).
var Table = map[string]func(){
	"C01_bytes":           C01_bytes,
	"C01_context":         C01_context,
	"C01_huge":            C01_huge,
	"C01_nodeid":          C01_nodeid,
	"C01_stream":          C01_stream,
	"C01_streams":         C01_streams,
	"C02_canonical":       C02_canonical,
	"C02_huge":            C02_huge,
	"C02_in_container":    C02_in_container,
	"C02_scalar":          C02_scalar,
	"C02_sized":           C02_sized,
	"C02_tree":            C02_tree,
	"C03_huge":            C03_huge,
	"C03_scalar":          C03_scalar,
	"C03_sized":           C03_sized,
	"C03_tree":            C03_tree,
	"C04_container":       C04_container,
	"C04_float32":         C04_float32,
	"C04_huge":            C04_huge,
	"C04_scalar":          C04_scalar,
	"C04_sized":           C04_sized,
	"C04_tree":            C04_tree,
	"C05_fraction":        C05_fraction,
	"C05_huge":            C05_huge,
	"C05_int":             C05_int,
	"C05_literal_place":   C05_literal_place,
	"C05_long":            C05_long,
	"C05_number":          C05_number,
	"C05_sized":           C05_sized,
	"C05_string":          C05_string,
	"C05_structure":       C05_structure,
	"C06_bracket":         C06_bracket,
	"C06_doc_prefix":      C06_doc_prefix,
	"C06_huge":            C06_huge,
	"C06_prefix":          C06_prefix,
	"C06_separator":       C06_separator,
	"C06_sized":           C06_sized,
	"C06_string_prefix":   C06_string_prefix,
	"C07_consume":         C07_consume,
	"C07_huge":            C07_huge,
	"C07_long":            C07_long,
	"C07_offset":          C07_offset,
	"C07_sized":           C07_sized,
	"C07_stream":          C07_stream,
	"C08_cycles":          C08_cycles,
	"C08_float":           C08_float,
	"C08_huge":            C08_huge,
	"C08_large":           C08_large,
	"C08_references":      C08_references,
	"C08_scalar":          C08_scalar,
	"C08_sized":           C08_sized,
	"C08_tree":            C08_tree,
	"C08_triple":          C08_triple,
	"C09_deep":            C09_deep,
	"C09_deep_large":      C09_deep_large,
	"C09_deep_scalar":     C09_deep_scalar,
	"C09_huge":            C09_huge,
	"C09_nodes":           C09_nodes,
	"C09_shallow":         C09_shallow,
	"C09_shallow_large":   C09_shallow_large,
	"C09_sized":           C09_sized,
	"C10_drain":           C10_drain,
	"C10_history":         C10_history,
	"C10_huge":            C10_huge,
	"C10_identity":        C10_identity,
	"C10_large":           C10_large,
	"C10_prefix_keys":     C10_prefix_keys,
	"C10_sized":           C10_sized,
	"C11_ascii":           C11_ascii,
	"C11_huge":            C11_huge,
	"C11_path":            C11_path,
	"C11_sized":           C11_sized,
	"C11_unicode":         C11_unicode,
	"C11_variants":        C11_variants,
	"C12_add":             C12_add,
	"C12_add_below":       C12_add_below,
	"C12_add_long":        C12_add_long,
	"C12_get":             C12_get,
	"C12_huge":            C12_huge,
	"C12_index":           C12_index,
	"C12_nonobject":       C12_nonobject,
	"C12_sized":           C12_sized,
	"C12_typed":           C12_typed,
	"C13_history":         C13_history,
	"C13_huge":            C13_huge,
	"C13_large":           C13_large,
	"C13_other":           C13_other,
	"C13_sized":           C13_sized,
	"C13_small":           C13_small,
	"C14_huge":            C14_huge,
	"C14_large":           C14_large,
	"C14_sized":           C14_sized,
	"C14_small":           C14_small,
	"C14_value":           C14_value,
	"C15_history":         C15_history,
	"C15_huge":            C15_huge,
	"C15_index":           C15_index,
	"C15_large":           C15_large,
	"C15_sized":           C15_sized,
	"C15_snapshot":        C15_snapshot,
	"C16_bigint":          C16_bigint,
	"C16_float":           C16_float,
	"C16_huge":            C16_huge,
	"C16_nonstring":       C16_nonstring,
	"C16_sized":           C16_sized,
	"C16_string":          C16_string,
	"C16_words":           C16_words,
	"C17_bytes":           C17_bytes,
	"C17_huge":            C17_huge,
	"C17_int":             C17_int,
	"C17_methods":         C17_methods,
	"C17_positions":       C17_positions,
	"C17_shared":          C17_shared,
	"C17_shown":           C17_shown,
	"C17_sized":           C17_sized,
	"C17_tree":            C17_tree,
	"C18_huge":            C18_huge,
	"C18_promoted":        C18_promoted,
	"C18_refs":            C18_refs,
	"C18_scalar":          C18_scalar,
	"C18_sized":           C18_sized,
	"C18_tree":            C18_tree,
	"C19_deep":            C19_deep,
	"C19_graph":           C19_graph,
	"C19_huge":            C19_huge,
	"C19_other":           C19_other,
	"C19_parts":           C19_parts,
	"C19_sized":           C19_sized,
	"C19_text":            C19_text,
	"C19_three":           C19_three,
	"C19_top":             C19_top,
	"C20_container":       C20_container,
	"C20_embedded":        C20_embedded,
	"C20_scalar":          C20_scalar,
	"C21_embedded":        C21_embedded,
	"C21_huge":            C21_huge,
	"C21_marshal":         C21_marshal,
	"C21_marshal_long":    C21_marshal_long,
	"C21_sized":           C21_sized,
	"C21_unmarshal":       C21_unmarshal,
	"C21_unmarshal_long":  C21_unmarshal_long,
	"C22_bytes":           C22_bytes,
	"C22_huge":            C22_huge,
	"C22_long":            C22_long,
	"C22_members":         C22_members,
	"C22_scalar":          C22_scalar,
	"C22_shape":           C22_shape,
	"C22_sized":           C22_sized,
	"C23_bytes":           C23_bytes,
	"C23_deep_huge":       C23_deep_huge,
	"C23_escape":          C23_escape,
	"C23_huge":            C23_huge,
	"C23_keys":            C23_keys,
	"C23_sized":           C23_sized,
	"C23_syntax":          C23_syntax,
	"C24_inputs":          C24_inputs,
	"C24_large":           C24_large,
	"C24_texts":           C24_texts,
	"C24_value":           C24_value,
	"C25_cycle":           C25_cycle,
	"C25_huge":            C25_huge,
	"C25_marshalled":      C25_marshalled,
	"C25_repeated":        C25_repeated,
	"C25_scalar":          C25_scalar,
	"C25_sized":           C25_sized,
	"C25_tree":            C25_tree,
	"C25_wide":            C25_wide,
	"C26_bool":            C26_bool,
	"C26_decimal":         C26_decimal,
	"C26_float":           C26_float,
	"C26_int":             C26_int,
	"C26_null":            C26_null,
	"C26_number":          C26_number,
	"C26_string":          C26_string,
	"C26_unparsable":      C26_unparsable,
	"C27_clock":           C27_clock,
	"C27_day":             C27_day,
	"C27_seconds":         C27_seconds,
	"C27_year":            C27_year,
	"C27_zero":            C27_zero,
	"C27_zone":            C27_zone,
	"C28_long":            C28_long,
	"C28_text":            C28_text,
	"C29_any_string":      C29_any_string,
	"C29_huge":            C29_huge,
	"C29_prefix":          C29_prefix,
	"C29_query_bool":      C29_query_bool,
	"C29_query_list":      C29_query_list,
	"C29_query_list_long": C29_query_list_long,
	"C29_required":        C29_required,
	"C29_required_parsed": C29_required_parsed,
	"C29_sized":           C29_sized,
	"C30_ascii":           C30_ascii,
	"C30_large":           C30_large,
	"C30_lines":           C30_lines,
	"C30_long":            C30_long,
	"C30_number":          C30_number,
	"C30_rune":            C30_rune,
	"C30_total":           C30_total,
	"C30_tree":            C30_tree,
	"C30_words":           C30_words,
	"C31_callback":        C31_callback,
	"C31_decoder":         C31_decoder,
	"C31_encoder":         C31_encoder,
	"C31_encoder_text":    C31_encoder_text,
	"C31_huge":            C31_huge,
	"C31_sized":           C31_sized,
	"C32_huge":            C32_huge,
	"C32_literals":        C32_literals,
	"C32_long":            C32_long,
	"C32_nested":          C32_nested,
	"C32_short":           C32_short,
	"C32_sized":           C32_sized,
	"C32_stream":          C32_stream,
	"C32_tokens":          C32_tokens,
	"C33_errors":          C33_errors,
	"C33_lookup":          C33_lookup,
	"C33_near":            C33_near,
	"C34_nil":             C34_nil,
	"C34_position":        C34_position,
	"C34_reason":          C34_reason,
	"C35_huge":            C35_huge,
	"C35_json":            C35_json,
	"C35_members":         C35_members,
	"C35_places":          C35_places,
	"C35_registered":      C35_registered,
	"C35_sized":           C35_sized,
	"C35_unregistered":    C35_unregistered,
	"C36_huge":            C36_huge,
	"C36_kinds":           C36_kinds,
	"C36_mismatch":        C36_mismatch,
	"C36_sized":           C36_sized,
	"C36_struct":          C36_struct,
	"C37_huge":            C37_huge,
	"C37_member":          C37_member,
	"C37_members":         C37_members,
	"C37_same":            C37_same,
	"C37_sized":           C37_sized,
	"C37_written":         C37_written,
	"C38_history":         C38_history,
	"C38_huge":            C38_huge,
	"C38_objects":         C38_objects,
	"C38_sized":           C38_sized,
	"C38_structs":         C38_structs,
	"C39_fill":            C39_fill,
	"C39_insert":          C39_insert,
	"C39_nonobject":       C39_nonobject,
	"C39_others":          C39_others,
	"C39_reads":           C39_reads,
	"C39_remove":          C39_remove,
	"C39_required":        C39_required,
	"C40_contents":        C40_contents,
	"C40_itself":          C40_itself,
	"C40_parsed":          C40_parsed,
	"C40_reads":           C40_reads,
	"C41_values":          C41_values,
}
