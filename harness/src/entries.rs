pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_p01_ascii", ver::h_p01_ascii),
    ("h_p01_utf8", ver::h_p01_utf8),
    ("h_p01_long", ver::h_p01_long),
    ("h_p02_text", ver::h_p02_text),
    ("h_p02_long", ver::h_p02_long),
    ("h_p02_utf8", ver::h_p02_utf8),
    ("h_p03_ascii", ver::h_p03_ascii),
    ("h_p03_class", ver::h_p03_class),
    ("h_p03_long", ver::h_p03_long),
    ("h_p03_digits", ver::h_p03_digits),
    ("h_p03_epoch", ver::h_p03_epoch),
    ("h_p04_class", ver::h_p04_class),
    ("h_p04_ascii", ver::h_p04_ascii),
    ("h_p04_markers", ver::h_p04_markers),
    ("h_p04_epoch", ver::h_p04_epoch),
    ("h_p05_swap", ver::h_p05_swap),
    ("h_p05_map", ver::h_p05_map),
    ("h_p06_short", ver::h_p06_short),
    ("h_p06_struct", ver::h_p06_struct),
    ("h_p06_parts", ver::h_p06_parts),
    ("h_p06_long", ver::h_p06_long),
    ("h_p07_parts", ver::h_p07_parts),
    ("h_p07_deep", ver::h_p07_deep),
    ("h_p07_tail", ver::h_p07_tail),
    ("h_p07_text", ver::h_p07_text),
    ("h_p08_text", ver::h_p08_text),
    ("h_p08_digits", ver::h_p08_digits),
    ("h_p08_parts", ver::h_p08_parts),
    ("h_p08_zeros", ver::h_p08_zeros),
    ("h_p09_letters", ver::h_p09_letters),
    ("h_p09_words", ver::h_p09_words),
    ("h_p09_numbered", ver::h_p09_numbered),
    ("h_p10_epoch", ver::h_p10_epoch),
    ("h_p10_bare", ver::h_p10_bare),
    ("h_p10_parts", ver::h_p10_parts),
    ("h_p11_case", ver::h_p11_case),
    ("h_p11_words", ver::h_p11_words),
    ("h_p12_local", ver::h_p12_local),
    ("h_p12_long", ver::h_p12_long),
    ("h_p12_public", ver::h_p12_public),
    ("h_p39_text", ver::h_p39_text),
    ("h_p39_parts", ver::h_p39_parts),
    ("h_p39_tail", ver::h_p39_tail),
    ("h_p13_text", ver::h_p13_text),
    ("h_p13_parts", ver::h_p13_parts),
    ("h_p13_long", ver::h_p13_long),
    ("h_p14_parts", op::h_p14_parts),
    ("h_p14_text", op::h_p14_text),
    ("h_p14_table", op::h_p14_table),
    ("h_p15_sign", op::h_p15_sign),
    ("h_p15_name", op::h_p15_name),
    ("h_p15_near", op::h_p15_near),
    ("h_p15_round", op::h_p15_round),
    ("h_p16_text", spec::h_p16_text),
    ("h_p16_ascii", spec::h_p16_ascii),
    ("h_p16_struct", spec::h_p16_struct),
    ("h_p17_text", spec::h_p17_text),
    ("h_p17_struct", spec::h_p17_struct),
    ("h_p18_ascii", spec::h_p18_ascii),
    ("h_p18_ops", spec::h_p18_ops),
    ("h_p18_parts", spec::h_p18_parts),
    ("h_p18_regex", spec::h_p18_regex),
    ("h_p18_utf8", spec::h_p18_utf8),
    ("h_p19_glob", spec::h_p19_glob),
    ("h_p19_shape", spec::h_p19_shape),
    ("h_p19_regex", spec::h_p19_regex),
    ("h_p20_ascii", spec::h_p20_ascii),
    ("h_p20_ops", spec::h_p20_ops),
    ("h_p20_at", spec::h_p20_at),
    ("h_p20_only", spec::h_p20_only),
    ("h_p20_tree", spec::h_p20_tree),
    ("h_p21_text", tree::h_p21_text),
    ("h_p21_space", tree::h_p21_space),
    ("h_p21_expr", tree::h_p21_expr),
    ("h_p21_chain", tree::h_p21_chain),
    ("h_p21_version", tree::h_p21_version),
    ("h_p21_list", tree::h_p21_list),
    ("h_p22_ascii", tree::h_p22_ascii),
    ("h_p22_text", tree::h_p22_text),
    ("h_p22_toks", tree::h_p22_toks),
    ("h_p22_broken", tree::h_p22_broken),
    ("h_p22_deep", tree::h_p22_deep),
    ("h_p22_list", tree::h_p22_list),
    ("h_p23_text", tree::h_p23_text),
    ("h_p23_expr", tree::h_p23_expr),
    ("h_p23_kinds", tree::h_p23_kinds),
    ("h_p23_build", tree::h_p23_build),
    ("h_p23_list", tree::h_p23_list),
    ("h_p24_eq", tree::h_p24_eq),
    ("h_p24_edit", tree::h_p24_edit),
    ("h_p24_text", tree::h_p24_text),
    ("h_p24_debug", tree::h_p24_debug),
    ("h_p25_text", repo::h_p25_text),
    ("h_p25_version", repo::h_p25_version),
    ("h_p25_escape", repo::h_p25_escape),
    ("h_p25_number", repo::h_p25_number),
    ("h_p25_many", repo::h_p25_many),
    ("h_p26_cut", repo::h_p26_cut),
    ("h_p26_byte", repo::h_p26_byte),
    ("h_p26_any", repo::h_p26_any),
    ("h_p26_fields", repo::h_p26_fields),
    ("h_p26_version", repo::h_p26_version),
    ("h_p25_fields", repo::h_p25_fields),
    ("h_p25_size", repo::h_p25_size),
    ("h_p25_again", repo::h_p25_again),
    ("h_p26_two", repo::h_p26_two),
    ("h_p26_size", repo::h_p26_size),
    ("h_p26_tail", repo::h_p26_tail),
    ("h_p26_utf8", repo::h_p26_utf8),
    ("h_p01_size", long::h_p01_size),
    ("h_p02_size", long::h_p02_size),
    ("h_p03_size", long::h_p03_size),
    ("h_p04_size", long::h_p04_size),
    ("h_p04_zeros", long::h_p04_zeros),
    ("h_p05_size", long::h_p05_size),
    ("h_p06_size", long::h_p06_size),
    ("h_p39_size", long::h_p39_size),
    ("h_p39_first", long::h_p39_first),
    ("h_p06_first", long::h_p06_first),
    ("h_p07_size", long::h_p07_size),
    ("h_p08_size", long::h_p08_size),
    ("h_p08_lead", long::h_p08_lead),
    ("h_p09_size", long::h_p09_size),
    ("h_p10_size", long::h_p10_size),
    ("h_p11_size", long::h_p11_size),
    ("h_p12_size", long::h_p12_size),
    ("h_p13_size", long::h_p13_size),
    ("h_p13_first", long::h_p13_first),
    ("h_p14_size", long::h_p14_size),
    ("h_p15_size", long::h_p15_size),
    ("h_p16_size", long::h_p16_size),
    ("h_p17_size", long::h_p17_size),
    ("h_p18_size", long::h_p18_size),
    ("h_p19_size", long::h_p19_size),
    ("h_p20_size", long::h_p20_size),
    ("h_p20_long", long::h_p20_long),
    ("h_p21_wide", long::h_p21_wide),
    ("h_p21_deep", long::h_p21_deep),
    ("h_p22_size", long::h_p22_size),
    ("h_p23_wide", long::h_p23_wide),
    ("h_p23_deep", long::h_p23_deep),
    ("h_p23_nodes", long::h_p23_nodes),
    ("h_p23_many", long::h_p23_many),
    ("h_p24_size", long::h_p24_size),
    ("h_p24_long", long::h_p24_long),
    ("h_p01_again", hist::h_p01_again),
    ("h_p02_again", hist::h_p02_again),
    ("h_p03_again", hist::h_p03_again),
    ("h_p04_again", hist::h_p04_again),
    ("h_p06_again", hist::h_p06_again),
    ("h_p13_again", hist::h_p13_again),
    ("h_p16_again", hist::h_p16_again),
    ("h_p17_again", hist::h_p17_again),
    ("h_p18_again", hist::h_p18_again),
    ("h_p19_again", hist::h_p19_again),
    ("h_p20_again", hist::h_p20_again),
    ("h_p21_again", hist::h_p21_again),
    ("h_p22_again", hist::h_p22_again),
    ("h_p23_again", hist::h_p23_again),
    ("h_p24_again", hist::h_p24_again),
    ("h_p37_mix", hist::h_p37_mix),
    ("h_p37_fresh", hist::h_p37_fresh),
    ("h_p37_shapes", hist::h_p37_shapes),
    ("h_p37_specs", hist::h_p37_specs),
    ("h_p37_keep", hist::h_p37_keep),
    ("h_p01_dict", dict::h_p01_dict),
    ("h_p02_dict", dict::h_p02_dict),
    ("h_p03_dict", dict::h_p03_dict),
    ("h_p03_any", dict::h_p03_any),
    ("h_p04_dict", dict::h_p04_dict),
    ("h_p05_dict", dict::h_p05_dict),
    ("h_p06_dict", dict::h_p06_dict),
    ("h_p07_dict", dict::h_p07_dict),
    ("h_p09_dict", dict::h_p09_dict),
    ("h_p09_any", dict::h_p09_any),
    ("h_p10_dict", dict::h_p10_dict),
    ("h_p11_dict", dict::h_p11_dict),
    ("h_p11_any", dict::h_p11_any),
    ("h_p12_dict", dict::h_p12_dict),
    ("h_p12_number", dict::h_p12_number),
    ("h_p13_dict", dict::h_p13_dict),
    ("h_p16_dict", dict::h_p16_dict),
    ("h_p17_dict", dict::h_p17_dict),
    ("h_p18_dict", dict::h_p18_dict),
    ("h_p30_dict", dict::h_p30_dict),
    ("h_p39_dict", dict::h_p39_dict),
    ("h_p03_utf8", dict::h_p03_utf8),
    ("h_p05_utf8", dict::h_p05_utf8),
    ("h_p06_utf8", dict::h_p06_utf8),
    ("h_p09_utf8", dict::h_p09_utf8),
    ("h_p12_utf8", dict::h_p12_utf8),
    ("h_p13_utf8", dict::h_p13_utf8),
    ("h_p16_utf8", dict::h_p16_utf8),
    ("h_p17_utf8", dict::h_p17_utf8),
    ("h_p30_utf8", dict::h_p30_utf8),
    ("h_p39_utf8", dict::h_p39_utf8),
    ("h_p30_pair", parts::h_p30_pair),
    ("h_p30_words", parts::h_p30_words),
    ("h_p30_triple", parts::h_p30_triple),
    ("h_p30_size", parts::h_p30_size),
    ("h_p31_parse", parts::h_p31_parse),
    ("h_p31_order", parts::h_p31_order),
    ("h_p31_size", parts::h_p31_size),
    ("h_p32_version", parts::h_p32_version),
    ("h_p32_size", parts::h_p32_size),
    ("h_p32_spec", parts::h_p32_spec),
    ("h_p32_tree", parts::h_p32_tree),
    ("h_p32_equal", parts::h_p32_equal),
    ("h_p33_part", parts::h_p33_part),
    ("h_p33_version", parts::h_p33_version),
    ("h_p33_text", parts::h_p33_text),
    ("h_p33_size", parts::h_p33_size),
    ("h_p34_version", parts::h_p34_version),
    ("h_p34_part", parts::h_p34_part),
    ("h_p34_spec", parts::h_p34_spec),
    ("h_p35_text", parts::h_p35_text),
    ("h_p36_read", parts::h_p36_read),
    ("h_p36_bad", parts::h_p36_bad),
    ("h_kf_f1", kf::h_kf_f1),
    ("h_kf_f2", kf::h_kf_f2),
    ("h_kf_f3", kf::h_kf_f3),
];
