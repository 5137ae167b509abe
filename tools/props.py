"""Entries, tiers and bounds of every claimed property."""
COMMON_ASSUMPTIONS = [
    "default features plus serde; the compiled code is vcard4's release LLVM IR (opt-level 2, overflow checks and debug assertions on for vcard4) with its dependencies and std",
    "system calls the code reaches (clock) return fixed values; allocation never fails",
    "trusted: rustc/LLVM front end, the symbolic executor in /verif/engine, z3; every explored path is replayed in the natively compiled code and must agree",
]
PROPS = {
    "P01": dict(
        quick=["h_np_val", "h_np_slow", "h_np_uri", "h_np_param", "h_np_mbval", "h_np_mbslow", "h_np_mburi", "h_np_mbparam", "h_np_raw", "h_np_mbraw", "h_np_prefix", "h_np_fn", "h_np_json"],
        thorough=["h_np_uri2", "h_np_raw3", "h_np_param3", "h_np_fn3", "h_np_slow2", "h_np_val3", "h_np_json2"],
        panics=["h_rt_text", "h_rt_struct", "h_rt_scheme", "h_rt_param", "h_many_list", "h_many_text", "h_dec_text", "h_dec_list2", "h_dec_list", "h_dec_adr", "h_dec_adr3", "h_dec_gender", "h_fold_two", "h_fold_value", "h_fold_eol", "h_many_folds", "h_case_2", "h_case_group", "h_case_form", "h_case_ext", "h_card_frame", "h_card_bad", "h_card_validate", "h_card_line", "h_many_lines", "h_loose_line", "h_loose_uri", "h_loose_value", "h_loose_same", "h_many_loose", "h_it_first", "h_it_last", "h_it_try", "h_it_whole", "h_many_cards", "h_par_pref", "h_par_pref_all", "h_par_pid", "h_par_pid4", "h_par_pid_all", "h_par_type", "h_par_label", "h_par_where", "h_par_charset", "h_par_name", "h_par_name_ok", "h_par_ext", "h_par_geo", "h_par_value", "h_many_bad", "h_prm_quoted", "h_prm_plain", "h_prm_keyword", "h_prm_dquote", "h_many_types", "h_many_items", "h_date_field", "h_date_bad", "h_date_edit", "h_date_doc", "h_ctl_value", "h_ctl_text", "h_ctl_param", "h_ctl_name", "h_ctl_group", "h_ctl_quote", "h_ctl_multi", "h_typ_bool", "h_typ_int", "h_typ_int4", "h_typ_int_limit", "h_typ_float", "h_typ_float_words", "h_typ_value", "h_typ_uri", "h_typ_only_uri", "h_typ_uri_text", "h_typ_kind", "h_typ_sex", "h_typ_pidmap", "h_typ_pidmap_uri", "h_json_text", "h_json_alone", "h_json_uni", "h_json_typed", "h_json_param", "h_json_props", "h_many_json", "h_photo_text", "h_photo_text8", "h_photo_one", "h_photo_short", "h_photo_short3", "h_photo_pos", "h_photo_cards", "h_photo_which", "h_val_char", "h_val_case", "h_val_date", "h_big_value", "h_big_list", "h_big_json", "h_big_lines", "h_big_cards", "h_photo_big", "h_big_huge", "h_big_huge_json", "h_big_file", "h_big_photo", "h_pair_all"],
        time=dict(quick=420, thorough=3000),
        reach={"h_np_json": [1, 2], "h_np_json2": [1, 2]},
        bounds="one-card documents built from about 120 templates with 1-2 (thorough 3) unconstrained ASCII bytes or one multibyte character in a value, parameter, line or separator; every prefix of a full card; strings of up to 4+2 bytes for each conversion function; 24 JSON texts with 1 (thorough 2) ASCII bytes; at most 30 million IR instructions per path; the inputs of 110 entries of the other properties, in which only a panic of the library or an endless run counts, values, lists and documents of 300-70000 octets or parts among them (at most 300 million instructions)"),
    "P02": dict(
        quick=["h_rt_text", "h_rt_struct", "h_rt_uri", "h_rt_scheme", "h_rt_typed2", "h_rt_param", "h_many_list", "h_many_text", "h_big_value", "h_big_list", "h_big_huge", "h_pair_line", "h_pair_all"],
        thorough=["h_rt_scheme2", "h_rt_text3"],
        bounds="documents with one property of interest whose value has 2 (thorough 3) unconstrained ASCII bytes (1 in URI schemes); values of 600 octets in 39 places with every alignment of multibyte characters, lists of 260 items, values of 65600 octets; every ordered pair of the 45 property forms with 6 combinations of groups and parameters; cards with all properties but one"),
    "P03": dict(
        quick=["h_bld_text", "h_bld_struct", "h_bld_uni", "h_bld_uri", "h_many_build", "h_conv_text", "h_conv_again", "h_conv_date", "h_pair_build", "h_pair_build_all"],
        bounds="every builder setter and directly constructed text field with 2 unconstrained ASCII bytes (printable, tab, line feed; 1 where a URI parse is tried) or one multibyte character; every conversion into a property; every setter called three times; every ordered pair of setters; all setters, from any one on, in both directions"),
    "P04": dict(
        quick=["h_dec_text", "h_dec_text3", "h_dec_list2", "h_dec_list", "h_dec_adr", "h_dec_adr3", "h_dec_gender", "h_many_text", "h_many_items"],
        thorough=["h_dec_list4"],
        reach={"h_dec_adr": [1, 2], "h_dec_adr3": [1, 2], "h_dec_gender": [1, 2]},
        bounds="values with 2-3 (thorough 4) unconstrained printable ASCII bytes at the start or inside; lists of up to 65 items"),
    "P05": dict(
        quick=["h_wf_text", "h_wf_uni", "h_wf_fold1", "h_wf_fold2", "h_wf_param", "h_wf_fold3", "h_wf_fold6", "h_wf_cluster", "h_wf_long", "h_wf_ctl", "h_big_value", "h_big_huge"],
        bounds="every text field with 2 symbolic ASCII bytes or one multibyte character; lines ending 8 positions around octets 75, 149, 223 and 445 with a symbolic character there; clusters of 17 to 75 combining marks or joined characters; texts of 230 and 1030 characters in every field; a control character in every field; texts of 600 octets in 39 places, of 65600 octets in 5"),
    "P06": dict(
        quick=["h_fold_one", "h_fold_lf", "h_fold_two", "h_fold_value", "h_fold_eol", "h_many_folds"],
        reach={"h_fold_one": [10, 11, 12, 13, 14, 15]},
        bounds="six documents that use every part of the content-line grammar, a fold (CRLF or LF, then a space or a tab) at every position, two folds, folds at every, every second and every fifth position, and folds around 2 symbolic bytes; CRLF and LF line ends"),
    "P07": dict(
        quick=["h_case_2", "h_case_group", "h_case_form", "h_case_ext"],
        thorough=["h_case_4", "h_case_group3"],
        bounds="every property name, parameter name, value type, TYPE value and structural keyword; the case of 2 (thorough 4) adjacent letters symbolic with the others lower, upper or alternating; group names of 2 (thorough 3) symbolic characters on every property; groups, parameters and type kept for all 57 explicit value types"),
    "P08": dict(
        quick=["h_card_frame", "h_card_bad", "h_card_twice", "h_card_validate", "h_card_line", "h_many_lines", "h_big_lines", "h_pair_line", "h_pair_all"],
        reach={"h_card_frame": [1, 2], "h_card_twice": [1, 2]},
        bounds="each character of the structural lines replaced by any ASCII byte; 28 malformed card structures; 34 places before, after, between and inside the structural lines with any ASCII byte; every property given twice with a symbolic second value, with and without a line in between or a group; six lines of every property, equal ones and other preferences among them; every kind with and without members and FN; 257 lines of every repeatable property; every ordered pair of the 45 property forms; cards with all properties but one"),
    "P09": dict(
        quick=["h_loose_line", "h_loose_uri", "h_loose_value", "h_loose_same", "h_many_loose"],
        thorough=["h_loose_line2"],
        reach={"h_loose_line": [1, 2], "h_loose_uri": [1, 2], "h_loose_line2": [1, 2]},
        bounds="a line from 47 templates with 1 (thorough 2) symbolic ASCII bytes at 4 positions of a card, once or twice; value types of 2 symbolic characters, given once or twice; 8 document templates with 2 symbolic bytes in both modes"),
    "P10": dict(
        quick=["h_it_mid", "h_it_first", "h_it_last", "h_it_try", "h_it_mid2", "h_it_whole", "h_many_cards", "h_big_cards", "h_big_file"],
        reach={"h_it_last": [1, 2], "h_it_whole": [1, 2]},
        bounds="documents of up to 6 cards one or two of which has a line with 1-2 symbolic ASCII bytes, or lacks a property, in both modes, at most a fixed number of steps of the iterator; 130 cards, and a file of 66000 octets"),
    "P11": dict(
        quick=["h_par_pref", "h_par_pref_all", "h_par_pid", "h_par_pid4", "h_par_pid_all", "h_par_type", "h_par_label", "h_par_where", "h_par_charset", "h_par_name", "h_par_name_ok", "h_par_ext", "h_par_geo", "h_par_value", "h_many_bad"],
        reach={e: [1, 2] for e in ["h_par_pref", "h_par_pref_all", "h_par_pid", "h_par_pid4", "h_par_pid_all", "h_par_type", "h_par_label", "h_par_where", "h_par_charset", "h_par_geo"]},
        bounds="PREF values of 1-3 and PID values of 1-4 symbolic printable characters; every property with every symbolic value of TYPE, LABEL, PREF, PID and an extension parameter (1-3 symbolic characters); every parameter name and value type with one character replaced or inserted",
        assumptions=["a leading plus sign in a number, and CHARSET in other case, are not decided"]),
    "P12": dict(
        quick=["h_prm_quoted", "h_prm_plain", "h_prm_all", "h_prm_types", "h_prm_store", "h_prm_store_all", "h_prm_keyword", "h_prm_dquote", "h_case_form", "h_many_text", "h_many_types", "h_many_items", "h_many_list", "h_big_list"],
        thorough=["h_prm_quoted3", "h_prm_plain3"],
        bounds="every text parameter with 2 (thorough 3) symbolic printable characters, quoted and unquoted, read and stored; all properties with four parameters in three orders; every TYPE value with one symbolic character alone and in lists; four parameters and a group beside each of 57 explicit value types; lists of 260 items of each list parameter; lists of up to 65 items read item by item"),
    "P13": dict(
        quick=["h_date_field", "h_date_pair", "h_date_bad", "h_date_edit", "h_date_doc", "h_date_doc_low", "h_date_doc_high", "h_date_build", "h_conv_date", "h_many_list", "h_many_items", "h_many_bad"],
        thorough=["h_date_doc2"],
        time=dict(quick=240, thorough=1500),
        reach={e: [1, 2] for e in ["h_date_field", "h_date_pair", "h_date_doc", "h_date_doc_low", "h_date_doc_high", "h_date_doc2"]},
        bounds="27 formats; both digits of one field, and of two adjacent fields, symbolic with the other fields from 3 base values (conversion functions); one digit of any field symbolic (thorough: both) in 13 places of a card, alone and in lists; one character removed, or one arbitrary byte inserted or substituted at any position, against a recogniser of the RFC formats; every conversion of a date, time or offset built by the application with one symbolic field",
        assumptions=["a seconds field of 60 and offsets of 24 and 25 hours are not decided"]),
    "P14": dict(
        quick=["h_ctl_value", "h_ctl_text", "h_ctl_param", "h_ctl_name", "h_ctl_group", "h_ctl_quote", "h_ctl_multi"],
        bounds="a symbolic ASCII control character at every position of every property value and 21 parameters; a symbolic ASCII or multibyte character that is not part of names at every position of every name and group; 16 malformed parameter templates with a symbolic character"),
    "P15": dict(
        quick=["h_typ_bool", "h_typ_int", "h_typ_int4", "h_typ_int_limit", "h_typ_float", "h_typ_float_words", "h_typ_value", "h_typ_uri", "h_typ_only_uri", "h_typ_uri_text", "h_typ_kind", "h_typ_sex", "h_typ_pidmap", "h_typ_pidmap_uri", "h_many_list", "h_many_items", "h_many_bad"],
        thorough=["h_typ_uri_text2"],
        reach={e: [1, 2] for e in ["h_typ_bool", "h_typ_int", "h_typ_int4", "h_typ_int_limit", "h_typ_float", "h_typ_value", "h_typ_uri", "h_typ_only_uri", "h_typ_kind", "h_typ_sex", "h_typ_pidmap", "h_typ_pidmap_uri"]},
        bounds="booleans of up to 6 and integer lists of up to 4 symbolic ASCII bytes, 2 symbolic bytes at the 64-bit limits, floats with 1 symbolic byte in 6 places; 8 properties x 12 value types x 3 spellings with a symbolic digit; URI recognition and URI-only properties with 1 symbolic byte in the scheme, path or text; KIND with one character changed, GENDER and CLIENTPIDMAP with up to 3 symbolic bytes",
        assumptions=["exponents and incomplete decimals of floats, leading plus signs, and other case of KIND and GENDER are not decided"]),
    "P16": dict(
        quick=["h_zero_value", "h_zero_group", "h_zero_param", "h_zero_param1", "h_zero_build", "h_zero_clone"],
        thorough=["h_zero_value2"],
        bounds="every text-bearing value, group and parameter, parsed, built, or set on a clone, with a secret of 1-3 symbolic characters between concrete marks; a symbolic byte in any block released while the card is dropped is a violation",
        assumptions=["values dropped with the card only: buffers of the parser and of strings that were replaced earlier are not decided"]),
    "P17": dict(
        quick=["h_json_text", "h_json_alone", "h_json_uni", "h_json_typed", "h_json_param", "h_json_built", "h_json_props", "h_many_json", "h_big_json", "h_big_huge_json", "h_pair_json", "h_pair_all_json"],
        thorough=["h_json_text2", "h_json_alone2", "h_json_param2"],
        bounds="every text field with 1 (thorough 2) symbolic ASCII bytes (control characters included) inside or alone, or one multibyte character; 64 typed values and 22 parameters with 1 symbolic printable character; 22 states only an application can set; group and parameters of all 45 property forms; serde_json as the JSON format; values of 600 octets in 39 places, a text of 65600 octets; every ordered pair of property forms, and cards with all of them but one",
        assumptions=["a text value alone in a field that takes a text or a URI has no colon"]),
    "P18": dict(
        quick=["h_photo_text", "h_photo_text8", "h_photo_one", "h_photo_short", "h_photo_short3", "h_photo_pos", "h_photo_cards", "h_photo_which", "h_photo_big", "h_big_photo"],
        thorough=["h_photo_bytes"],
        reach={**{e: [1, 2] for e in ["h_photo_text", "h_photo_text8", "h_photo_pos", "h_photo_cards", "h_photo_which"]}, **{e: [2] for e in ["h_photo_one", "h_photo_short", "h_photo_short3"]}},
        bounds="base64 values of up to 52 characters, 8 of them symbolic, at the start, in the middle and at the end; any single character of a 56-character value replaced; 20 cards with several photos, parameters in several orders; photos of 255 to 50000 octets with a symbolic octet",
        assumptions=["base64 whose unused trailing bits are not zero, and ENCODING=B, are not decided"]),
    "P19": dict(
        features="types",
        quick=["h_feat_lang", "h_feat_lang2", "h_feat_media", "h_feat_media2", "h_feat_carry", "h_feat_rt", "h_feat_json", "h_rt_typed", "h_rt_param", "h_json_param"],
        thorough=["h_feat_carry2"],
        reach={**{e: [1, 2] for e in ["h_feat_lang", "h_feat_lang2", "h_feat_media", "h_feat_media2"]}, "h_feat_carry": [3]},
        bounds="15 language tags and 11 media types with 1 or 2 adjacent ASCII characters inserted anywhere, in every kind of place that takes one; printing and JSON of the same values set by the application (1, thorough 2, characters) and of documents with 1-2 symbolic characters in a tag, type or any other typed value or parameter",
        assumptions=["built with the mime and language-tags features as well; the language-tags and mime crates decide what is well-formed", "media types that the mime crate itself prints as a text it reads differently, and media types with a double quote, are outside"]),
    "P20": dict(
        quick=["h_val_char", "h_val_short", "h_val_case", "h_val_build", "h_val_date"],
        thorough=["h_val_short3"],
        reach={e: [1, 2] for e in ["h_val_char", "h_val_short"]},
        bounds="each of 113 printed values of 15 types with any one character replaced or inserted by any ASCII character but CR; every type's texts of 2 (thorough: 3) ASCII characters; every letter case of each enumeration name; built names, identities and address components with 2 symbolic characters; every month, day, hour, minute, second, whole-hour and half-hour-range offset and 768 years",
        assumptions=["carriage returns in values are excluded (CRLF is normalised to LF)"]),
}
