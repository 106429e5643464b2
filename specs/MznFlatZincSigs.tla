-------------------------- MODULE MznFlatZincSigs --------------------------
(* The standard FlatZinc constraints and their parameter types: a arrays, v variables,
   i b f s sf int, bool, float, set of int, set of float. *)
Standard == [
  array_bool_and |-> <<"avb", "vb">>,
  array_bool_element |-> <<"vi", "ab", "vb">>,
  array_bool_or |-> <<"avb", "vb">>,
  array_bool_xor |-> <<"avb">>,
  array_float_element |-> <<"vi", "af", "vf">>,
  array_float_maximum |-> <<"vf", "avf">>,
  array_float_minimum |-> <<"vf", "avf">>,
  array_int_element |-> <<"vi", "ai", "vi">>,
  array_int_maximum |-> <<"vi", "avi">>,
  array_int_minimum |-> <<"vi", "avi">>,
  array_set_element |-> <<"vi", "as", "vs">>,
  array_var_bool_element |-> <<"vi", "avb", "vb">>,
  array_var_bool_element2d_nonshifted |-> <<"vi", "vi", "avb", "vb">>,
  array_var_bool_element_nonshifted |-> <<"vi", "avb", "vb">>,
  array_var_float_element |-> <<"vi", "avf", "vf">>,
  array_var_float_element2d_nonshifted |-> <<"vi", "vi", "avf", "vf">>,
  array_var_float_element_nonshifted |-> <<"vi", "avf", "vf">>,
  array_var_int_element |-> <<"vi", "avi", "vi">>,
  array_var_int_element2d_nonshifted |-> <<"vi", "vi", "avi", "vi">>,
  array_var_int_element_nonshifted |-> <<"vi", "avi", "vi">>,
  array_var_set_element |-> <<"vi", "avs", "vs">>,
  array_var_set_element2d_nonshifted |-> <<"vi", "vi", "avs", "vs">>,
  array_var_set_element_nonshifted |-> <<"vi", "avs", "vs">>,
  bool2int |-> <<"vb", "vi">>,
  bool_and |-> <<"vb", "vb", "vb">>,
  bool_clause |-> <<"avb", "avb">>,
  bool_clause_reif |-> <<"avb", "avb", "vb">>,
  bool_eq |-> <<"vb", "vb">>,
  bool_eq_reif |-> <<"vb", "vb", "vb">>,
  bool_le |-> <<"vb", "vb">>,
  bool_le_reif |-> <<"vb", "vb", "vb">>,
  bool_lin_eq |-> <<"ai", "avb", "vi">>,
  bool_lin_le |-> <<"ai", "avb", "i">>,
  bool_lt |-> <<"vb", "vb">>,
  bool_lt_reif |-> <<"vb", "vb", "vb">>,
  bool_not |-> <<"vb", "vb">>,
  bool_or |-> <<"vb", "vb", "vb">>,
  bool_xor |-> <<"vb", "vb", "vb">>,
  float_abs |-> <<"vf", "vf">>,
  float_acos |-> <<"vf", "vf">>,
  float_acosh |-> <<"vf", "vf">>,
  float_asin |-> <<"vf", "vf">>,
  float_asinh |-> <<"vf", "vf">>,
  float_atan |-> <<"vf", "vf">>,
  float_atanh |-> <<"vf", "vf">>,
  float_ceil |-> <<"vf", "vi">>,
  float_cos |-> <<"vf", "vf">>,
  float_cosh |-> <<"vf", "vf">>,
  float_div |-> <<"vf", "vf", "vf">>,
  float_dom |-> <<"vf", "af">>,
  float_eq |-> <<"vf", "vf">>,
  float_eq_reif |-> <<"vf", "vf", "vb">>,
  float_exp |-> <<"vf", "vf">>,
  float_floor |-> <<"vf", "vi">>,
  float_in |-> <<"vf", "f", "f">>,
  float_le |-> <<"vf", "vf">>,
  float_le_reif |-> <<"vf", "vf", "vb">>,
  float_lin_eq |-> <<"af", "avf", "f">>,
  float_lin_eq_reif |-> <<"af", "avf", "f", "vb">>,
  float_lin_le |-> <<"af", "avf", "f">>,
  float_lin_le_reif |-> <<"af", "avf", "f", "vb">>,
  float_lin_lt |-> <<"af", "avf", "f">>,
  float_lin_lt_reif |-> <<"af", "avf", "f", "vb">>,
  float_lin_ne |-> <<"af", "avf", "f">>,
  float_lin_ne_reif |-> <<"af", "avf", "f", "vb">>,
  float_ln |-> <<"vf", "vf">>,
  float_log10 |-> <<"vf", "vf">>,
  float_log2 |-> <<"vf", "vf">>,
  float_lt |-> <<"vf", "vf">>,
  float_lt_reif |-> <<"vf", "vf", "vb">>,
  float_max |-> <<"vf", "vf", "vf">>,
  float_min |-> <<"vf", "vf", "vf">>,
  float_ne |-> <<"vf", "vf">>,
  float_ne_reif |-> <<"vf", "vf", "vb">>,
  float_plus |-> <<"vf", "vf", "vf">>,
  float_pow |-> <<"vf", "vf", "vf">>,
  float_round |-> <<"vf", "vi">>,
  float_set_in |-> <<"vf", "sf">>,
  float_sin |-> <<"vf", "vf">>,
  float_sinh |-> <<"vf", "vf">>,
  float_sqrt |-> <<"vf", "vf">>,
  float_tan |-> <<"vf", "vf">>,
  float_tanh |-> <<"vf", "vf">>,
  float_times |-> <<"vf", "vf", "vf">>,
  int2float |-> <<"vi", "vf">>,
  int_abs |-> <<"vi", "vi">>,
  int_div |-> <<"vi", "vi", "vi">>,
  int_eq |-> <<"vi", "vi">>,
  int_eq_reif |-> <<"vi", "vi", "vb">>,
  int_le |-> <<"vi", "vi">>,
  int_le_reif |-> <<"vi", "vi", "vb">>,
  int_lin_eq |-> <<"ai", "avi", "i">>,
  int_lin_eq_reif |-> <<"ai", "avi", "i", "vb">>,
  int_lin_le |-> <<"ai", "avi", "i">>,
  int_lin_le_reif |-> <<"ai", "avi", "i", "vb">>,
  int_lin_ne |-> <<"ai", "avi", "i">>,
  int_lin_ne_reif |-> <<"ai", "avi", "i", "vb">>,
  int_lt |-> <<"vi", "vi">>,
  int_lt_reif |-> <<"vi", "vi", "vb">>,
  int_max |-> <<"vi", "vi", "vi">>,
  int_min |-> <<"vi", "vi", "vi">>,
  int_mod |-> <<"vi", "vi", "vi">>,
  int_ne |-> <<"vi", "vi">>,
  int_ne_reif |-> <<"vi", "vi", "vb">>,
  int_plus |-> <<"vi", "vi", "vi">>,
  int_pow |-> <<"vi", "vi", "vi">>,
  int_pow_fixed |-> <<"vi", "i", "vi">>,
  int_times |-> <<"vi", "vi", "vi">>,
  set_card |-> <<"vs", "vi">>,
  set_diff |-> <<"vs", "vs", "vs">>,
  set_eq |-> <<"vs", "vs">>,
  set_eq_reif |-> <<"vs", "vs", "vb">>,
  set_in |-> <<"vi", "vs">>,
  set_in_reif |-> <<"vi", "vs", "vb">>,
  set_intersect |-> <<"vs", "vs", "vs">>,
  set_le |-> <<"vs", "vs">>,
  set_le_reif |-> <<"vs", "vs", "vb">>,
  set_lt |-> <<"vs", "vs">>,
  set_lt_reif |-> <<"vs", "vs", "vb">>,
  set_ne |-> <<"vs", "vs">>,
  set_ne_reif |-> <<"vs", "vs", "vb">>,
  set_subset |-> <<"vs", "vs">>,
  set_subset_reif |-> <<"vs", "vs", "vb">>,
  set_superset |-> <<"vs", "vs">>,
  set_superset_reif |-> <<"vs", "vs", "vb">>,
  set_symdiff |-> <<"vs", "vs", "vs">>,
  set_union |-> <<"vs", "vs", "vs">>]
=============================================================================
