# Rule names of the Alethe proofs carcara checks (holes excluded)
RULES = '''ac_simp
aci_simp
and
and_intro
and_neg
and_pos
and_simplify
bfun_elim
bind
bind_let
bitblast_add
bitblast_and
bitblast_comp
bitblast_concat
bitblast_const
bitblast_equal
bitblast_extract
bitblast_mult
bitblast_neg
bitblast_not
bitblast_or
bitblast_sign_extend
bitblast_slt
bitblast_ult
bitblast_var
bitblast_xnor
bitblast_xor
bool_simplify
bv_poly_simp
bv_poly_simp_eq
comp_simplify
concat_conflict
concat_cprop_prefix
concat_cprop_suffix
concat_csplit_prefix
concat_csplit_suffix
concat_eq
concat_lprop_prefix
concat_lprop_suffix
concat_split_prefix
concat_split_suffix
concat_unify
cong
connective_def
contraction
cp_addition
cp_division
cp_literal
cp_multiplication
cp_normalize
cp_saturation
distinct_elim
div_simplify
drat
drup
eq_congruent
eq_congruent_pred
eq_reflexive
eq_simplify
eq_symmetric
eq_transitive
equiv1
equiv2
equiv_neg1
equiv_neg2
equiv_pos1
equiv_pos2
equiv_simplify
evaluate
false
forall_inst
ho_cong
implies
implies_neg1
implies_neg2
implies_pos
implies_simplify
ite1
ite2
ite_intro
ite_neg1
ite_neg2
ite_pos1
ite_pos2
ite_simplify
la_disequality
la_generic
la_mult_neg
la_mult_pos
la_rw_eq
la_tautology
la_totality
let
miniscope_distribute
miniscope_ite
miniscope_split
minus_simplify
mod_simplify
nary_elim
not_and
not_equiv1
not_equiv2
not_implies1
not_implies2
not_ite1
not_ite2
not_not
not_or
not_simplify
not_symm
not_xor1
not_xor2
onepoint
or
or_neg
or_pos
or_simplify
pbblast_bvand
pbblast_bvand_ith_bit
pbblast_bveq
pbblast_bvsge
pbblast_bvsgt
pbblast_bvsle
pbblast_bvslt
pbblast_bvuge
pbblast_bvugt
pbblast_bvule
pbblast_bvult
pbblast_bvxor
pbblast_bvxor_ith_bit
pbblast_pbbconst
pbblast_pbbvar
poly_simp
poly_simp_rel
prod_simplify
qnt_cnf
qnt_join
qnt_rm_unused
qnt_simplify
rare_rewrite
re_concat_unfold_pos
re_inter
re_kleene_star_unfold_pos
re_unfold_neg
re_unfold_neg_concat_fixed_prefix
re_unfold_neg_concat_fixed_suffix
refl
reordering
resolution
shuffle
sko_ex
sko_forall
strict_resolution
string_decompose
string_length_non_empty
string_length_pos
subproof
sum_simplify
symm
tautology
th_resolution
trans
true
unary_minus_simplify
weakening
xor1
xor2
xor_neg1
xor_neg2
xor_pos1
xor_pos2'''.split()
