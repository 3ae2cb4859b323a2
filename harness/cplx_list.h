C(c_default)
C(c_real)
C(c_pair)
C(c_copy)
C(c_assign)
C(c_fromstd)
C(c_tostd)
C(c_re)
C(c_im)
C(c_add)
C(c_sub)
C(c_mul)
C(c_div)
C(c_smul)
C(c_mulr)
C(c_divr)
C(c_addeq)
C(c_subeq)
C(c_muleq)
C(c_mulreq)
C(c_divreq)
C(c_addeq_ret)
C(c_subeq_ret)
C(c_muleq_ret)
C(c_mulreq_ret)
C(c_divreq_ret)
C(c_addeq_self)
C(c_subeq_self)
C(c_muleq_self)
C(c_mul_self)
C(c_div_self)
C(c_mulreq_re)
C(c_mulreq_im)
C(c_divreq_re)
C(c_divreq_im)
C(c_div_aself)
C(c_conj)
C(c_neg)
C(c_jx)
C(c_mjx)
C(c_norm)
C(c_abs)
C(c_arg)
C(c_polar)
C(c_expj)
