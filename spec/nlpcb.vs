== config opcall mul sub
== config type c_int i32
== config type c_double F64
== config path slice::from_raw_parts rt_slice
== config path ptr::copy rt_copy
== config path ptr::copy_nonoverlapping rt_copy
== config callarg from_raw_parts __m
== config callarg copy __m
== config callarg copy_nonoverlapping __m
== config method to_vec rt_to_vec
== config method as_ptr rt_as_ptr
== config fnparam eval_f_cb __m: &mut RtMem, __p: &mut ProblemNlp
== config fnparam eval_grad_f_cb __m: &mut RtMem, __p: &mut ProblemNlp
== config fnparam eval_g_cb __m: &mut RtMem, __p: &mut ProblemNlp
== config fnparam eval_jac_g_cb __m: &mut RtMem, __p: &mut ProblemNlp
== config fnparam eval_h_cb __m: &mut RtMem, __p: &mut ProblemNlp
== fn eval_f_cb
ret r
    requires asked(n, x, new_x, *old(__m), user_data, *old(__p)), buffer(obj_value, 1, *old(__m)),
    ensures if x.b@ != 0 && obj_value.b@ != 0 && !user_data.null && n == nlp_nx(*old(__p)) {
            r == 1 && current(*old(__p), *final(__p), new_x, x, *old(__m)) && only(*old(__m), *final(__m), obj_value, 1) && cell(obj_value, 0, *final(__m)) == final(__p).base.phi
        } else { refused(r, *old(__p), *final(__p), *old(__m), *final(__m)) },
== fn eval_grad_f_cb
ret r
    requires asked(n, x, new_x, *old(__m), user_data, *old(__p)), buffer(grad_f, n as int, *old(__m)),
    ensures if x.b@ != 0 && grad_f.b@ != 0 && !user_data.null && n == nlp_nx(*old(__p)) {
            r == 1 && current(*old(__p), *final(__p), new_x, x, *old(__m)) && only(*old(__m), *final(__m), grad_f, n as int) && seg(grad_f, n as int, *final(__m)) =~= final(__p).base.gphi@
        } else { refused(r, *old(__p), *final(__p), *old(__m), *final(__m)) },
== fn eval_g_cb
ret r
    requires asked(n, x, new_x, *old(__m), user_data, *old(__p)), buffer(g, m as int, *old(__m)),
    ensures if x.b@ != 0 && g.b@ != 0 && !user_data.null && sized(n, m, *old(__p)) {
            r == 1 && current(*old(__p), *final(__p), new_x, x, *old(__m)) && only(*old(__m), *final(__m), g, m as int) && residuals(*final(__p), point(x, *old(__p), *old(__m)), seg(g, m as int, *final(__m)))
        } else { refused(r, *old(__p), *final(__p), *old(__m), *final(__m)) },
== fn eval_jac_g_cb
ret r
loops 4
    requires asked(n, x, new_x, *old(__m), user_data, *old(__p)), outputs(irow, jcol, values, nele_jac as int, *old(__m)),
    ensures if !user_data.null && sized(n, m, *old(__p)) && nele_jac == nnzj(*old(__p)) && (values.b@ == 0 && irow.b@ != 0 && jcol.b@ != 0 || values.b@ != 0 && (new_x == 1 ==> x.b@ != 0)) {
            r == 1 && if values.b@ == 0 {
                *final(__p) == *old(__p) && only2(*old(__m), *final(__m), irow, jcol, nele_jac as int) && pattern(irow, jcol, *final(__m), old(__p).base.a, old(__p).base.j, nlp_na(*old(__p)), nele_jac as int)
            } else {
                current(*old(__p), *final(__p), new_x, x, *old(__m)) && only(*old(__m), *final(__m), values, nele_jac as int) && jacobian(values, *final(__m), final(__p).base.a, final(__p).base.j, nele_jac as int)
            }
        } else { refused(r, *old(__p), *final(__p), *old(__m), *final(__m)) },
== fn eval_h_cb
ret r
loops 4
    requires asked(n, x, new_x, *old(__m), user_data, *old(__p)), outputs(irow, jcol, values, nele_hess as int, *old(__m)), buffer(lambda, m as int, *old(__m)),
    ensures if !user_data.null && sized(n, m, *old(__p)) && nele_hess == nnzh(*old(__p)) && (values.b@ == 0 && irow.b@ != 0 && jcol.b@ != 0 || values.b@ != 0 && (new_x == 1 ==> x.b@ != 0)) {
            if values.b@ == 0 {
                r == 1 && *final(__p) == *old(__p) && only2(*old(__m), *final(__m), irow, jcol, nele_hess as int) && pattern(irow, jcol, *final(__m), old(__p).base.hphi, old(__p).base.hcomb, 0, nele_hess as int)
            } else if nlp_nf(*old(__p)) > 0 && lambda.b@ == 0 {
                r == 0 && *final(__m) == *old(__m) && current(*old(__p), *final(__p), new_x, x, *old(__m))
            } else {
                r == 1 && current(*old(__p), *final(__p), new_x, x, *old(__m)) && only(*old(__m), *final(__m), values, nele_hess as int) && hessian(values, *final(__m), obj_factor.v@, final(__p).base.hphi, final(__p).base.hcomb, nele_hess as int)
                && (nlp_nf(*old(__p)) > 0 ==> hcomb_of(final(__p).base.hcomb, final(__p).base.h@, seg_at(lambda, nlp_na(*old(__p)), nlp_nf(*old(__p)), *old(__m)), nlp_nf(*old(__p))))
            }
        } else { refused(r, *old(__p), *final(__p), *old(__m), *final(__m)) },
== fn eval_f_cb | eval_grad_f_cb | eval_g_cb | eval_jac_g_cb | eval_h_cb
== at begin
    broadcast use callbacks;
    let ghost p0 = *__p;
    let ghost m0 = *__m;
== fn eval_jac_g_cb
== loop 0 next
    invariant_except_break nlp_ok(*p), *p == p0, nnzj(*p) == nele_jac, irow.b@ != 0, jcol.b@ != 0, irow.b@ != jcol.b@, only2(m0, *__m, irow, jcol, nele_jac as int), cells(irow, nele_jac as int, *__m), cells(jcol, nele_jac as int, *__m),
        *__n0.mat == p.base.a, k == __n0.k, k <= p.base.a.data@.len(), pattern(irow, jcol, *__m, p.base.a, p.base.j, nlp_na(*p), k as int),
    ensures *p == p0, only2(m0, *__m, irow, jcol, nele_jac as int), k == p.base.a.data@.len(), cells(irow, nele_jac as int, *__m), cells(jcol, nele_jac as int, *__m), pattern(irow, jcol, *__m, p.base.a, p.base.j, nlp_na(*p), k as int),
    decreases p.base.a.data@.len() - k,
== loop 1 next
    invariant_except_break nlp_ok(*p), *p == p0, nnzj(*p) == nele_jac, irow.b@ != 0, jcol.b@ != 0, irow.b@ != jcol.b@, only2(m0, *__m, irow, jcol, nele_jac as int), cells(irow, nele_jac as int, *__m), cells(jcol, nele_jac as int, *__m),
        *__n1.mat == p.base.j, k == p.base.a.data@.len() + __n1.k, __n1.k <= p.base.j.data@.len(), pattern(irow, jcol, *__m, p.base.a, p.base.j, nlp_na(*p), k as int),
    ensures *p == p0, only2(m0, *__m, irow, jcol, nele_jac as int), pattern(irow, jcol, *__m, p.base.a, p.base.j, nlp_na(*p), nele_jac as int),
    decreases nele_jac - k,
== loop 2 next
    invariant_except_break nlp_ok(*p), current(p0, *p, new_x, x, m0), nnzj(*p) == nele_jac, only(m0, *__m, values, nele_jac as int), cells(values, nele_jac as int, *__m),
        *__n2.mat == p.base.a, k == __n2.k, k <= p.base.a.data@.len(), jacobian(values, *__m, p.base.a, p.base.j, k as int),
    ensures current(p0, *p, new_x, x, m0), only(m0, *__m, values, nele_jac as int), cells(values, nele_jac as int, *__m), k == p.base.a.data@.len(), jacobian(values, *__m, p.base.a, p.base.j, k as int),
    decreases p.base.a.data@.len() - k,
== loop 3 next
    invariant_except_break nlp_ok(*p), current(p0, *p, new_x, x, m0), nnzj(*p) == nele_jac, only(m0, *__m, values, nele_jac as int), cells(values, nele_jac as int, *__m),
        *__n3.mat == p.base.j, k == p.base.a.data@.len() + __n3.k, __n3.k <= p.base.j.data@.len(), jacobian(values, *__m, p.base.a, p.base.j, k as int),
    ensures current(p0, *p, new_x, x, m0), only(m0, *__m, values, nele_jac as int), jacobian(values, *__m, p.base.a, p.base.j, nele_jac as int),
    decreases nele_jac - k,
== fn eval_h_cb
== loop 0 next
    invariant_except_break nlp_ok(*p), *p == p0, nnzh(*p) == nele_hess, irow.b@ != 0, jcol.b@ != 0, irow.b@ != jcol.b@, only2(m0, *__m, irow, jcol, nele_hess as int), cells(irow, nele_hess as int, *__m), cells(jcol, nele_hess as int, *__m),
        *__n0.mat == p.base.hphi, k == __n0.k, k <= p.base.hphi.data@.len(), pattern(irow, jcol, *__m, p.base.hphi, p.base.hcomb, 0, k as int),
    ensures *p == p0, only2(m0, *__m, irow, jcol, nele_hess as int), k == p.base.hphi.data@.len(), cells(irow, nele_hess as int, *__m), cells(jcol, nele_hess as int, *__m), pattern(irow, jcol, *__m, p.base.hphi, p.base.hcomb, 0, k as int),
    decreases p.base.hphi.data@.len() - k,
== loop 1 next
    invariant_except_break nlp_ok(*p), *p == p0, nnzh(*p) == nele_hess, irow.b@ != 0, jcol.b@ != 0, irow.b@ != jcol.b@, only2(m0, *__m, irow, jcol, nele_hess as int), cells(irow, nele_hess as int, *__m), cells(jcol, nele_hess as int, *__m),
        *__n1.mat == p.base.hcomb, k == p.base.hphi.data@.len() + __n1.k, __n1.k <= p.base.hcomb.data@.len(), pattern(irow, jcol, *__m, p.base.hphi, p.base.hcomb, 0, k as int),
    ensures *p == p0, only2(m0, *__m, irow, jcol, nele_hess as int), pattern(irow, jcol, *__m, p.base.hphi, p.base.hcomb, 0, nele_hess as int),
    decreases nele_hess - k,
== loop 2 next
    invariant_except_break nlp_ok(*p), current(p0, *p, new_x, x, m0), nlp_nf(p0) > 0 ==> hcomb_of(p.base.hcomb, p.base.h@, seg_at(lambda, nlp_na(p0), nlp_nf(p0), m0), nlp_nf(p0)), nnzh(*p) == nele_hess, only(m0, *__m, values, nele_hess as int), cells(values, nele_hess as int, *__m),
        *__n2.mat == p.base.hphi, k == __n2.k, k <= p.base.hphi.data@.len(), hessian(values, *__m, obj_factor.v@, p.base.hphi, p.base.hcomb, k as int),
    ensures current(p0, *p, new_x, x, m0), nlp_nf(p0) > 0 ==> hcomb_of(p.base.hcomb, p.base.h@, seg_at(lambda, nlp_na(p0), nlp_nf(p0), m0), nlp_nf(p0)), only(m0, *__m, values, nele_hess as int), cells(values, nele_hess as int, *__m), k == p.base.hphi.data@.len(), hessian(values, *__m, obj_factor.v@, p.base.hphi, p.base.hcomb, k as int),
    decreases p.base.hphi.data@.len() - k,
== loop 3 next
    invariant_except_break nlp_ok(*p), current(p0, *p, new_x, x, m0), nlp_nf(p0) > 0 ==> hcomb_of(p.base.hcomb, p.base.h@, seg_at(lambda, nlp_na(p0), nlp_nf(p0), m0), nlp_nf(p0)), nnzh(*p) == nele_hess, only(m0, *__m, values, nele_hess as int), cells(values, nele_hess as int, *__m),
        *__n3.mat == p.base.hcomb, k == p.base.hphi.data@.len() + __n3.k, __n3.k <= p.base.hcomb.data@.len(), hessian(values, *__m, obj_factor.v@, p.base.hphi, p.base.hcomb, k as int),
    ensures current(p0, *p, new_x, x, m0), nlp_nf(p0) > 0 ==> hcomb_of(p.base.hcomb, p.base.h@, seg_at(lambda, nlp_na(p0), nlp_nf(p0), m0), nlp_nf(p0)), only(m0, *__m, values, nele_hess as int), hessian(values, *__m, obj_factor.v@, p.base.hphi, p.base.hcomb, nele_hess as int),
    decreases nele_hess - k,
