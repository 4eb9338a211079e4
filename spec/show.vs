== config flatten Display
== config type fmt::Formatter<'_> Formatter
== config type fmt::Formatter Formatter
== config type fmt::Result Result<(),FmtError>
== config text 10 +
== config text 30 *
== config text 31 /
== config text 32 (
== config text 33 )
== config text 34 sin(
== config text 35 cos(
== config text 36 ==
== config text 37 <=
== config text 38 >=
== config text 40 )*(
== config text 41 *(
== config text 42 )*
== config text 43 )/(
== config text 44 /(
== config text 45 )/
== fn ConstantScalar::fmt
ret r
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && shows(Node::ConstantScalar(Rc::new(*self)), app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    proof { lem_words(); lem_show(Node::ConstantScalar(Rc::new(*self))); }
== fn VariableScalar::fmt
ret r
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && shows(Node::VariableScalar(Rc::new(*self)), app(*old(f), *final(f))) && own_args(Node::VariableScalar(Rc::new(*self)), app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    proof { lem_word(self.name@); lem_show(Node::VariableScalar(Rc::new(*self))); }
== fn FunctionMul::fmt
ret r
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && shows(Node::FunctionMul(Rc::new(*self)), app(*old(f), *final(f))) && own_args(Node::FunctionMul(Rc::new(*self)), app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    proof { reveal_with_fuel(opn, 3); reveal_with_fuel(inner, 3); lem_words(); lem_show(Node::FunctionMul(Rc::new(*self))); }
== fn FunctionDiv::fmt
ret r
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && shows(Node::FunctionDiv(Rc::new(*self)), app(*old(f), *final(f))) && own_args(Node::FunctionDiv(Rc::new(*self)), app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    proof { reveal_with_fuel(opn, 3); reveal_with_fuel(inner, 3); lem_words(); lem_show(Node::FunctionDiv(Rc::new(*self))); }
== fn FunctionSin::fmt
ret r
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && shows(Node::FunctionSin(Rc::new(*self)), app(*old(f), *final(f))) && own_args(Node::FunctionSin(Rc::new(*self)), app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    proof { lem_words(); lem_show(Node::FunctionSin(Rc::new(*self))); }
== fn FunctionCos::fmt
ret r
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && shows(Node::FunctionCos(Rc::new(*self)), app(*old(f), *final(f))) && own_args(Node::FunctionCos(Rc::new(*self)), app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    proof { lem_words(); lem_show(Node::FunctionCos(Rc::new(*self))); }
== fn FunctionAdd::fmt
#[verifier::loop_isolation(false)]
ret r
loops 1
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && shows(Node::FunctionAdd(Rc::new(*self)), app(*old(f), *final(f))) && own_args(Node::FunctionAdd(Rc::new(*self)), app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    add_inv(self);
    proof { lem_words(); lem_show(Node::FunctionAdd(Rc::new(*self))); }
== at loop 0 before
    let ghost bare = f.t@ =~= old(f).t@;
    proof { lem_sum_next(self.args@, (self.args@.len() - 1) as nat); lem_sum_next(self.args@, 0); }
== loop 0
    invariant n == self.args@.len(), n >= 2, appended(*old(f), *f), bare ==> f.t@ =~= old(f).t@ + (if i == 0 { Txt::empty() } else if i < n { yl(sumtree(self.args@, i as nat)) + seq![Piece::T(10)] } else { yl(sumtree(self.args@, i as nat)) }),
        !bare ==> i >= 1 && f.t@ =~= old(f).t@ + yl(sumtree(self.args@, i as nat)),
== at loop 0 begin
    proof { lem_sum_next(self.args@, i as nat); }
== fn Constraint::fmt
ret r
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && cshows(*self, app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    proof { lem_sub(); lem_words(); }
== fn Node::fmt
ret r
    ensures match r { Ok(_) => appended(*old(f), *final(f)) && shows(*self, app(*old(f), *final(f))), Err(_) => final(f).failed@ },
== at begin
    proof { lem_words(); lem_show(*self); }
