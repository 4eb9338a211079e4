verus! {
// ================================================================ printed expressions
// Text is a sequence of pieces: literal tokens (by number), numbers, names, and the text
// of a smaller expression (Sub), which its own printing function is responsible for.
// Blanks separate tokens and are dropped.
pub enum Piece { T(int), Num(real), Name(Seq<char>), Sub(Node), Con(Constraint), Bad }
// tokens: 10 +  30 *  31 /  32 (  33 )  34 sin(  35 cos(  36 ==  37 <=  38 >=
pub type Txt = Seq<Piece>;
/// literal words the scanner glues together, as their tokens
pub open spec fn toks(id: int) -> Txt {
    if id == 40 { seq![Piece::T(33), Piece::T(30), Piece::T(32)] } else if id == 41 { seq![Piece::T(30), Piece::T(32)] } else if id == 42 { seq![Piece::T(33), Piece::T(30)] }
    else if id == 43 { seq![Piece::T(33), Piece::T(31), Piece::T(32)] } else if id == 44 { seq![Piece::T(31), Piece::T(32)] } else if id == 45 { seq![Piece::T(33), Piece::T(31)] }
    else if id == 0 { seq![Piece::Bad] } else { seq![Piece::T(id)] } }
/// what a string prints: words of the vocabulary are tokens, anything else is a name
pub open spec fn word(s: Seq<char>) -> Txt { if s == ""@ { Txt::empty() } else if s == "+"@ { seq![Piece::T(10)] } else if s == " + "@ { seq![Piece::T(10)] } else if s == "*"@ { seq![Piece::T(30)] } else if s == "/"@ { seq![Piece::T(31)] } else if s == "("@ { seq![Piece::T(32)] } else if s == ")"@ { seq![Piece::T(33)] } else if s == "=="@ { seq![Piece::T(36)] } else if s == "<="@ { seq![Piece::T(37)] } else if s == ">="@ { seq![Piece::T(38)] } else if s == " == "@ { seq![Piece::T(36)] } else if s == " <= "@ { seq![Piece::T(37)] } else if s == " >= "@ { seq![Piece::T(38)] } else if s == "Minimize"@ { seq![Piece::T(51)] } else if s == "Maximize"@ { seq![Piece::T(52)] } else if s == "Find point"@ { seq![Piece::T(53), Piece::T(54)] } else if s == "Subject to"@ { seq![Piece::T(55), Piece::T(56)] } else { seq![Piece::Name(s)] } }
pub proof fn lem_words()
    ensures word(""@) == Txt::empty(), word("+"@) == seq![Piece::T(10)], word(" + "@) == seq![Piece::T(10)], word("*"@) == seq![Piece::T(30)], word("/"@) == seq![Piece::T(31)], word("("@) == seq![Piece::T(32)], word(")"@) == seq![Piece::T(33)], word("=="@) == seq![Piece::T(36)], word("<="@) == seq![Piece::T(37)], word(">="@) == seq![Piece::T(38)], word(" == "@) == seq![Piece::T(36)], word(" <= "@) == seq![Piece::T(37)], word(" >= "@) == seq![Piece::T(38)], word("Minimize"@) == seq![Piece::T(51)], word("Maximize"@) == seq![Piece::T(52)], word("Find point"@) == seq![Piece::T(53), Piece::T(54)], word("Subject to"@) == seq![Piece::T(55), Piece::T(56)],
{
    reveal_strlit(""); reveal_strlit("+"); reveal_strlit(" + "); reveal_strlit("*"); reveal_strlit("/"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit("=="); reveal_strlit("<="); reveal_strlit(">="); reveal_strlit(" == "); reveal_strlit(" <= "); reveal_strlit(" >= "); reveal_strlit("Minimize"); reveal_strlit("Maximize"); reveal_strlit("Find point"); reveal_strlit("Subject to");
    assert("+"@.len() != ""@.len());
    assert(" + "@.len() != ""@.len());
    assert(" + "@.len() != "+"@.len());
    assert("*"@.len() != ""@.len());
    assert("*"@[0] != "+"@[0]);
    assert("*"@.len() != " + "@.len());
    assert("/"@.len() != ""@.len());
    assert("/"@[0] != "+"@[0]);
    assert("/"@.len() != " + "@.len());
    assert("/"@[0] != "*"@[0]);
    assert("("@.len() != ""@.len());
    assert("("@[0] != "+"@[0]);
    assert("("@.len() != " + "@.len());
    assert("("@[0] != "*"@[0]);
    assert("("@[0] != "/"@[0]);
    assert(")"@.len() != ""@.len());
    assert(")"@[0] != "+"@[0]);
    assert(")"@.len() != " + "@.len());
    assert(")"@[0] != "*"@[0]);
    assert(")"@[0] != "/"@[0]);
    assert(")"@[0] != "("@[0]);
    assert("=="@.len() != ""@.len());
    assert("=="@.len() != "+"@.len());
    assert("=="@.len() != " + "@.len());
    assert("=="@.len() != "*"@.len());
    assert("=="@.len() != "/"@.len());
    assert("=="@.len() != "("@.len());
    assert("=="@.len() != ")"@.len());
    assert("<="@.len() != ""@.len());
    assert("<="@.len() != "+"@.len());
    assert("<="@.len() != " + "@.len());
    assert("<="@.len() != "*"@.len());
    assert("<="@.len() != "/"@.len());
    assert("<="@.len() != "("@.len());
    assert("<="@.len() != ")"@.len());
    assert("<="@[0] != "=="@[0]);
    assert(">="@.len() != ""@.len());
    assert(">="@.len() != "+"@.len());
    assert(">="@.len() != " + "@.len());
    assert(">="@.len() != "*"@.len());
    assert(">="@.len() != "/"@.len());
    assert(">="@.len() != "("@.len());
    assert(">="@.len() != ")"@.len());
    assert(">="@[0] != "=="@[0]);
    assert(">="@[0] != "<="@[0]);
    assert(" == "@.len() != ""@.len());
    assert(" == "@.len() != "+"@.len());
    assert(" == "@.len() != " + "@.len());
    assert(" == "@.len() != "*"@.len());
    assert(" == "@.len() != "/"@.len());
    assert(" == "@.len() != "("@.len());
    assert(" == "@.len() != ")"@.len());
    assert(" == "@.len() != "=="@.len());
    assert(" == "@.len() != "<="@.len());
    assert(" == "@.len() != ">="@.len());
    assert(" <= "@.len() != ""@.len());
    assert(" <= "@.len() != "+"@.len());
    assert(" <= "@.len() != " + "@.len());
    assert(" <= "@.len() != "*"@.len());
    assert(" <= "@.len() != "/"@.len());
    assert(" <= "@.len() != "("@.len());
    assert(" <= "@.len() != ")"@.len());
    assert(" <= "@.len() != "=="@.len());
    assert(" <= "@.len() != "<="@.len());
    assert(" <= "@.len() != ">="@.len());
    assert(" <= "@[1] != " == "@[1]);
    assert(" >= "@.len() != ""@.len());
    assert(" >= "@.len() != "+"@.len());
    assert(" >= "@.len() != " + "@.len());
    assert(" >= "@.len() != "*"@.len());
    assert(" >= "@.len() != "/"@.len());
    assert(" >= "@.len() != "("@.len());
    assert(" >= "@.len() != ")"@.len());
    assert(" >= "@.len() != "=="@.len());
    assert(" >= "@.len() != "<="@.len());
    assert(" >= "@.len() != ">="@.len());
    assert(" >= "@[1] != " == "@[1]);
    assert(" >= "@[1] != " <= "@[1]);
    assert("Minimize"@.len() != ""@.len());
    assert("Minimize"@.len() != "+"@.len());
    assert("Minimize"@.len() != " + "@.len());
    assert("Minimize"@.len() != "*"@.len());
    assert("Minimize"@.len() != "/"@.len());
    assert("Minimize"@.len() != "("@.len());
    assert("Minimize"@.len() != ")"@.len());
    assert("Minimize"@.len() != "=="@.len());
    assert("Minimize"@.len() != "<="@.len());
    assert("Minimize"@.len() != ">="@.len());
    assert("Minimize"@.len() != " == "@.len());
    assert("Minimize"@.len() != " <= "@.len());
    assert("Minimize"@.len() != " >= "@.len());
    assert("Maximize"@.len() != ""@.len());
    assert("Maximize"@.len() != "+"@.len());
    assert("Maximize"@.len() != " + "@.len());
    assert("Maximize"@.len() != "*"@.len());
    assert("Maximize"@.len() != "/"@.len());
    assert("Maximize"@.len() != "("@.len());
    assert("Maximize"@.len() != ")"@.len());
    assert("Maximize"@.len() != "=="@.len());
    assert("Maximize"@.len() != "<="@.len());
    assert("Maximize"@.len() != ">="@.len());
    assert("Maximize"@.len() != " == "@.len());
    assert("Maximize"@.len() != " <= "@.len());
    assert("Maximize"@.len() != " >= "@.len());
    assert("Maximize"@[1] != "Minimize"@[1]);
    assert("Find point"@.len() != ""@.len());
    assert("Find point"@.len() != "+"@.len());
    assert("Find point"@.len() != " + "@.len());
    assert("Find point"@.len() != "*"@.len());
    assert("Find point"@.len() != "/"@.len());
    assert("Find point"@.len() != "("@.len());
    assert("Find point"@.len() != ")"@.len());
    assert("Find point"@.len() != "=="@.len());
    assert("Find point"@.len() != "<="@.len());
    assert("Find point"@.len() != ">="@.len());
    assert("Find point"@.len() != " == "@.len());
    assert("Find point"@.len() != " <= "@.len());
    assert("Find point"@.len() != " >= "@.len());
    assert("Find point"@.len() != "Minimize"@.len());
    assert("Find point"@.len() != "Maximize"@.len());
    assert("Subject to"@.len() != ""@.len());
    assert("Subject to"@.len() != "+"@.len());
    assert("Subject to"@.len() != " + "@.len());
    assert("Subject to"@.len() != "*"@.len());
    assert("Subject to"@.len() != "/"@.len());
    assert("Subject to"@.len() != "("@.len());
    assert("Subject to"@.len() != ")"@.len());
    assert("Subject to"@.len() != "=="@.len());
    assert("Subject to"@.len() != "<="@.len());
    assert("Subject to"@.len() != ">="@.len());
    assert("Subject to"@.len() != " == "@.len());
    assert("Subject to"@.len() != " <= "@.len());
    assert("Subject to"@.len() != " >= "@.len());
    assert("Subject to"@.len() != "Minimize"@.len());
    assert("Subject to"@.len() != "Maximize"@.len());
    assert("Subject to"@[0] != "Find point"@[0]);
}
pub proof fn lem_word(s: Seq<char>)
    ensures word(s).len() <= 2, forall|i: int| 0 <= i < word(s).len() ==> !(#[trigger] word(s)[i] is Sub)
{ }
/// what the plain format {} prints for a value
pub trait RtFmt { spec fn txt(&self) -> Txt; spec fn num(&self) -> bool; }
impl RtFmt for F64 { open spec fn txt(&self) -> Txt { if is_r(*self) { seq![Piece::Num(rv(*self))] } else { seq![Piece::Bad] } } open spec fn num(&self) -> bool { true } }
impl RtFmt for String { open spec fn txt(&self) -> Txt { word(self@) } open spec fn num(&self) -> bool { false } }
impl RtFmt for str { open spec fn txt(&self) -> Txt { word(self@) } open spec fn num(&self) -> bool { false } }
impl RtFmt for RtText { open spec fn txt(&self) -> Txt { self.t@ } open spec fn num(&self) -> bool { false } }
impl RtFmt for Node { open spec fn txt(&self) -> Txt { seq![Piece::Sub(*self)] } open spec fn num(&self) -> bool { false } }
impl RtFmt for ConstantScalar { open spec fn txt(&self) -> Txt { seq![Piece::Sub(Node::ConstantScalar(Rc::new(*self)))] } open spec fn num(&self) -> bool { false } }
impl RtFmt for VariableScalar { open spec fn txt(&self) -> Txt { seq![Piece::Sub(Node::VariableScalar(Rc::new(*self)))] } open spec fn num(&self) -> bool { false } }
impl RtFmt for FunctionAdd { open spec fn txt(&self) -> Txt { seq![Piece::Sub(Node::FunctionAdd(Rc::new(*self)))] } open spec fn num(&self) -> bool { false } }
impl RtFmt for FunctionMul { open spec fn txt(&self) -> Txt { seq![Piece::Sub(Node::FunctionMul(Rc::new(*self)))] } open spec fn num(&self) -> bool { false } }
impl RtFmt for FunctionDiv { open spec fn txt(&self) -> Txt { seq![Piece::Sub(Node::FunctionDiv(Rc::new(*self)))] } open spec fn num(&self) -> bool { false } }
impl RtFmt for FunctionSin { open spec fn txt(&self) -> Txt { seq![Piece::Sub(Node::FunctionSin(Rc::new(*self)))] } open spec fn num(&self) -> bool { false } }
impl RtFmt for FunctionCos { open spec fn txt(&self) -> Txt { seq![Piece::Sub(Node::FunctionCos(Rc::new(*self)))] } open spec fn num(&self) -> bool { false } }
impl RtFmt for Constraint { open spec fn txt(&self) -> Txt { seq![Piece::Con(*self)] } open spec fn num(&self) -> bool { false } }
impl<T: RtFmt + ?Sized> RtFmt for &T { open spec fn txt(&self) -> Txt { (**self).txt() } open spec fn num(&self) -> bool { (**self).num() } }
impl<T: RtFmt> RtFmt for Rc<T> { open spec fn txt(&self) -> Txt { (**self).txt() } open spec fn num(&self) -> bool { (**self).num() } }
pub struct RtText { pub t: Ghost<Txt> }
pub fn rt_text() -> (r: RtText) ensures r.t@ == Txt::empty() { RtText { t: Ghost(Seq::empty()) } }
impl RtText {
    pub fn ws(self) -> (r: RtText) ensures r == self { self }
    pub fn txt(self, id: Ghost<int>) -> (r: RtText) ensures r.t@ == self.t@ + toks(id@) { RtText { t: Ghost(self.t@ + toks(id@)) } }
    // {} prints what the argument's own printing function prints, {:e} and, for numbers, {:?} the
    // number itself; other formats are left open
    #[verifier::external_body] pub fn arg<T: RtFmt>(self, x: &T, p: Ghost<int>) -> (r: RtText) ensures p@ == -1 || p@ == -3 || p@ == -4 && x.num() ==> r.t@ == self.t@ + x.txt() { unimplemented!() }
}
pub struct FmtError { pub a: u8 }
impl core::fmt::Debug for FmtError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
/// where the text goes; `failed` once the place it goes to has reported an error
pub struct Formatter { pub t: Ghost<Txt>, pub failed: Ghost<bool> }
impl Formatter {
    #[verifier::external_body] pub fn write_str<T: RtFmt + ?Sized>(&mut self, x: &T) -> (r: Result<(), FmtError>)
        ensures match r { Ok(_) => final(self).t@ == old(self).t@ + x.txt() && final(self).failed@ == old(self).failed@, Err(_) => final(self).failed@ } { unimplemented!() }
    #[verifier::external_body] pub fn rt_write_fmt(&mut self, x: &RtText) -> (r: Result<(), FmtError>)
        ensures match r { Ok(_) => final(self).t@ == old(self).t@ + x.t@ && final(self).failed@ == old(self).failed@, Err(_) => final(self).failed@ } { unimplemented!() }
}
// ---------------------------------------------------------------- reading it
/// parse trees of: expression = terms joined by +; term = factors joined by * and /, from
/// left to right; factor = number, name, (expression), sin(expression), cos(expression)
pub enum PT { Num(real), Name(Node), Sub(Node), Par(Box<PT>), Sin(Box<PT>), Cos(Box<PT>), Mul(Box<PT>, Box<PT>), Div(Box<PT>, Box<PT>), Add(Box<PT>, Box<PT>) }
/// 0 an expression, 1 a term, 2 a factor
pub open spec fn lev(n: Node) -> int { match n { Node::FunctionAdd(_) => 0, Node::FunctionMul(_) => 1, Node::FunctionDiv(_) => 1, _ => 2 } }
pub open spec fn level(t: PT) -> int { match t { PT::Sub(n) => lev(n), PT::Add(a, b) => 0, PT::Mul(a, b) => 1, PT::Div(a, b) => 1, _ => 2 } }
/// a tree of this text; a * b and a + b with b a product, quotient or sum regroup to the
/// left without changing the value (lem_left)
pub open spec fn wf(t: PT) -> bool decreases t { match t {
    PT::Par(a) => wf(*a), PT::Sin(a) => wf(*a), PT::Cos(a) => wf(*a),
    PT::Mul(a, b) => wf(*a) && wf(*b) && level(*a) >= 1 && level(*b) >= 1,
    PT::Div(a, b) => wf(*a) && wf(*b) && level(*a) >= 1 && level(*b) >= 2,
    PT::Add(a, b) => wf(*a) && wf(*b), PT::Name(v) => v is VariableScalar, _ => true } }
/// the usual grammar: the right operand of + is a term, that of * and / a factor
pub open spec fn strict(t: PT) -> bool decreases t { match t {
    PT::Par(a) => strict(*a), PT::Sin(a) => strict(*a), PT::Cos(a) => strict(*a),
    PT::Mul(a, b) => strict(*a) && strict(*b) && level(*a) >= 1 && level(*b) >= 2,
    PT::Div(a, b) => strict(*a) && strict(*b) && level(*a) >= 1 && level(*b) >= 2,
    PT::Add(a, b) => strict(*a) && strict(*b) && level(*b) >= 1, PT::Name(v) => v is VariableScalar, PT::Sub(_) => false, _ => true } }
pub open spec fn yl(t: PT) -> Txt decreases t { match t {
    PT::Num(x) => seq![Piece::Num(x)], PT::Name(v) => word(v->VariableScalar_0.name@), PT::Sub(n) => seq![Piece::Sub(n)],
    PT::Par(a) => seq![Piece::T(32)] + yl(*a) + seq![Piece::T(33)],
    PT::Sin(a) => seq![Piece::T(34)] + yl(*a) + seq![Piece::T(33)],
    PT::Cos(a) => seq![Piece::T(35)] + yl(*a) + seq![Piece::T(33)],
    PT::Mul(a, b) => yl(*a) + seq![Piece::T(30)] + yl(*b),
    PT::Div(a, b) => yl(*a) + seq![Piece::T(31)] + yl(*b),
    PT::Add(a, b) => yl(*a) + seq![Piece::T(10)] + yl(*b) } }
pub open spec fn tv(t: PT, m: IMap<Node, real>) -> real decreases t { match t {
    PT::Num(x) => x, PT::Name(v) => m[v], PT::Sub(n) => val(n, m), PT::Par(a) => tv(*a, m), PT::Sin(a) => rsin(tv(*a, m)), PT::Cos(a) => rcos(tv(*a, m)),
    PT::Mul(a, b) => tv(*a, m) * tv(*b, m), PT::Div(a, b) => tv(*a, m) / tv(*b, m), PT::Add(a, b) => tv(*a, m) + tv(*b, m) } }
/// nothing is divided by zero and every name has a value
pub open spec fn pk(t: PT, m: IMap<Node, real>) -> bool decreases t { match t {
    PT::Num(x) => true, PT::Name(v) => m.contains_key(v), PT::Sub(n) => ok(n, m), PT::Par(a) => pk(*a, m), PT::Sin(a) => pk(*a, m), PT::Cos(a) => pk(*a, m),
    PT::Mul(a, b) => pk(*a, m) && pk(*b, m), PT::Div(a, b) => pk(*a, m) && pk(*b, m) && tv(*b, m) != 0real, PT::Add(a, b) => pk(*a, m) && pk(*b, m) } }
pub open spec fn read(t: PT, n: Node) -> bool { forall|m: IMap<Node, real>| #[trigger] ok(n, m) ==> pk(t, m) && tv(t, m) == val(n, m) }
pub open spec fn shown(t: PT, n: Node, s: Txt) -> bool { wf(t) && level(t) >= lev(n) && yl(t) =~= s && read(t, n) }
/// constants have to be real numbers
pub open spec fn shows(n: Node, s: Txt) -> bool { (exists|t: PT| #[trigger] shown(t, n, s)) || is_const(n) && !(cval(n) is R) }
/// the text refers to arguments of n only
pub open spec fn own_args(n: Node, s: Txt) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Sub ==> exists|k: int| 0 <= k < args(n).len() && args(n)[k] == s[i]->Sub_0 }
/// what was written
pub open spec fn app(a: Formatter, b: Formatter) -> Txt { b.t@.subrange(a.t@.len() as int, b.t@.len() as int) }
pub open spec fn appended(a: Formatter, b: Formatter) -> bool { b.t@.len() >= a.t@.len() && b.t@ =~= a.t@ + app(a, b) }
// ---------------------------------------------------------------- trees for what is written
/// an operand at position i of the text: tree and where it ends
pub open spec fn opn(s: Txt, i: int) -> Option<(PT, int)> decreases s.len() - i {
    if i < 0 || i >= s.len() { None } else { match s[i] {
        Piece::Sub(n) => Some((PT::Sub(n), i + 1)),
        Piece::T(c) => if c == 32 { match opn(s, i + 1) { Some((t, j)) => if j < s.len() && s[j] == Piece::T(33) { Some((PT::Par(Box::new(t)), j + 1)) } else { None }, None => None } } else { None },
        _ => None } } }
pub open spec fn inner(t: PT) -> Node decreases t { match t { PT::Sub(n) => n, PT::Par(a) => inner(*a), _ => arbitrary() } }
pub proof fn lem_opn(s: Txt, i: int)
    ensures match opn(s, i) { Some((t, j)) => i < j <= s.len() && wf(t) && yl(t) =~= s.subrange(i, j) && (t is Sub || t is Par)
        && (forall|m: IMap<Node, real>| #![trigger pk(t, m)] #![trigger tv(t, m)] pk(t, m) == ok(inner(t), m) && tv(t, m) == val(inner(t), m))
        && (forall|q: int| #![trigger s[q]] i <= q < j && s[q] is Sub ==> s[q]->Sub_0 == inner(t)), None => true }
    decreases s.len() - i,
{
    match opn(s, i) { Some((t, j)) => { match t { PT::Par(a) => { lem_opn(s, i + 1); assert(yl(t) =~= s.subrange(i, j));
        assert forall|m: IMap<Node, real>| #![trigger pk(t, m)] #![trigger tv(t, m)] pk(t, m) == ok(inner(t), m) && tv(t, m) == val(inner(t), m) by { assert(pk(*a, m) == ok(inner(t), m)); assert(tv(*a, m) == val(inner(t), m)); } }
        _ => { } } }, None => { } }
}
/// the operator piece op between two operands
pub open spec fn two(s: Txt, op: int, a: Node, la: int, b: Node, lb: int) -> bool {
    match opn(s, 0) { Some((ta, i)) => i < s.len() && s[i] == Piece::T(op) && inner(ta) == a && level(ta) >= la
        && match opn(s, i + 1) { Some((tb, j)) => j == s.len() && inner(tb) == b && level(tb) >= lb, None => false }, None => false } }
pub proof fn lem_bin(n: Node, s: Txt)
    ensures n is FunctionMul && two(s, 30, args(n)[0], 1, args(n)[1], 1) ==> shows(n, s) && own_args(n, s),
        n is FunctionDiv && two(s, 31, args(n)[0], 1, args(n)[1], 2) ==> shows(n, s) && own_args(n, s),
{
    let mul = n is FunctionMul && two(s, 30, args(n)[0], 1, args(n)[1], 1);
    let div = n is FunctionDiv && two(s, 31, args(n)[0], 1, args(n)[1], 2);
    if mul || div {
        let (ta, i) = opn(s, 0)->Some_0;
        let (tb, j) = opn(s, i + 1)->Some_0;
        lem_opn(s, 0); lem_opn(s, i + 1);
        let t = if mul { PT::Mul(Box::new(ta), Box::new(tb)) } else { PT::Div(Box::new(ta), Box::new(tb)) };
        assert(wf(t));
        assert(yl(t) =~= s);
        assert forall|m: IMap<Node, real>| #[trigger] ok(n, m) implies pk(t, m) && tv(t, m) == val(n, m) by {
            assert(pk(ta, m) == ok(inner(ta), m)); assert(pk(tb, m) == ok(inner(tb), m)); assert(tv(tb, m) == val(inner(tb), m)); }
        assert(shown(t, n, s));
        assert forall|q: int| #![trigger s[q]] 0 <= q < s.len() && s[q] is Sub implies exists|k: int| 0 <= k < args(n).len() && args(n)[k] == s[q]->Sub_0 by {
            if q < i { assert(args(n)[0] == s[q]->Sub_0); } else { assert(args(n)[1] == s[q]->Sub_0); } }
    }
}
/// a function name, an opened parenthesis, the argument and the closed parenthesis
pub proof fn lem_fun(n: Node, s: Txt)
    ensures (n is FunctionSin && s =~= seq![Piece::T(34), Piece::Sub(args(n)[0]), Piece::T(33)]) || (n is FunctionCos && s =~= seq![Piece::T(35), Piece::Sub(args(n)[0]), Piece::T(33)]) ==> shows(n, s) && own_args(n, s)
{
    if s.len() == 3 && s[1] == Piece::Sub(args(n)[0]) && s[2] == Piece::T(33) && (n is FunctionSin && s[0] == Piece::T(34) || n is FunctionCos && s[0] == Piece::T(35)) {
        let a = PT::Sub(args(n)[0]);
        let t = if n is FunctionSin { PT::Sin(Box::new(a)) } else { PT::Cos(Box::new(a)) };
        assert(wf(a)); assert(wf(t));
        assert(yl(a) =~= seq![s[1]]); assert(yl(t) =~= s);
        assert forall|m: IMap<Node, real>| #[trigger] ok(n, m) implies pk(t, m) && tv(t, m) == val(n, m) by { assert(pk(a, m)); assert(tv(a, m) == val(args(n)[0], m)); }
        assert(shown(t, n, s));
        assert(args(n)[0] == s[1]->Sub_0);
    }
}
pub proof fn lem_leaf(n: Node, s: Txt)
    ensures n is ConstantScalar && (!rconst(n) || s =~= seq![Piece::Num(rv(n->ConstantScalar_0.value))]) ==> shows(n, s),
        n is ConstantScalar && rconst(n) && s =~= seq![Piece::T(32), Piece::Num(rv(n->ConstantScalar_0.value)), Piece::T(33)] ==> shows(n, s),
        n is VariableScalar && s =~= word(n->VariableScalar_0.name@) ==> shows(n, s),
        s =~= seq![Piece::Sub(n)] ==> shows(n, s),
{
    if n is ConstantScalar && rconst(n) && s =~= seq![Piece::Num(rv(n->ConstantScalar_0.value))] { assert(shown(PT::Num(rv(n->ConstantScalar_0.value)), n, s)); }
    if n is ConstantScalar && rconst(n) && s =~= seq![Piece::T(32), Piece::Num(rv(n->ConstantScalar_0.value)), Piece::T(33)] {
        let a = PT::Num(rv(n->ConstantScalar_0.value)); let t = PT::Par(Box::new(a)); assert(yl(a) =~= seq![s[1]]);
        assert(wf(a)); assert(yl(t) =~= s);
        assert forall|m: IMap<Node, real>| #[trigger] ok(n, m) implies pk(t, m) && tv(t, m) == val(n, m) by { assert(pk(a, m)); assert(tv(a, m) == val(n, m)); }
        assert(shown(t, n, s)); }
    if n is VariableScalar && s =~= word(n->VariableScalar_0.name@) { assert(shown(PT::Name(n), n, s)); }
    if s =~= seq![Piece::Sub(n)] { assert(shown(PT::Sub(n), n, s)); }
}
/// the first k arguments of a sum joined by +
pub open spec fn sumtree(a: Seq<Node>, k: nat) -> PT decreases k { if k <= 1 { PT::Sub(a[0]) } else { PT::Add(Box::new(sumtree(a, (k - 1) as nat)), Box::new(PT::Sub(a[k - 1]))) } }
pub proof fn lem_sum(a: Seq<Node>, k: nat)
    requires 1 <= k <= a.len(),
    ensures wf(sumtree(a, k)), forall|m: IMap<Node, real>| #[trigger] ok_all(a, m, k) ==> pk(sumtree(a, k), m) && tv(sumtree(a, k), m) == val_sum(a, m, k),
        forall|i: int| #![trigger yl(sumtree(a, k))[i]] 0 <= i < yl(sumtree(a, k)).len() && yl(sumtree(a, k))[i] is Sub ==> exists|q: int| 0 <= q < a.len() && a[q] == yl(sumtree(a, k))[i]->Sub_0,
    decreases k,
{
    let t = sumtree(a, k);
    if k > 1 {
        let p = sumtree(a, (k - 1) as nat); let l = PT::Sub(a[k - 1]);
        lem_sum(a, (k - 1) as nat);
        assert(wf(l));
        assert forall|m: IMap<Node, real>| #[trigger] ok_all(a, m, k) implies pk(t, m) && tv(t, m) == val_sum(a, m, k) by { assert(ok_all(a, m, (k - 1) as nat)); assert(pk(l, m)); assert(tv(l, m) == val(a[k - 1], m)); }
        assert forall|i: int| #![trigger yl(t)[i]] 0 <= i < yl(t).len() && yl(t)[i] is Sub implies exists|q: int| 0 <= q < a.len() && a[q] == yl(t)[i]->Sub_0 by {
            assert(yl(t) == yl(p) + seq![Piece::T(10)] + yl(l)); assert(yl(l) =~= seq![Piece::Sub(a[k - 1])]);
            if i < yl(p).len() { assert(yl(t)[i] == yl(p)[i]); } else if i == yl(p).len() { assert(yl(t)[i] == Piece::T(10)); } else { assert(yl(t)[i] == Piece::Sub(a[k - 1])); } }
    } else {
        assert(yl(t) =~= seq![Piece::Sub(a[0])]);
        assert forall|m: IMap<Node, real>| #[trigger] ok_all(a, m, k) implies pk(t, m) && tv(t, m) == val_sum(a, m, k) by { assert(ok_all(a, m, 0)); assert(val_sum(a, m, 0) == 0real); }
    }
}
pub proof fn lem_sum_next(a: Seq<Node>, k: nat)
    requires k < a.len(),
    ensures yl(sumtree(a, k + 1)) =~= if k == 0 { seq![Piece::Sub(a[0])] } else { yl(sumtree(a, k)) + seq![Piece::T(10)] + seq![Piece::Sub(a[k as int])] },
{
    if k > 0 { assert(sumtree(a, k + 1) == PT::Add(Box::new(sumtree(a, k)), Box::new(PT::Sub(a[k as int])))); assert(yl(PT::Sub(a[k as int])) =~= seq![Piece::Sub(a[k as int])]); }
}
pub proof fn lem_add(n: Node, s: Txt)
    ensures n is FunctionAdd && args(n).len() >= 1 && s =~= yl(sumtree(args(n), args(n).len())) ==> shows(n, s) && own_args(n, s)
{
    if n is FunctionAdd && args(n).len() >= 1 && s =~= yl(sumtree(args(n), args(n).len())) {
        let t = sumtree(args(n), args(n).len());
        lem_sum(args(n), args(n).len());
        assert forall|m: IMap<Node, real>| #[trigger] ok(n, m) implies pk(t, m) && tv(t, m) == val(n, m) by { assert(ok_all(args(n), m, args(n).len())); }
        assert(shown(t, n, s));
    }
}
/// the text has the form expected for its kind of expression
pub open spec fn fits(n: Node, s: Txt) -> bool { match n {
    Node::ConstantScalar(c) => !rconst(n) || s =~= seq![Piece::Num(rv(c.value))] || s =~= seq![Piece::T(32), Piece::Num(rv(c.value)), Piece::T(33)],
    Node::VariableScalar(v) => s =~= word(v.name@),
    Node::FunctionAdd(_) => args(n).len() >= 1 && s =~= yl(sumtree(args(n), args(n).len())),
    Node::FunctionMul(_) => two(s, 30, args(n)[0], 1, args(n)[1], 1),
    Node::FunctionDiv(_) => two(s, 31, args(n)[0], 1, args(n)[1], 2),
    Node::FunctionSin(_) => s =~= seq![Piece::T(34), Piece::Sub(args(n)[0]), Piece::T(33)],
    Node::FunctionCos(_) => s =~= seq![Piece::T(35), Piece::Sub(args(n)[0]), Piece::T(33)] } }
pub proof fn lem_show(n: Node)
    ensures forall|s: Txt| #![trigger shows(n, s)] #![trigger own_args(n, s)] fits(n, s) ==> shows(n, s) && (n is ConstantScalar || own_args(n, s)),
        forall|s: Txt| #[trigger] shows(n, s) <== s =~= seq![Piece::Sub(n)],
        forall|a: Txt, b: Txt| #[trigger] (a + b).subrange(a.len() as int, (a + b).len() as int) == b,
{
    assert forall|s: Txt| #![trigger shows(n, s)] #![trigger own_args(n, s)] fits(n, s) implies shows(n, s) && (n is ConstantScalar || own_args(n, s)) by { lem_leaf(n, s); lem_bin(n, s); lem_fun(n, s); lem_add(n, s); }
    assert forall|s: Txt| s =~= seq![Piece::Sub(n)] implies #[trigger] shows(n, s) by { lem_leaf(n, s); }
    assert forall|a: Txt, b: Txt| #[trigger] (a + b).subrange(a.len() as int, (a + b).len() as int) == b by { assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b); }
}
// ---------------------------------------------------------------- regrouping to the left
pub open spec fn mul_left(a: PT, t: PT) -> PT decreases t { match t { PT::Mul(b, c) => PT::Mul(Box::new(mul_left(a, *b)), c), PT::Div(b, c) => PT::Div(Box::new(mul_left(a, *b)), c), _ => PT::Mul(Box::new(a), Box::new(t)) } }
pub open spec fn add_left(a: PT, t: PT) -> PT decreases t { match t { PT::Add(b, c) => PT::Add(Box::new(add_left(a, *b)), c), _ => PT::Add(Box::new(a), Box::new(t)) } }
pub proof fn lem_regroup(x: real, y: real, z: real) ensures (x * y) * z == x * (y * z), z != 0real ==> (x * y) / z == x * (y / z)
{
    assert((x * y) * z == x * (y * z)) by (nonlinear_arith);
    if z != 0real { assert((x * y) / z == x * (y / z)) by (nonlinear_arith) requires z != 0real; }
}
pub proof fn lem_mul_left(a: PT, t: PT, m: IMap<Node, real>)
    requires strict(a), strict(t), level(a) >= 1, level(t) >= 1,
    ensures strict(mul_left(a, t)), level(mul_left(a, t)) == 1, yl(mul_left(a, t)) =~= yl(a) + seq![Piece::T(30)] + yl(t),
        pk(a, m) && pk(t, m) ==> pk(mul_left(a, t), m) && tv(mul_left(a, t), m) == tv(a, m) * tv(t, m),
    decreases t,
{
    match t { PT::Mul(b, c) => { lem_mul_left(a, *b, m); lem_regroup(tv(a, m), tv(*b, m), tv(*c, m)); }, PT::Div(b, c) => { lem_mul_left(a, *b, m); lem_regroup(tv(a, m), tv(*b, m), tv(*c, m)); }, _ => { } }
}
pub proof fn lem_add_left(a: PT, t: PT, m: IMap<Node, real>)
    requires strict(a), strict(t),
    ensures strict(add_left(a, t)), level(add_left(a, t)) == 0, yl(add_left(a, t)) =~= yl(a) + seq![Piece::T(10)] + yl(t),
        pk(a, m) && pk(t, m) ==> pk(add_left(a, t), m) && tv(add_left(a, t), m) == tv(a, m) + tv(t, m),
    decreases t,
{
    match t { PT::Add(b, c) => { lem_add_left(a, *b, m); }, _ => { } }
}
/// the tree as the usual grammar reads it
pub open spec fn norm(t: PT) -> PT decreases t { match t {
    PT::Par(a) => PT::Par(Box::new(norm(*a))), PT::Sin(a) => PT::Sin(Box::new(norm(*a))), PT::Cos(a) => PT::Cos(Box::new(norm(*a))),
    PT::Mul(a, b) => mul_left(norm(*a), norm(*b)), PT::Div(a, b) => PT::Div(Box::new(norm(*a)), Box::new(norm(*b))), PT::Add(a, b) => add_left(norm(*a), norm(*b)), _ => t } }
pub open spec fn full(t: PT) -> bool decreases t { match t { PT::Sub(_) => false, PT::Par(a) => full(*a), PT::Sin(a) => full(*a), PT::Cos(a) => full(*a), PT::Mul(a, b) => full(*a) && full(*b), PT::Div(a, b) => full(*a) && full(*b), PT::Add(a, b) => full(*a) && full(*b), _ => true } }
/// a complete text with a tree has a tree of the usual grammar with the same text and value
pub proof fn lem_left(t: PT, m: IMap<Node, real>)
    requires wf(t), full(t),
    ensures strict(norm(t)), level(norm(t)) == level(t), yl(norm(t)) =~= yl(t), pk(t, m) ==> pk(norm(t), m) && tv(norm(t), m) == tv(t, m),
    decreases t,
{
    match t {
        PT::Par(a) => { lem_left(*a, m); } PT::Sin(a) => { lem_left(*a, m); } PT::Cos(a) => { lem_left(*a, m); }
        PT::Mul(a, b) => { lem_left(*a, m); lem_left(*b, m); lem_mul_left(norm(*a), norm(*b), m); }
        PT::Div(a, b) => { lem_left(*a, m); lem_left(*b, m); }
        PT::Add(a, b) => { lem_left(*a, m); lem_left(*b, m); lem_add_left(norm(*a), norm(*b), m); }
        _ => { }
    }
}
} // verus!
verus! {
// ---------------------------------------------------------------- constraints
pub open spec fn rel_tok(k: ConstraintKind) -> int { match k { ConstraintKind::Equal => 36, ConstraintKind::LessEqual => 37, ConstraintKind::GreaterEqual => 38 } }
pub open spec fn cshows(c: Constraint, s: Txt) -> bool { two(s, rel_tok(c_kind(c)), c_lhs(c), 0, c_rhs(c), 0) }
pub proof fn lem_sub()
    ensures forall|a: Txt, b: Txt| #[trigger] (a + b).subrange(a.len() as int, (a + b).len() as int) == b,
{
    assert forall|a: Txt, b: Txt| #[trigger] (a + b).subrange(a.len() as int, (a + b).len() as int) == b by { assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b); }
}
} // verus!
verus! {
// ---------------------------------------------------------------- the whole text
/// the text with every smaller expression written out, g(n) being a reading of n
pub open spec fn flat(s: Txt, g: spec_fn(Node) -> PT) -> Txt decreases s.len() { if s.len() == 0 { s } else { flat(s.drop_last(), g) + (match s.last() { Piece::Sub(n) => yl(g(n)), _ => seq![s.last()] }) } }
pub open spec fn subst(t: PT, g: spec_fn(Node) -> PT) -> PT decreases t { match t {
    PT::Sub(n) => g(n), PT::Par(a) => PT::Par(Box::new(subst(*a, g))), PT::Sin(a) => PT::Sin(Box::new(subst(*a, g))), PT::Cos(a) => PT::Cos(Box::new(subst(*a, g))),
    PT::Mul(a, b) => PT::Mul(Box::new(subst(*a, g)), Box::new(subst(*b, g))), PT::Div(a, b) => PT::Div(Box::new(subst(*a, g)), Box::new(subst(*b, g))),
    PT::Add(a, b) => PT::Add(Box::new(subst(*a, g)), Box::new(subst(*b, g))), _ => t } }
pub open spec fn reads(g: spec_fn(Node) -> PT, n: Node) -> bool { wf(g(n)) && full(g(n)) && level(g(n)) >= lev(n) && read(g(n), n) }
pub open spec fn reads_in(s: Txt, g: spec_fn(Node) -> PT) -> bool { forall|i: int| 0 <= i < s.len() && #[trigger] s[i] is Sub ==> reads(g, s[i]->Sub_0) }
pub proof fn lem_flat_cat(a: Txt, b: Txt, g: spec_fn(Node) -> PT)
    ensures flat(a + b, g) =~= flat(a, g) + flat(b, g)
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lem_flat_cat(a, b.drop_last(), g); }
}
pub proof fn lem_flat_one(p: Piece, g: spec_fn(Node) -> PT)
    ensures flat(seq![p], g) =~= (match p { Piece::Sub(n) => yl(g(n)), _ => seq![p] })
{ assert(seq![p].drop_last() =~= Txt::empty()); assert(flat(Txt::empty(), g) =~= Txt::empty()); }
pub proof fn lem_flat_word(w: Seq<char>, g: spec_fn(Node) -> PT)
    ensures flat(word(w), g) =~= word(w)
{
    let s = word(w); lem_word(w);
    assert(flat(Txt::empty(), g) =~= Txt::empty());
    if s.len() == 1 { assert(s =~= seq![s[0]]); lem_flat_one(s[0], g); } else if s.len() == 2 { assert(s =~= seq![s[0]] + seq![s[1]]); lem_flat_cat(seq![s[0]], seq![s[1]], g); lem_flat_one(s[0], g); lem_flat_one(s[1], g); } else { assert(s =~= Txt::empty()); }
}
pub proof fn lem_reads_cat(a: Txt, b: Txt, g: spec_fn(Node) -> PT)
    requires reads_in(a + b, g),
    ensures reads_in(a, g), reads_in(b, g),
{
    assert forall|i: int| 0 <= i < a.len() && #[trigger] a[i] is Sub implies reads(g, a[i]->Sub_0) by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() && #[trigger] b[i] is Sub implies reads(g, b[i]->Sub_0) by { assert((a + b)[a.len() + i] == b[i]); }
}
pub proof fn lem_wrap(c: int, a: Txt, g: spec_fn(Node) -> PT)
    requires reads_in(seq![Piece::T(c)] + a + seq![Piece::T(33)], g),
    ensures reads_in(a, g), flat(seq![Piece::T(c)] + a + seq![Piece::T(33)], g) =~= seq![Piece::T(c)] + flat(a, g) + seq![Piece::T(33)],
{
    lem_reads_cat(seq![Piece::T(c)] + a, seq![Piece::T(33)], g); lem_reads_cat(seq![Piece::T(c)], a, g);
    lem_flat_cat(seq![Piece::T(c)] + a, seq![Piece::T(33)], g); lem_flat_cat(seq![Piece::T(c)], a, g); lem_flat_one(Piece::T(c), g); lem_flat_one(Piece::T(33), g);
}
pub proof fn lem_join(a: Txt, c: int, b: Txt, g: spec_fn(Node) -> PT)
    requires reads_in(a + seq![Piece::T(c)] + b, g),
    ensures reads_in(a, g), reads_in(b, g), flat(a + seq![Piece::T(c)] + b, g) =~= flat(a, g) + seq![Piece::T(c)] + flat(b, g),
{
    lem_reads_cat(a + seq![Piece::T(c)], b, g); lem_reads_cat(a, seq![Piece::T(c)], g);
    lem_flat_cat(a + seq![Piece::T(c)], b, g); lem_flat_cat(a, seq![Piece::T(c)], g); lem_flat_one(Piece::T(c), g);
}
pub proof fn lem_subst(t: PT, g: spec_fn(Node) -> PT)
    requires wf(t), reads_in(yl(t), g),
    ensures wf(subst(t, g)), full(subst(t, g)), level(subst(t, g)) >= level(t), yl(subst(t, g)) =~= flat(yl(t), g),
        forall|m: IMap<Node, real>| #[trigger] pk(t, m) ==> pk(subst(t, g), m) && tv(subst(t, g), m) == tv(t, m),
    decreases t,
{
    match t {
        PT::Sub(n) => { lem_flat_one(Piece::Sub(n), g); assert(yl(t)[0] is Sub);
            assert forall|m: IMap<Node, real>| #[trigger] pk(t, m) implies pk(subst(t, g), m) && tv(subst(t, g), m) == tv(t, m) by { assert(ok(n, m)); } }
        PT::Num(x) => { lem_flat_one(Piece::Num(x), g); }
        PT::Name(v) => { lem_flat_word(v->VariableScalar_0.name@, g); }
        PT::Par(a) => { lem_wrap(32, yl(*a), g); lem_subst(*a, g);
            assert forall|m: IMap<Node, real>| #[trigger] pk(t, m) implies pk(subst(t, g), m) && tv(subst(t, g), m) == tv(t, m) by { assert(pk(*a, m)); } }
        PT::Sin(a) => { lem_wrap(34, yl(*a), g); lem_subst(*a, g);
            assert forall|m: IMap<Node, real>| #[trigger] pk(t, m) implies pk(subst(t, g), m) && tv(subst(t, g), m) == tv(t, m) by { assert(pk(*a, m)); } }
        PT::Cos(a) => { lem_wrap(35, yl(*a), g); lem_subst(*a, g);
            assert forall|m: IMap<Node, real>| #[trigger] pk(t, m) implies pk(subst(t, g), m) && tv(subst(t, g), m) == tv(t, m) by { assert(pk(*a, m)); } }
        PT::Mul(a, b) => { lem_join(yl(*a), 30, yl(*b), g); lem_subst(*a, g); lem_subst(*b, g);
            assert forall|m: IMap<Node, real>| #[trigger] pk(t, m) implies pk(subst(t, g), m) && tv(subst(t, g), m) == tv(t, m) by { assert(pk(*a, m)); assert(pk(*b, m)); } }
        PT::Div(a, b) => { lem_join(yl(*a), 31, yl(*b), g); lem_subst(*a, g); lem_subst(*b, g);
            assert forall|m: IMap<Node, real>| #[trigger] pk(t, m) implies pk(subst(t, g), m) && tv(subst(t, g), m) == tv(t, m) by { assert(pk(*a, m)); assert(pk(*b, m)); } }
        PT::Add(a, b) => { lem_join(yl(*a), 10, yl(*b), g); lem_subst(*a, g); lem_subst(*b, g);
            assert forall|m: IMap<Node, real>| #[trigger] pk(t, m) implies pk(subst(t, g), m) && tv(subst(t, g), m) == tv(t, m) by { assert(pk(*a, m)); assert(pk(*b, m)); } }
    }
}
/// the induction step over the depth of an expression: with readings of its arguments, what
/// the contracts establish for the expression is a reading of its whole text, and regrouping
/// it to the left (lem_left) makes it one by the usual grammar
pub proof fn lem_step(t: PT, n: Node, s: Txt, g: spec_fn(Node) -> PT)
    requires shown(t, n, s), own_args(n, s), forall|k: int| 0 <= k < args(n).len() ==> reads(g, #[trigger] args(n)[k]),
    ensures shown(subst(t, g), n, flat(s, g)), full(subst(t, g)), strict(norm(subst(t, g))), yl(norm(subst(t, g))) =~= flat(s, g), read(norm(subst(t, g)), n),
{
    assert(s == yl(t));
    assert forall|i: int| 0 <= i < s.len() && #[trigger] s[i] is Sub implies reads(g, s[i]->Sub_0) by {
        let k = choose|k: int| 0 <= k < args(n).len() && args(n)[k] == s[i]->Sub_0; assert(reads(g, args(n)[k])); }
    lem_subst(t, g);
    let u = subst(t, g);
    assert forall|m: IMap<Node, real>| #[trigger] ok(n, m) implies pk(u, m) && tv(u, m) == val(n, m) by { assert(pk(t, m)); }
    assert forall|m: IMap<Node, real>| #[trigger] ok(n, m) implies pk(norm(u), m) && tv(norm(u), m) == val(n, m) by { assert(pk(u, m)); lem_left(u, m); }
    lem_left(u, IMap::empty());
}
} // verus!
