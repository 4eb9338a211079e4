verus! {
// ================================================================ printed models
// tokens: 50 end of line  51 minimize  52 maximize  53 find  54 point  55 subject  56 to  57 :
pub open spec fn nl() -> Txt { seq![Piece::T(50)] }
pub open spec fn goal_text(o: Objective) -> Txt { match o {
    Objective::Minimize(_) => nl() + seq![Piece::T(51)] + nl(), Objective::Maximize(_) => nl() + seq![Piece::T(52)] + nl(), Objective::Empty => nl() + seq![Piece::T(53), Piece::T(54)] + nl() } }
pub open spec fn obj_text(o: Objective) -> Txt { match o {
    Objective::Minimize(x) => seq![Piece::Sub(x)] + nl(), Objective::Maximize(x) => seq![Piece::Sub(x)] + nl(), Objective::Empty => nl() } }
/// the constraint, and its label when it has one
pub open spec fn con_text(c: Constraint) -> Txt { if c_label(c).len() == 0 { seq![Piece::Con(c)] + nl() } else { seq![Piece::Con(c), Piece::T(57)] + word(c_label(c)) + nl() } }
/// the first k constraints, in order, each on a line of its own
pub open spec fn cons_text(s: Seq<Constraint>, k: nat) -> Txt decreases k { if k == 0 || k > s.len() { Txt::empty() } else { cons_text(s, (k - 1) as nat) + con_text(s[k - 1]) } }
pub open spec fn model_text(o: Objective, s: Seq<Constraint>) -> Txt {
    goal_text(o) + obj_text(o) + (if s.len() == 0 { Txt::empty() } else { nl() + seq![Piece::T(55), Piece::T(56)] + nl() + cons_text(s, s.len()) }) }
}
