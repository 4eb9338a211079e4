== config text 50 \n
== config text 51 minimize
== config text 52 maximize
== config text 53 find
== config text 54 point
== config text 55 subject
== config text 56 to
== config text 57 :
== fn Model::fmt
ret r
loops 1
    ensures match r { Ok(_) => final(f).t@ =~= old(f).t@ + model_text(self.objective, self.constraints@), Err(_) => final(f).failed@ },
== at begin
    proof { lem_words(); reveal_strlit(""); }
== loop 0
    invariant ""@.len() == 0, __s0@ == self.constraints@, __len0 == __s0@.len(), __len0 > 0, f.t@ =~= old(f).t@ + goal_text(self.objective) + obj_text(self.objective) + nl() + seq![Piece::T(55), Piece::T(56)] + nl() + cons_text(self.constraints@, __i0 as nat),
== at loop 0 begin
    proof { let l = c_label(self.constraints@[__i0 as int]); if l.len() == 0 { assert(l =~= ""@); } assert(cons_text(self.constraints@, __i0 as nat + 1) == cons_text(self.constraints@, __i0 as nat) + con_text(self.constraints@[__i0 as int])); }
