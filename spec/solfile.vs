== config strings
== config method split_ascii_whitespace .rt_words
== config method split_whitespace .rt_words
== config method split .rt_split
== config method parse .rt_parse
== config method to_string .rt_to_string
== config method to_owned .rt_to_string
== config method starts_with .rt_starts_with
== config method contains .rt_contains
== config path io::Error::new IoError::make
== config path io::ErrorKind::Other IoErrorKind::Other
== fn ProblemSol::new
ret r
    ensures sol_zero(sol_of(r), nx as int, na as int), all_zero(r.nu@, nf as int),
== config world open read_sol_file
== fn SolverCbcCmd::read_sol_file
ret r
loops 1
    ensures *final(__w) == *old(__w), sol_file_post(file_lines(old(__w).fs@, fname@), io_fault(fname@), p.c@.len() as int, p.base.b@.len() as int, cbc, r),
== at begin
    broadcast use words_empty;
    proof { reveal_strlit("x"); reveal_strlit("c"); reveal_strlit("Optimal"); reveal_strlit("optimal"); reveal_strlit("Infeasible"); reveal_strlit("infeasible"); reveal_strlit(""); }
== at after let solution
    let ghost gz = sol_of(solution);
== at after let r
    let ghost gl = r.ls@;
== loop 0 next
    invariant *__w == *old(__w), __n0.r.ok(), __n0.r.ls@ == gl, file_lines(__w.fs@, fname@) == Some(gl), __n0.r.name@ == fname@, status == status_of(first_line(gl), cbc), status is Solved,
        sol_zero(gz, p.c@.len() as int, p.base.b@.len() as int), sol_sized(solution, p.c@.len() as int, p.base.b@.len() as int),
        head(gl, cbc) <= __n0.r.pos@, fold(gl, head(gl, cbc), __n0.r.pos@, gz) == Some(sol_of(solution)),
    ensures __n0.r.pos@ == gl.len(),
    decreases gl.len() - __n0.r.pos@,
== at loop 0 begin
    let ghost gpos = __n0.r.pos@;
    let ghost gs = sol_of(solution);
    proof {
        reveal_strlit("x"); reveal_strlit("c");
        if fold(gl, head(gl, cbc), gpos, gz) is None { lem_fold_none(gl, head(gl, cbc), gpos, gl.len() as int, gz); }
    }
== at loop 0 end
    proof { assert(entry_of(gl[gpos - 1]) is Some); assert(sol_of(solution) =~= enter(gs, entry_of(gl[gpos - 1]).unwrap()).unwrap()); }
