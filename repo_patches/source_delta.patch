From 059bfbb51fef8b3fdd4d28cf20aac4169a3c2685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 01/13] fix: adding terms whose constants cancel no longer
 panics

---
 src/model/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model/node.rs b/src/model/node.rs
index 01d0a99..1e14f17 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -172,6 +172,9 @@ macro_rules! impl_node_add_node {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args[0].clone();
+                    }
                     FunctionAdd::new(args)
                 }
             }        
@@ -214,6 +217,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args[0].clone();
+                    }
                     FunctionAdd::new(args)
                 }
             }           
@@ -251,6 +257,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args[0].clone();
+                    }
                     FunctionAdd::new(args)
                 }
             }           
-- 
2.43.0


From 01a8cdd4e4f93697364781ebb1f961961686c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 02/13] fix: derivative of an expression divided by itself

---
 src/model/function/div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 691c445..8bc1257 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -33,7 +33,10 @@ impl NodeBase for FunctionDiv {
     }
 
     fn partial(&self, arg: &Node) -> Node { 
-        if self.args.0 == *arg {
+        if self.args.0 == *arg && self.args.1 == *arg {
+            return ConstantScalar::new(0.);
+        }
+        else if self.args.0 == *arg {
             return 1./&self.args.1;
         }
         else if self.args.1 == *arg {
-- 
2.43.0


From 67174816f3abd7cadf7abdf62731e9e97252f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 03/13] fix: products and quotients with nonaffine constant
 factors are not affine

---
 src/model/function/div.rs | 2 +-
 src/model/function/mul.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 8bc1257..6345b7b 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -58,7 +58,7 @@ impl NodeStd for FunctionDiv {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = p0.affine && p1.a.is_empty();
+        let affine = p0.affine && p1.affine && p1.a.is_empty();
         let b = p0.b/p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
diff --git a/src/model/function/mul.rs b/src/model/function/mul.rs
index 29d4c37..3199ca3 100644
--- a/src/model/function/mul.rs
+++ b/src/model/function/mul.rs
@@ -55,8 +55,8 @@ impl NodeStd for FunctionMul {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = (p0.affine && p1.a.is_empty()) || 
-                     (p1.affine && p0.a.is_empty());
+        let affine = p0.affine && p1.affine && 
+                     (p0.a.is_empty() || p1.a.is_empty());
         let b = p0.b*p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
-- 
2.43.0


From 7cfe4dbeca5ad01c5b869f7e1a36a20ed25929ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 04/13] fix: Ipopt Hessian callback combines constraint
 Hessians at every request

---
 src/solver/ipopt.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 328ee71..e536819 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -298,7 +298,7 @@ extern fn eval_h_cb(n: c_int,
                     obj_factor: c_double, 
                     m: c_int,
                     lambda: *const c_double,
-                    new_lambda: c_int,
+                    _new_lambda: c_int,
                     nele_hess: c_int,
                     irow: *mut c_int,
                     jcol: *mut c_int,
@@ -344,23 +344,21 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if new_lambda == cipopt::TRUE {
+            if p.nf() > 0 {
                 if lambda.is_null() {
                     return cipopt::FALSE;
                 }
                 p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
             }
-            if new_x == cipopt::TRUE || new_lambda == cipopt::TRUE {
-                let mut k: usize = 0;
-                for (_row, _col, val) in p.hphi().iter() {
-                    *values.add(k) = obj_factor*(*val); 
-                    k += 1;
-                }
-                for (_row, _col, val) in p.hcomb().iter() {
-                    *values.add(k) = *val; 
-                    k += 1;
-                }
-            }   
+            let mut k: usize = 0;
+            for (_row, _col, val) in p.hphi().iter() {
+                *values.add(k) = obj_factor*(*val); 
+                k += 1;
+            }
+            for (_row, _col, val) in p.hcomb().iter() {
+                *values.add(k) = *val; 
+                k += 1;
+            }
         }
     };
     cipopt::TRUE
-- 
2.43.0


From 70b80c77b58a5e49f8a8a6804062915134b2a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 05/13] fix: solution file with out-of-range index is an error
 and not a panic

---
 src/solver/cbc_cmd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9f7d8f8..81efa60 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -123,6 +123,9 @@ impl SolverCbcCmd {
 
             // Variable
              if dtype == "x" {
+                if index >= solution.x.len() {
+                    return Err(e);
+                }
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -134,6 +137,9 @@ impl SolverCbcCmd {
 
             // Constraint
             else if dtype == "c" {
+                if index >= solution.lam.len() {
+                    return Err(e);
+                }
                 solution.lam[index] = mul;
             }
             else {
-- 
2.43.0


From 646c4d004643f01df4c13f52f8739d40eca6d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 06/13] fix: report infeasible status for integer-infeasible
 Cbc solution files

---
 src/solver/cbc_cmd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 81efa60..0fdeeb4 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -78,6 +78,9 @@ impl SolverCbcCmd {
                 else if cbc && s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
+                else if cbc && line.starts_with("Integer infeasible") {
+                    status = SolverStatus::Infeasible;
+                }
             },
             None => {
                 status = SolverStatus::Error;
-- 
2.43.0


From 01260e94d39bb3f78f08cbd2a0da1520091f420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 07/13] fix: read solution files of newer versions of Clp

---
 src/solver/cbc_cmd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 0fdeeb4..ae09018 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -66,10 +66,10 @@ impl SolverCbcCmd {
         r.read_line(&mut line)?;
         match line.split_ascii_whitespace().next() {
             Some(s) => {
-                if !cbc && s == "optimal" {
+                if !cbc && (s == "optimal" || s == "Optimal") {
                     status = SolverStatus::Solved;
                 }
-                else if !cbc && s == "infeasible" {
+                else if !cbc && (s == "infeasible" || s == "Infeasible") {
                     status = SolverStatus::Infeasible;
                 }
                 else if cbc && s == "Optimal" {
@@ -92,8 +92,8 @@ impl SolverCbcCmd {
             return Ok((status, solution))
         }
 
-        // Objective value
-        if !cbc {
+        // Objective value (in status line for newer versions of Clp)
+        if !cbc && !line.contains("objective value") {
             r.read_line(&mut line)?;
         }
 
-- 
2.43.0


From b25ef83b1038d2aa55dfc5f4a1781bb40dda1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 08/13] fix: skip infeasibility flags in rows of solution files

---
 src/solver/cbc_cmd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index ae09018..ceb2d13 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -101,7 +101,9 @@ impl SolverCbcCmd {
         for l in r.lines() {
             line = l?;
             let mut iter = line.split_ascii_whitespace();
-            iter.next();
+            if iter.next() == Some("**") { // infeasibility flag
+                iter.next();
+            }
             name = match iter.next() {
                 Some(s) => s.to_string(),
                 None => return Err(e)
-- 
2.43.0


From 03105872f0c0acea5c6bc3bc54b29a4a8be567d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 09/13] fix: no input file left behind when solver parameter is
 not available

---
 src/solver/cbc_cmd.rs | 12 ++++++------
 src/solver/clp_cmd.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index ceb2d13..ca5d173 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -190,6 +190,12 @@ impl Solver for SolverCbcCmd {
             Err(_e) => return Err(SimpleError::new("failed to create output filename")),
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Write input file
         match p.write_to_lp_file(&input_filename) {
             Ok(()) => (),
@@ -200,12 +206,6 @@ impl Solver for SolverCbcCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Cbc command
         match Command::new("cbc")
                       .args(&[&input_filename,
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 0d4b58e..c16f5db 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -72,6 +72,12 @@ impl Solver for SolverClpCmd {
             Err(_e) => return Err(SimpleError::new("failed to create output filename")),
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Write input file
         match p.as_mut_milp().write_to_lp_file(&input_filename) {
             Ok(()) => (),
@@ -82,12 +88,6 @@ impl Solver for SolverClpCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Clp command
         match Command::new("clp")
                       .stdout(if *log_level == 0 { Stdio::null() } else { Stdio::inherit() })
-- 
2.43.0


From a607eeb34c5dcf86d6537679a6d242c0de1fc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 10/13] fix: release Ipopt problem when options cannot be set

---
 src/solver/ipopt.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index e536819..df9b064 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -91,16 +91,28 @@ impl Solver for SolverIpopt {
         // Parameter print_level
         let print_level: &i32 = match self.get_param("print_level") {
             Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+            _ => {
+                unsafe { cipopt::FreeIpoptProblem(cprob) };
+                return Err(SimpleError::new("unable to get parameter print_level"))
+            }
         };
-        unsafe { add_int_option(cprob, "print_level", *print_level)? };
+        if let Err(e) = unsafe { add_int_option(cprob, "print_level", *print_level) } {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
 
         // Parameter sb
         let sb: &str = match self.get_param("sb") {
             Some(SolverParam::StrParam(s)) => s.as_ref(),
-            _ => return Err(SimpleError::new("unable to get parameter sb"))
+            _ => {
+                unsafe { cipopt::FreeIpoptProblem(cprob) };
+                return Err(SimpleError::new("unable to get parameter sb"))
+            }
         };
-        unsafe { add_str_option(cprob, "sb", sb)? };
+        if let Err(e) = unsafe { add_str_option(cprob, "sb", sb) } {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
         
         // Buffers
         let mut x: Vec<f64> = vec![0.;p.nx()];
-- 
2.43.0


From ebc1d920037fa0d6c8f005dafbe758fa80fe1502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 11/13] fix: place nonlinear Jacobian rows after linear rows in
 Ipopt structure

---
 src/solver/ipopt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index df9b064..92d01e2 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -278,7 +278,7 @@ extern fn eval_jac_g_cb(n: c_int,
                 k += 1;
             }
             for (row, col, _val) in p.j().iter() {
-                *irow.add(k) = row.to_i32().unwrap();
+                *irow.add(k) = (p.na() + *row).to_i32().unwrap();
                 *jcol.add(k) = col.to_i32().unwrap();
                 k += 1;
             }
-- 
2.43.0


From cfeca2cc697cd8763ef85b4f5cbc8ae272ea67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:46 +0000
Subject: [PATCH 12/13] fix: report an option text that cannot be passed to
 Ipopt instead of panicking

---
 src/solver/ipopt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 92d01e2..828ae59 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -394,7 +394,10 @@ unsafe fn add_str_option(cprob: cipopt::IpoptProblem,
                          val: &str) 
                          -> Result<(), SimpleError> {
     let ckey = CString::new(key).unwrap();
-    let cval = CString::new(val).unwrap();
+    let cval = match CString::new(val) {
+        Ok(c) => c,
+        Err(_e) => return Err(SimpleError::new(format!("unable to set parameter {}", key)))
+    };
     match cipopt::AddIpoptStrOption(cprob, 
                                     ckey.as_ptr() as *const c_char, 
                                     cval.as_ptr() as *const c_char) {
-- 
2.43.0


From 36a8059db447409d5d824ebd5cb1d5c6eaadb1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:52 +0000
Subject: [PATCH 13/13] fix: Display of a sum reports a failing writer instead
 of panicking

---
 src/model/function/add.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/function/add.rs b/src/model/function/add.rs
index 3c063bb..529da42 100644
--- a/src/model/function/add.rs
+++ b/src/model/function/add.rs
@@ -81,10 +81,10 @@ impl<'a> fmt::Display for FunctionAdd {
         let n = self.args.len();
         for i in 0..n {
             if i < n-1 {
-                write!(f, "{} + ", self.args[i]).unwrap();
+                write!(f, "{} + ", self.args[i])?;
             }
             else {
-                write!(f, "{}", self.args[i]).unwrap();
+                write!(f, "{}", self.args[i])?;
             }
         };
         Ok(())
-- 
2.43.0

