From 02f2ee4d27f4f77efec499820560565b8e149e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 01/28] fix: QJ offdiag uses 1-based combination indices for
 In[]

---
 c++/symmetry/sym-QJ-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/symmetry/sym-QJ-impl.hpp b/c++/symmetry/sym-QJ-impl.hpp
index e1ee0f7..b494f74 100644
--- a/c++/symmetry/sym-QJ-impl.hpp
+++ b/c++/symmetry/sym-QJ-impl.hpp
@@ -87,8 +87,8 @@ class SymmetryQJ : public Symmetry<SC> {
                             const InvarVec &In, const Opch<SC> &opch) const
    {
      const Invar Iop     = ch == 0 ? Invar(1, 2) : Invar(1, 4);
-     const Invar I1      = In[i];
-     const Invar I2      = In[j];
+     const Invar I1      = In[i - 1]; // i and j are 1-based here
+     const Invar I2      = In[j - 1];
      const bool triangle = triangle_inequality(I1, I2, Iop); // I1 = I2+Iop
      if (triangle) { offdiag_function(step, i, j, ch, fnr, factor, h, qq, In, opch); }
    }
-- 
2.43.0


From e8018dd6f8275f79740fdfbcf794327a783d0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 02/28] fix: SPSU2T hopping terms between uncoupled blocks
 (T=1, T=2) are zero, not errors

---
 c++/symmetry/sym-SPSU2T-impl.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/c++/symmetry/sym-SPSU2T-impl.hpp b/c++/symmetry/sym-SPSU2T-impl.hpp
index 2afe6a1..e443bc3 100644
--- a/c++/symmetry/sym-SPSU2T-impl.hpp
+++ b/c++/symmetry/sym-SPSU2T-impl.hpp
@@ -93,24 +93,17 @@ bool spsu2t_exception(const unsigned int i, const unsigned int j, const Invar &I
   int T = I.get("T");
   if (i == 46 && j == 21 && T == 1) return true;
   if (i == 55 && j == 27 && T == 1) return true;
+  if (i == 5 && j == 33 && T == 2) return true;
   if (i == 5 && j == 38 && T == 2) return true;
+  if (i == 33 && j == 10 && T == 2) return true;
+  if (i == 38 && j == 10 && T == 2) return true;
 
   return false;
 }
 
-#define offdiag_spsu2t(i, j, ch, fnr, factor0, h, qq, In, I, opch)                                                                                   \
-  {                                                                                                                                                  \
-    const bool contributes = qq.offdiag_contributes(i, j);                                                                                           \
-    if (contributes) {                                                                                                                               \
-      t_matel factor;                                                                                                                                \
-      if (spsu2t_exception(i, j, I)) {                                                                                                               \
-        factor = 0;                                                                                                                                  \
-      } else {                                                                                                                                       \
-        factor = factor0;                                                                                                                            \
-      }                                                                                                                                              \
-      this->offdiag_function_impl(step, i, j, ch, fnr, factor, h, qq, In, opch);                                                                           \
-    }                                                                                                                                                \
-  };
+#define offdiag_spsu2t(i, j, ch, fnr, factor, h, qq, In, I, opch)                       \
+  if (qq.offdiag_contributes(i, j) && !spsu2t_exception(i, j, I) && std::abs(factor) != 0.0) \
+        this->offdiag_function_impl(step, i, j, ch, fnr, factor, h, qq, In, opch);
 
 // We take the coefficients of the first channel (indexed as 0), because all three set are exactly the same due to
 // orbital symmetry.
-- 
2.43.0


From fd7bf5d3af4d2e99712887dbeb3eb279b387511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 03/28] fix: partial diagonalisation accepted when a subspace
 retains all of its computed states

---
 c++/truncation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c++/truncation.hpp b/c++/truncation.hpp
index e8c0df5..00126c7 100644
--- a/c++/truncation.hpp
+++ b/c++/truncation.hpp
@@ -87,9 +87,11 @@ void truncate_prepare(const Step &step, DiagInfo<S> &diag, MF mult, const Params
   std::cout << "Cmax=" << Cmax / step.unscale() << " ";
   truncate_stats ts(diag, mult);
   ts.report();
-  if (ranges::any_of(diag, [Cmax](const auto &d) {
+  // If all computed states of an incompletely diagonalized subspace are retained, some of those that have not been
+  // computed might have to be retained as well.
+  if (ranges::any_of(diag, [](const auto &d) {
         const auto &[I, eig] = d;
-        return eig.getnrkept() == eig.getnrcomputed() && eig.values.highest_crit() != Cmax && eig.getnrcomputed() < eig.getdim();
+        return eig.getnrkept() == eig.getnrcomputed() && eig.getnrcomputed() < eig.getdim();
       }))
     throw NotEnough();
   const double ratio = double(ts.nrkept) / ts.nrall;
-- 
2.43.0


From 0760d832f75930fb632596518360428e0084268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 04/28] fix: intavg, tdavg: abscissa zero occurring in several
 inputs was repeated in the output

---
 tools/intavg/intavg.cc | 2 +-
 tools/tdavg/tdavg.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index b1db08a..2e67b8e 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -209,7 +209,7 @@ double LinInt::operator()(double x) {
 
 const double EPS = 1e-6;
 
-inline bool eq_approx(double a, double b) { return std::abs((a - b) / a) < EPS; }
+inline bool eq_approx(double a, double b) { return a == b || std::abs((a - b) / a) < EPS; }
 
 dvec merge_meshes() {
   dvec mesh_;
diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index c254b09..b25e12b 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -289,7 +289,7 @@ double LinInt::operator()(double x) {
 
 const double EPS = 1e-6;
 
-inline bool eq_approx(double a, double b) { return std::abs((a - b) / a) < EPS; }
+inline bool eq_approx(double a, double b) { return a == b || std::abs((a - b) / a) < EPS; }
 
 dvec merge_meshes() {
   dvec mesh_;
-- 
2.43.0


From a96ff20d5565e9b31cc851f6eb5ba8bcf1b0f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 05/28] fix: intavg: wrong averages for input that is not in
 ascending order

---
 tools/intavg/intavg.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 2e67b8e..ac8f23b 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -107,6 +107,7 @@ Vec load(int i) {
     exit(1);
   }
 
+  sort(data.begin(), data.end()); // the interpolation requires ascending abscissas
   return data;
 }
 
-- 
2.43.0


From e8f5753e6bd220e57efa287aed46fa903ae8248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 06/28] fix: intavg: data following a comment line inside the
 table was dropped

---
 tools/intavg/intavg.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index ac8f23b..7554803 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -87,7 +87,7 @@ Vec load(int i) {
 
   Vec data;
 
-  while (f) {
+  while (f >> ws) {
     if (f.peek() == '#') { // skip comment lines
       string line;
       getline(f, line);
-- 
2.43.0


From 2ab52febda28d01fe864de521bebb9b3a28dae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 07/28] fix: matrix: errors (syntax, division by zero,
 undefined names) left the exit status zero

---
 tools/matrix/matrix.cc |  9 +++++++++
 tools/matrix/matrix.h  |  1 +
 tools/matrix/matrix.ll |  9 +++++++++
 tools/matrix/parser.cc | 24 +++++++++++++++++++++---
 tools/matrix/parser.yy | 24 +++++++++++++++++++++---
 5 files changed, 61 insertions(+), 6 deletions(-)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index 3d25b41..d34c9c6 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -550,6 +550,9 @@ extern "C" int yywrap(void);
 void parse_file(const char *);
 
 int count_braces = 0;
+bool at_end = false;   // the last line break was supplied by the lexer
+char last_char = '\n'; // last character of the last token
+#define YY_USER_ACTION last_char = yytext[yyleng - 1];
 int include_depth = 0;
 
 
@@ -750,6 +753,8 @@ YY_DECL
 	char *yy_cp, *yy_bp;
 	int yy_act;
     
+    if (at_end) yyterminate();
+
 	if ( !(yy_init) )
 		{
 		(yy_init) = 1;
@@ -980,6 +985,10 @@ case YY_STATE_EOF(sys):
 	   }
 
 	   if (!YY_CURRENT_BUFFER) {
+	     if (last_char != '\n') { // no line break at the end of the last line
+	       at_end = true;
+	       return '\n';
+	     }
 	     yyterminate();
 	     return EXIT;
  	   }
diff --git a/tools/matrix/matrix.h b/tools/matrix/matrix.h
index c42a5a5..d6be3ae 100644
--- a/tools/matrix/matrix.h
+++ b/tools/matrix/matrix.h
@@ -4,6 +4,7 @@ struct symtab {
   char *name;
   double (*funcptr)(double);
   double value;
+  bool defined;
 };
 
 struct symtab *symlook(char *);
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index 230948c..2e25914 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -18,6 +18,9 @@ extern "C" int yywrap(void);
 void parse_file(const char *);
 
 int count_braces = 0;
+bool at_end = false;   // the last line break was supplied by the lexer
+char last_char = '\n'; // last character of the last token
+#define YY_USER_ACTION last_char = yytext[yyleng - 1];
 int include_depth = 0;
 
 %}
@@ -29,6 +32,8 @@ ALPHANAME ([A-Za-z][_A-Za-z0-9]*)
 TEXT ([A-Za-z][^\n]*)
 
 %%
+    if (at_end) yyterminate();
+
 ^#[^\n]*  ; /* Ignore comment lines */
 
 gammaPolCh { return GAMMAPOLCH; }
@@ -101,6 +106,10 @@ parse      { BEGIN(incl); }
 	   }
 
 	   if (!YY_CURRENT_BUFFER) {
+	     if (last_char != '\n') { // no line break at the end of the last line
+	       at_end = true;
+	       return '\n';
+	     }
 	     yyterminate();
 	     return EXIT;
  	   }
diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 610dcc0..a50e86e 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -86,6 +86,7 @@ void dump_matrix(struct mat *dmat);
 void free_vector(struct vec *dvec);
 void free_matrix(struct mat *dmat);
 void clear_symtab();
+double defined_value(const struct symtab *);
 
 // channel index - 0 based
 // Wilson chain site index - 0 based
@@ -110,6 +111,8 @@ string prefix = "";
 bool verbose = false;
 bool veryverbose = false;
 
+int errors = 0; // number of errors reported; the exit status is nonzero if there were any
+
 #line 111 "parser.cc" /* yacc.c:339  */
 
 # ifndef YY_NULLPTR
@@ -1332,6 +1335,7 @@ yyreduce:
 		     cerr << "Defining " << (yyvsp[-2].symp)->name << "=" << (yyvsp[0].dval) << endl;
 		   }
                    (yyvsp[-2].symp)->value = (yyvsp[0].dval); 
+                   (yyvsp[-2].symp)->defined = true;
 		}
 #line 1334 "parser.cc" /* yacc.c:1646  */
     break;
@@ -1411,7 +1415,7 @@ yyreduce:
 
   case 18:
 #line 111 "parser.yy" /* yacc.c:1646  */
-    { (yyval.dval) = (yyvsp[0].symp)->value; }
+    { (yyval.dval) = defined_value((yyvsp[0].symp)); }
 #line 1413 "parser.cc" /* yacc.c:1646  */
     break;
 
@@ -1422,6 +1426,7 @@ yyreduce:
 				(yyval.dval) = ((yyvsp[-3].symp)->funcptr)((yyvsp[-1].dval));
 			else {
 				cerr << (yyvsp[-3].symp)->name << " not a function" << endl;
+				errors++;
 				(yyval.dval) = 0.0;
 			}
 		}
@@ -1435,6 +1440,7 @@ yyreduce:
 				(yyval.dval) = ((yyvsp[-3].symp)->funcptr)((yyvsp[-1].dval));
 			else {
 			        cerr << (yyvsp[-3].symp)->name << " not a function" << endl;
+				errors++;
 				(yyval.dval) = 0.0;
 			}
 		}
@@ -1795,6 +1801,16 @@ struct symtab * symlook(char *s)
 	exit(1);	/* cannot continue */
 } /* symlook */
 
+// value of a variable that has to be defined
+double defined_value(const struct symtab *sp)
+{
+  if (!sp->defined) {
+    cerr << sp->name << " is not defined" << endl;
+    errors++;
+  }
+  return sp->value;
+}
+
 void addfunc(const char *name, double (*func)(double))
 {
    struct symtab *sp = symlook(const_cast<char *>(name));
@@ -2002,7 +2018,7 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ const int status = yyparse();
 
   if (verbose) {
   cerr << "DONE!" << endl;
@@ -2010,7 +2026,7 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
-  return 0;
+ return status == 0 && errors == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 }
 
 void dump_vector(struct vec *dvec)
@@ -2063,6 +2079,7 @@ void clear_symtab()
     entry.name = nullptr;
     entry.funcptr = nullptr;
     entry.value = 0.0;
+    entry.defined = false;
   }
 }
 
@@ -2139,4 +2156,5 @@ double coefV(int i, int j)
 void yyerror(const char *error)
 {
   cerr << error << endl;
+  errors++;
 }
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b067ba3..3615db7 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -27,6 +27,7 @@ void dump_matrix(struct mat *dmat);
 void free_vector(struct vec *dvec);
 void free_matrix(struct mat *dmat);
 void clear_symtab();
+double defined_value(const struct symtab *);
 
 // channel index - 0 based
 // Wilson chain site index - 0 based
@@ -50,6 +51,8 @@ string prefix = "";
 
 bool verbose = false;
 bool veryverbose = false;
+
+int errors = 0; // number of errors reported; the exit status is nonzero if there were any
 %}
 
 %union {
@@ -87,6 +90,7 @@ statement:	NAME '=' expression	{
 		     cerr << "Defining " << $1->name << "=" << $3 << endl;
 		   }
                    $1->value = $3; 
+                   $1->defined = true;
 		}
 	|	expression		{ OUT << prefix << $1 << endl; }
 	|       vector                  { OUT << prefix; dump_vector($1); free_vector($1); }
@@ -111,12 +115,13 @@ expression:	expression '+' expression { $$ = $1 + $3; }
 	|	'(' expression ')'	{ $$ = $2; }
 	|	NUMBER
 	|       INTEGER                 { $$ = $1; }
-	|	NAME			{ $$ = $1->value; }
+	|	NAME			{ $$ = defined_value($1); }
 	|	NAME '(' expression ')'	{
 			if($1->funcptr)
 				$$ = ($1->funcptr)($3);
 			else {
 				cerr << $1->name << " not a function" << endl;
+				errors++;
 				$$ = 0.0;
 			}
 		}
@@ -125,6 +130,7 @@ expression:	expression '+' expression { $$ = $1 + $3; }
 				$$ = ($1->funcptr)($3);
 			else {
 			        cerr << $1->name << " not a function" << endl;
+				errors++;
 				$$ = 0.0;
 			}
 		}
@@ -194,6 +200,16 @@ struct symtab * symlook(char *s)
 	exit(1);	/* cannot continue */
 } /* symlook */
 
+// value of a variable that has to be defined
+double defined_value(const struct symtab *sp)
+{
+  if (!sp->defined) {
+    cerr << sp->name << " is not defined" << endl;
+    errors++;
+  }
+  return sp->value;
+}
+
 void addfunc(const char *name, double (*func)(double))
 {
    struct symtab *sp = symlook(const_cast<char *>(name));
@@ -401,7 +417,7 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ const int status = yyparse();
 
  if (verbose) {
   cerr << "DONE!" << endl;
@@ -409,7 +425,7 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
- return 0;
+ return status == 0 && errors == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 }
 
 void dump_vector(struct vec *dvec)
@@ -462,6 +478,7 @@ void clear_symtab()
     entry.name = nullptr;
     entry.funcptr = nullptr;
     entry.value = 0.0;
+    entry.defined = false;
   }
 }
 
@@ -538,4 +555,5 @@ double coefV(int i, int j)
 void yyerror(const char *error)
 {
   cerr << error << endl;
+  errors++;
 }
-- 
2.43.0


From 879076c98f938edec47746dc722e3f2ada4e22fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 08/28] fix: matrix: coefficient indices out of range read
 outside of the tables

---
 tools/matrix/parser.cc | 26 +++++++++++++++-----------
 tools/matrix/parser.yy | 26 +++++++++++++++-----------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index a50e86e..abda3e4 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -2107,39 +2107,44 @@ struct vec * duplicate_vector(struct vec *dvec)
   return head;
 }
 
+// The indices come from the input: they are always checked
+void check_range(const char *name, bool ok)
+{
+  if (!ok) {
+    cerr << name << ": index out of range" << endl;
+    exit(1);
+  }
+}
+
 double gammapolch(int ch)
 {
   // In initial.m, gammaPolCh[] is defined as sqrt(theta/pi * Gamma) !!
-  assert(1 <= ch && ch <= nrchannels);
+  check_range("gammaPolCh", 1 <= ch && ch <= int(theta.size()));
   return sqrt(theta[ch-1]/M_PI);
 }
 
 // channel nr. has offset 1, i is 0 based
 double coefzeta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < zeta[ch-1].size());
+  check_range("coefzeta", 1 <= ch && ch <= nrchannels && 0 <= i && i < int(zeta[ch-1].size()));
   return zeta[ch-1][i];
 }
 
 double coefxi(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < xi[ch-1].size());
+  check_range("coefxi", 1 <= ch && ch <= nrchannels && 0 <= i && i < int(xi[ch-1].size()));
   return xi[ch-1][i];
 }
 
 double coefdelta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < delta[ch-1].size());
+  check_range("coefdelta", 1 <= ch && ch <= nrchannels && 0 <= i && i < int(delta[ch-1].size()));
   return delta[ch-1][i];
 }
 
 double coefkappa(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < kappa[ch-1].size());
+  check_range("coefkappa", 1 <= ch && ch <= nrchannels && 0 <= i && i < int(kappa[ch-1].size()));
   return kappa[ch-1][i];
 }
 
@@ -2148,8 +2153,7 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
-  assert(1 <= i && i <= V[ch-1].size());
-  assert(1 <= j && j <= V[ch-1][i-1].size());
+  check_range("coefV", 1 <= i && i <= int(V[ch-1].size()) && 1 <= j && j <= int(V[ch-1][i-1].size()));
   return V[ch-1][i-1][j-1];
 }
 
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 3615db7..1b1e6d1 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -506,39 +506,44 @@ struct vec * duplicate_vector(struct vec *dvec)
   return head;
 }
 
+// The indices come from the input: they are always checked
+void check_range(const char *name, bool ok)
+{
+  if (!ok) {
+    cerr << name << ": index out of range" << endl;
+    exit(1);
+  }
+}
+
 double gammapolch(int ch)
 {
   // In initial.m, gammaPolCh[] is defined as sqrt(theta/pi * Gamma) !!
-  assert(1 <= ch && ch <= nrchannels);
+  check_range("gammaPolCh", 1 <= ch && ch <= int(theta.size()));
   return sqrt(theta[ch-1]/M_PI);
 }
 
 // channel nr. has offset 1, i is 0 based
 double coefzeta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < zeta[ch-1].size());
+  check_range("coefzeta", 1 <= ch && ch <= nrchannels && 0 <= i && i < int(zeta[ch-1].size()));
   return zeta[ch-1][i];
 }
 
 double coefxi(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < xi[ch-1].size());
+  check_range("coefxi", 1 <= ch && ch <= nrchannels && 0 <= i && i < int(xi[ch-1].size()));
   return xi[ch-1][i];
 }
 
 double coefdelta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < delta[ch-1].size());
+  check_range("coefdelta", 1 <= ch && ch <= nrchannels && 0 <= i && i < int(delta[ch-1].size()));
   return delta[ch-1][i];
 }
 
 double coefkappa(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < kappa[ch-1].size());
+  check_range("coefkappa", 1 <= ch && ch <= nrchannels && 0 <= i && i < int(kappa[ch-1].size()));
   return kappa[ch-1][i];
 }
 
@@ -547,8 +552,7 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
-  assert(1 <= i && i <= V[ch-1].size());
-  assert(1 <= j && j <= V[ch-1][i-1].size());
+  check_range("coefV", 1 <= i && i <= int(V[ch-1].size()) && 1 <= j && j <= int(V[ch-1][i-1].size()));
   return V[ch-1][i-1][j-1];
 }
 
-- 
2.43.0


From 16a2074bfafdca5527b024d37cf05b7e5a5cc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 09/28] fix: matrix: the end of an included file closed the
 enclosing file

---
 tools/matrix/parser.cc | 5 +++++
 tools/matrix/parser.yy | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index abda3e4..d078690 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1956,10 +1956,15 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    if (include_depth > 0) {
+      return 1; // end of an included file: continue with the enclosing one
+    }
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 1b1e6d1..1575e8b 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -355,10 +355,15 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    if (include_depth > 0) {
+      return 1; // end of an included file: continue with the enclosing one
+    }
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
-- 
2.43.0


From 44b337856c7b5842094c65373c739ef16948756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 10/28] fix: matrix: integers beyond the int range overflowed
 and a lone point was read as zero

---
 tools/matrix/matrix.cc | 11 +++++++++++
 tools/matrix/matrix.ll | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index d34c9c6..497740a 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -532,6 +532,8 @@ char *yytext;
 #line 1 "matrix.ll"
 #line 2 "matrix.ll"
 #include <iostream>
+#include <climits>
+#include <cstring>
 #include <cstdlib>
 #include "parser.hh"
 #include "matrix.h"
@@ -917,6 +919,11 @@ case 14:
 YY_RULE_SETUP
 #line 52 "matrix.ll"
 { 
+         const double number = atof(yytext);
+         if (number > INT_MAX) {
+           yylval.dval = number;
+           return NUMBER;
+         }
          yylval.ival = atoi(yytext);
 	 return INTEGER;
        }
@@ -933,6 +940,10 @@ case 16:
 YY_RULE_SETUP
 #line 62 "matrix.ll"
 {
+		if (!strpbrk(yytext, "0123456789")) {
+			cerr << "Invalid number " << yytext << endl;
+			exit(1);
+		}
 		yylval.dval = atof(yytext);
 		return NUMBER;
 	}
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index 2e25914..aee3e60 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -1,5 +1,7 @@
 %{
 #include <iostream>
+#include <climits>
+#include <cstring>
 #include <cstdlib>
 #include "parser.hh"
 #include "matrix.h"
@@ -59,6 +61,11 @@ parse      { BEGIN(incl); }
        }
 
 [0-9]+ { 
+         const double number = atof(yytext);
+         if (number > INT_MAX) {
+           yylval.dval = number;
+           return NUMBER;
+         }
          yylval.ival = atoi(yytext);
 	 return INTEGER;
        }
@@ -69,6 +76,10 @@ parse      { BEGIN(incl); }
   }
 
 ([0-9]+|([0-9]*\.[0-9]*)([eE][-+]?[0-9]+)?) {
+		if (!strpbrk(yytext, "0123456789")) {
+			cerr << "Invalid number " << yytext << endl;
+			exit(1);
+		}
 		yylval.dval = atof(yytext);
 		return NUMBER;
 	}
-- 
2.43.0


From 186c3b874d2b68b8af8e4b69b221c2b943adfcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 11/28] fix: matrix: a bracketed variable, as in Sqrt[x], was
 skipped as a section header

---
 tools/matrix/matrix.cc | 13 +++++++++++--
 tools/matrix/matrix.ll | 13 +++++++++++--
 tools/matrix/parser.cc |  2 ++
 tools/matrix/parser.yy |  2 ++
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index 497740a..5f0a4f7 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -532,6 +532,7 @@ char *yytext;
 #line 1 "matrix.ll"
 #line 2 "matrix.ll"
 #include <iostream>
+#include <cctype>
 #include <climits>
 #include <cstring>
 #include <cstdlib>
@@ -554,7 +555,8 @@ void parse_file(const char *);
 int count_braces = 0;
 bool at_end = false;   // the last line break was supplied by the lexer
 char last_char = '\n'; // last character of the last token
-#define YY_USER_ACTION last_char = yytext[yyleng - 1];
+bool line_start = true; // the token is the first one on its line
+#define YY_USER_ACTION line_start = (last_char == '\n'); if (!isblank(yytext[0])) last_char = yytext[yyleng - 1];
 int include_depth = 0;
 
 
@@ -956,7 +958,13 @@ YY_RULE_SETUP
 case 18:
 YY_RULE_SETUP
 #line 70 "matrix.ll"
-;          /* ignore sections (param) */
+{ /* ignore sections (param) */
+          if (!line_start) { // part of an expression, as in Sqrt[x]
+            yyless(1);
+            last_char = yytext[0];
+            return yytext[0];
+          }
+        }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
@@ -2072,5 +2080,6 @@ void parse_file(const char *filename)
      exit(1);
    }
    include_depth++;
+   last_char = '\n'; // at the beginning of a line
    yypush_buffer_state(buffer);
 }
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index aee3e60..3adb08b 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -1,5 +1,6 @@
 %{
 #include <iostream>
+#include <cctype>
 #include <climits>
 #include <cstring>
 #include <cstdlib>
@@ -22,7 +23,8 @@ void parse_file(const char *);
 int count_braces = 0;
 bool at_end = false;   // the last line break was supplied by the lexer
 char last_char = '\n'; // last character of the last token
-#define YY_USER_ACTION last_char = yytext[yyleng - 1];
+bool line_start = true; // the token is the first one on its line
+#define YY_USER_ACTION line_start = (last_char == '\n'); if (!isblank(yytext[0])) last_char = yytext[yyleng - 1];
 int include_depth = 0;
 
 %}
@@ -87,7 +89,13 @@ parse      { BEGIN(incl); }
 
 [ \t]	;		 /* ignore white space */
 
-\[{ALPHANAME}\] ;          /* ignore sections (param) */
+\[{ALPHANAME}\] { /* ignore sections (param) */
+          if (!line_start) { // part of an expression, as in Sqrt[x]
+            yyless(1);
+            last_char = yytext[0];
+            return yytext[0];
+          }
+        }
 
 {ALPHANAME}={TEXT} { 
                      if (veryverbose) {
@@ -166,5 +174,6 @@ void parse_file(const char *filename)
      exit(1);
    }
    include_depth++;
+   last_char = '\n'; // at the beginning of a line
    yypush_buffer_state(buffer);
 }
diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index d078690..8019413 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1957,6 +1957,7 @@ int current = 0;
 FILE *file;
 extern FILE *yyin;
 extern int include_depth;
+extern char last_char;
 
 extern "C" {
 int yywrap(void)
@@ -1986,6 +1987,7 @@ int yywrap(void)
       exit(1);
     }
     yyin = file;
+    last_char = '\n'; // at the beginning of a line
     current++;
     return 0;
 }
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 1575e8b..8d04889 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -356,6 +356,7 @@ int current = 0;
 FILE *file;
 extern FILE *yyin;
 extern int include_depth;
+extern char last_char;
 
 extern "C" {
 int yywrap(void)
@@ -385,6 +386,7 @@ int yywrap(void)
       exit(1);
     }
     yyin = file;
+    last_char = '\n'; // at the beginning of a line
     current++;
     return 0;
 }
-- 
2.43.0


From f125a5456ef4bd6c77ea245f19d260c6f718645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 12/28] fix: SPU1, SPU1LR, SPSU2LR: complex on-site pairing was
 conjugated with respect to the inter-site pairing

The coefficient delta is conjugated, as already done in SPSU2, so that
the phases of delta and kappa refer to the same convention.
---
 c++/symmetry/sym-SPSU2LR-impl.hpp | 2 +-
 c++/symmetry/sym-SPU1-impl.hpp    | 6 +++---
 c++/symmetry/sym-SPU1LR-impl.hpp  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/symmetry/sym-SPSU2LR-impl.hpp b/c++/symmetry/sym-SPSU2LR-impl.hpp
index ca3835b..b19cca8 100644
--- a/c++/symmetry/sym-SPSU2LR-impl.hpp
+++ b/c++/symmetry/sym-SPSU2LR-impl.hpp
@@ -62,7 +62,7 @@ class SymmetrySPSU2LR : public SymLR<SC> {
 };
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef ANOMALOUS
 #define ANOMALOUS(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.kappa(step.N(), ch), h, qq, In, opch)
diff --git a/c++/symmetry/sym-SPU1-impl.hpp b/c++/symmetry/sym-SPU1-impl.hpp
index 0cbc3bf..f747c46 100644
--- a/c++/symmetry/sym-SPU1-impl.hpp
+++ b/c++/symmetry/sym-SPU1-impl.hpp
@@ -69,7 +69,7 @@ class SymmetrySPU1 : public  SymField<SC> {
 };
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef ANOMALOUS
 #define ANOMALOUS(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.kappa(step.N(), ch), h, qq, In, opch)
@@ -103,7 +103,7 @@ void SymmetrySPU1<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, con
     const auto [Ntrue, M] = step.NM();
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(Ntrue + 1, M), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(Ntrue + 1, M) ), h, qq)
 
 #undef ANOMALOUS
 #define ANOMALOUS(i, j, ch, factor) offdiag_function(step, i, j, M, 0, t_matel(factor) * coef.kappa(Ntrue, M), h, qq, In, opch)
@@ -122,7 +122,7 @@ void SymmetrySPU1<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, con
 }
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef ANOMALOUS
 #define ANOMALOUS(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.kappa(step.N(), ch), h, qq, In, opch)
diff --git a/c++/symmetry/sym-SPU1LR-impl.hpp b/c++/symmetry/sym-SPU1LR-impl.hpp
index c5020bd..d25a5c6 100644
--- a/c++/symmetry/sym-SPU1LR-impl.hpp
+++ b/c++/symmetry/sym-SPU1LR-impl.hpp
@@ -63,7 +63,7 @@ class SymmetrySPU1LR : public SymFieldLR<SC> {
 };
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef ANOMALOUS
 #define ANOMALOUS(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.kappa(step.N(), ch), h, qq, In, opch)
-- 
2.43.0


From aa71688c864bba3005264ef6a23ea00e99a56c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 13/28] fix: P, PP: hopping terms with annihilation operators
 use the conjugate of the hopping coefficient

With complex hopping coefficients the Hamiltonian matrix was not that of
the chain described by the data file.
---
 c++/symmetry/sym-P-impl.hpp  | 8 ++++----
 c++/symmetry/sym-PP-impl.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/c++/symmetry/sym-P-impl.hpp b/c++/symmetry/sym-P-impl.hpp
index 1fc54cd..63ac6ed 100644
--- a/c++/symmetry/sym-P-impl.hpp
+++ b/c++/symmetry/sym-P-impl.hpp
@@ -49,8 +49,8 @@ class SymmetryP : public Symmetry<SC> {
 
 #define OFFDIAG_CR_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
 #define OFFDIAG_CR_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_AN_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 2, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_AN_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 2, t_matel(factor) * conj_me( coef.xi(step.N(), ch) ), h, qq, In, opch)
+#define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * conj_me( coef.xi(step.N(), ch) ), h, qq, In, opch)
 
 #undef ISOSPINX
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
@@ -88,8 +88,8 @@ void SymmetryP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 
 #define OFFDIAG_CR_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xiDOWN(step.N(), ch), h, qq, In, opch)
 #define OFFDIAG_CR_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xiUP(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_AN_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 2, t_matel(factor) * coef.xiDOWN(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * coef.xiUP(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_AN_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 2, t_matel(factor) * conj_me( coef.xiDOWN(step.N(), ch) ), h, qq, In, opch)
+#define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * conj_me( coef.xiUP(step.N(), ch) ), h, qq, In, opch)
 
 #undef ISOSPINX
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
diff --git a/c++/symmetry/sym-PP-impl.hpp b/c++/symmetry/sym-PP-impl.hpp
index b19c175..6a56135 100644
--- a/c++/symmetry/sym-PP-impl.hpp
+++ b/c++/symmetry/sym-PP-impl.hpp
@@ -41,8 +41,8 @@ class SymmetryPP : public Symmetry<SC> {
 
 #define OFFDIAG_CR_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
 #define OFFDIAG_CR_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_AN_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 2, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_AN_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 2, t_matel(factor) * conj_me( coef.xi(step.N(), ch) ), h, qq, In, opch)
+#define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * conj_me( coef.xi(step.N(), ch) ), h, qq, In, opch)
 
 #undef ISOSPINX
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
@@ -72,8 +72,8 @@ void SymmetryPP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 
 #define OFFDIAG_CR_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xiDOWN(step.N(), ch), h, qq, In, opch)
 #define OFFDIAG_CR_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xiUP(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_AN_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 2, t_matel(factor) * coef.xiDOWN(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * coef.xiUP(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_AN_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 2, t_matel(factor) * conj_me( coef.xiDOWN(step.N(), ch) ), h, qq, In, opch)
+#define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * conj_me( coef.xiUP(step.N(), ch) ), h, qq, In, opch)
 
 #undef ISOSPINX
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
-- 
2.43.0


From cb59527f8eceadb79419be6734f7bbdf5273b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 14/28] fix: NONE, P, PP, SPSU2C3: phase convention of the
 on-site pairing

Conjugate delta as in SPSU2, so that a complex delta has the same phase
with respect to the hopping in all symmetry types.
---
 c++/symmetry/sym-NONE-impl.hpp    | 4 ++--
 c++/symmetry/sym-P-impl.hpp       | 4 ++--
 c++/symmetry/sym-PP-impl.hpp      | 4 ++--
 c++/symmetry/sym-SPSU2C3-impl.hpp | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/c++/symmetry/sym-NONE-impl.hpp b/c++/symmetry/sym-NONE-impl.hpp
index 48f7672..43ef3ae 100644
--- a/c++/symmetry/sym-NONE-impl.hpp
+++ b/c++/symmetry/sym-NONE-impl.hpp
@@ -42,7 +42,7 @@ class SymmetryNONE : public Symmetry<SC> {
 #define OFFDIAG_CR_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG
 #define DIAG(i, ch, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, ch), h, qq)
@@ -73,7 +73,7 @@ void SymmetryNONE<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, con
 #define OFFDIAG_CR_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xiUP(step.N(), ch), h, qq, In, opch)
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG_UP
 #define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
diff --git a/c++/symmetry/sym-P-impl.hpp b/c++/symmetry/sym-P-impl.hpp
index 63ac6ed..06ed34a 100644
--- a/c++/symmetry/sym-P-impl.hpp
+++ b/c++/symmetry/sym-P-impl.hpp
@@ -53,7 +53,7 @@ class SymmetryP : public Symmetry<SC> {
 #define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * conj_me( coef.xi(step.N(), ch) ), h, qq, In, opch)
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG
 #define DIAG(i, ch, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, ch), h, qq)
@@ -92,7 +92,7 @@ void SymmetryP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * conj_me( coef.xiUP(step.N(), ch) ), h, qq, In, opch)
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG_UP
 #define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
diff --git a/c++/symmetry/sym-PP-impl.hpp b/c++/symmetry/sym-PP-impl.hpp
index 6a56135..b39404e 100644
--- a/c++/symmetry/sym-PP-impl.hpp
+++ b/c++/symmetry/sym-PP-impl.hpp
@@ -45,7 +45,7 @@ class SymmetryPP : public Symmetry<SC> {
 #define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * conj_me( coef.xi(step.N(), ch) ), h, qq, In, opch)
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG
 #define DIAG(i, ch, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, ch), h, qq)
@@ -76,7 +76,7 @@ void SymmetryPP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define OFFDIAG_AN_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 3, t_matel(factor) * conj_me( coef.xiUP(step.N(), ch) ), h, qq, In, opch)
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
+#define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG_UP
 #define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
diff --git a/c++/symmetry/sym-SPSU2C3-impl.hpp b/c++/symmetry/sym-SPSU2C3-impl.hpp
index cedd611..267cdf2 100644
--- a/c++/symmetry/sym-SPSU2C3-impl.hpp
+++ b/c++/symmetry/sym-SPSU2C3-impl.hpp
@@ -58,7 +58,7 @@ class SymmetrySPSU2C3 : public SymC3<SC> {
 };
 
 #undef ISOSPINX
-#define ISOSPINX(i, j, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, 0), h, qq)
+#define ISOSPINX(i, j, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, 0) ), h, qq)
 
 #undef OFFDIAG
 #define OFFDIAG(i, j, ch, factor0) offdiag_function(step, i, j, ch, 0, t_matel(factor0) * coef.xi(step.N(), ch), h, qq, In, opch)
-- 
2.43.0


From 09e998b25cec9ca6e38e62d64742e0c82ea9ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 15/28] fix: SPSU2LR: quantum numbers of the singlet operator
 (SS is a multiplicity)

---
 c++/symmetry/sym-SPSU2LR-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/symmetry/sym-SPSU2LR-impl.hpp b/c++/symmetry/sym-SPSU2LR-impl.hpp
index b19cca8..bfe9137 100644
--- a/c++/symmetry/sym-SPSU2LR-impl.hpp
+++ b/c++/symmetry/sym-SPSU2LR-impl.hpp
@@ -10,7 +10,7 @@ class SymmetrySPSU2LR : public SymLR<SC> {
  public:
    using Matrix = typename traits<SC>::Matrix;
    using t_matel = typename traits<SC>::t_matel;
-   SymmetrySPSU2LR(const Params &P) : SymLR<SC>(P, std::vector{"<Sz^2>"}, Invar(0,1)) {
+   SymmetrySPSU2LR(const Params &P) : SymLR<SC>(P, std::vector{"<Sz^2>"}, Invar(1,1)) {
      initInvar({
         {"SS", additive},     // spin
         {"P", multiplicative} // parity
-- 
2.43.0


From a05acf8f3961a9da43e55659f7f61458c1ceb452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 16/28] fix: SPSU2LR has no quantum number Q to check in the
 spectral-function factors

---
 c++/symmetry/sym-SPSU2LR-impl.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/c++/symmetry/sym-SPSU2LR-impl.hpp b/c++/symmetry/sym-SPSU2LR-impl.hpp
index bfe9137..24c7714 100644
--- a/c++/symmetry/sym-SPSU2LR-impl.hpp
+++ b/c++/symmetry/sym-SPSU2LR-impl.hpp
@@ -32,7 +32,6 @@ class SymmetrySPSU2LR : public SymLR<SC> {
   }
 
   double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
-    check_diff(Ip, I1, "Q", 0);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
@@ -40,7 +39,6 @@ class SymmetrySPSU2LR : public SymLR<SC> {
   }
 
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
-    check_diff(Ip, I1, "Q", 1);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     return (ss1 == ssp + 1 ? S(ssp) + 1.0 : S(ssp));
-- 
2.43.0


From e56bd3a807c4491a7e3d04697b74f5b98a0ceed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 17/28] fix: SL: N1, N2, N3 of three-channel problems counted
 each channel three times

---
 c++/symmetry/coefnew/sl/sl-3ch-N1.dat | 8 --------
 c++/symmetry/coefnew/sl/sl-3ch-N2.dat | 8 --------
 c++/symmetry/coefnew/sl/sl-3ch-N3.dat | 8 --------
 c++/symmetry/coefnew/sl/sl.m          | 4 +++-
 4 files changed, 3 insertions(+), 25 deletions(-)

diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N1.dat b/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
index fca1387..415bad3 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
@@ -2,11 +2,3 @@ N1(1, 1, 0, -1);
 N1(2, 2, 0, -1);
 N1(3, 3, 0, -1);
 N1(5, 5, 0, -1);
-N1(1, 1, 1, -1);
-N1(2, 2, 1, -1);
-N1(3, 3, 1, -1);
-N1(5, 5, 1, -1);
-N1(1, 1, 2, -1);
-N1(2, 2, 2, -1);
-N1(3, 3, 2, -1);
-N1(5, 5, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N2.dat b/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
index aee6d05..da992cf 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
@@ -1,12 +1,4 @@
-N2(1, 1, 0, -1);
-N2(2, 2, 0, -1);
-N2(4, 4, 0, -1);
-N2(6, 6, 0, -1);
 N2(1, 1, 1, -1);
 N2(2, 2, 1, -1);
 N2(4, 4, 1, -1);
 N2(6, 6, 1, -1);
-N2(1, 1, 2, -1);
-N2(2, 2, 2, -1);
-N2(4, 4, 2, -1);
-N2(6, 6, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N3.dat b/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
index 881f742..657ee35 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
@@ -1,11 +1,3 @@
-N3(1, 1, 0, -1);
-N3(3, 3, 0, -1);
-N3(4, 4, 0, -1);
-N3(7, 7, 0, -1);
-N3(1, 1, 1, -1);
-N3(3, 3, 1, -1);
-N3(4, 4, 1, -1);
-N3(7, 7, 1, -1);
 N3(1, 1, 2, -1);
 N3(3, 3, 2, -1);
 N3(4, 4, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl.m b/c++/symmetry/coefnew/sl/sl.m
index 59471b7..db9296c 100644
--- a/c++/symmetry/coefnew/sl/sl.m
+++ b/c++/symmetry/coefnew/sl/sl.m
@@ -107,19 +107,21 @@ matrixopqtot[i1_, i2_, ch_] := Module[{op, opqtot},
 ];
 
 matrixopN1[i1_, i2_, ch_] := Module[{op, opqtot},
+  If[ch != 0, Return[0]];
   op = ch2op[0];
   opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
   matrixop1[i1, i2, opqtot]
 ];
 
 matrixopN2[i1_, i2_, ch_] := Module[{op, opqtot},
+  If[ch != 1, Return[0]];
   op = ch2op[1];
   opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
   matrixop1[i1, i2, opqtot]
 ];
 
 matrixopN3[i1_, i2_, ch_] := Module[{op, opqtot},
-  If[ch <= -1 || ch >= 3, Exit[]];
+  If[ch != 2, Return[0]];
   op = ch2op[2];
   opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
   matrixop1[i1, i2, opqtot]
-- 
2.43.0


From 1df85e0eea42ce4e1ac1ef0b0e56638db5d6f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 18/28] fix: SL3: Qtot subtracted the reference charge of all
 channels for each channel

---
 c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat | 36 ++++++++---------------
 c++/symmetry/coefnew/sl3/sl3.m            |  2 +-
 2 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat b/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
index 0a23123..d6563c2 100644
--- a/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
+++ b/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
@@ -1,24 +1,12 @@
-QTOT(1, 1, 0, -3);
-QTOT(2, 2, 0, -3);
-QTOT(3, 3, 0, -3);
-QTOT(4, 4, 0, -3);
-QTOT(5, 5, 0, -2);
-QTOT(6, 6, 0, -2);
-QTOT(7, 7, 0, -2);
-QTOT(8, 8, 0, -2);
-QTOT(1, 1, 1, -3);
-QTOT(2, 2, 1, -3);
-QTOT(3, 3, 1, -2);
-QTOT(4, 4, 1, -2);
-QTOT(5, 5, 1, -3);
-QTOT(6, 6, 1, -3);
-QTOT(7, 7, 1, -2);
-QTOT(8, 8, 1, -2);
-QTOT(1, 1, 2, -3);
-QTOT(2, 2, 2, -2);
-QTOT(3, 3, 2, -3);
-QTOT(4, 4, 2, -2);
-QTOT(5, 5, 2, -3);
-QTOT(6, 6, 2, -2);
-QTOT(7, 7, 2, -3);
-QTOT(8, 8, 2, -2);
+QTOT(1, 1, 0, -1);
+QTOT(2, 2, 0, -1);
+QTOT(3, 3, 0, -1);
+QTOT(4, 4, 0, -1);
+QTOT(1, 1, 1, -1);
+QTOT(2, 2, 1, -1);
+QTOT(5, 5, 1, -1);
+QTOT(6, 6, 1, -1);
+QTOT(1, 1, 2, -1);
+QTOT(3, 3, 2, -1);
+QTOT(5, 5, 2, -1);
+QTOT(7, 7, 2, -1);
diff --git a/c++/symmetry/coefnew/sl3/sl3.m b/c++/symmetry/coefnew/sl3/sl3.m
index 7f82a92..e49787f 100644
--- a/c++/symmetry/coefnew/sl3/sl3.m
+++ b/c++/symmetry/coefnew/sl3/sl3.m
@@ -121,7 +121,7 @@ diffsS = { {{0, 0, 0}, FNSINGLET<>".dat"} };
 
 matrixopqtot[i1_, i2_, ch_] := Module[{op, opqtot},
   op = ch2op[ch];
-  opqtot = number[ op[] ] - 3;
+  opqtot = number[ op[] ] - 1; (* Subtract 1 for each channel to conform to the definition of Q *)
   matrixop1[i1, i2, opqtot]
 ];
 
-- 
2.43.0


From 2fa593c7ba06d9b6c841ac4ff81a586f32fc1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 19/28] fix: odd-parity singlet operators ended every run in an
 assertion (Invar constructed from a vector of quantum numbers)

---
 c++/invar.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c++/invar.hpp b/c++/invar.hpp
index 9d75952..8a825e4 100644
--- a/c++/invar.hpp
+++ b/c++/invar.hpp
@@ -51,9 +51,8 @@ class Invar {
    // more fancy terms) the dimension of the Cartan subalgebra of the full symmetry algebra.
    inline static size_t invdim = 0; // 0 before initialization!
    Invar() : data(invdim) {}
-   explicit Invar(const InvType &d) {
-     my_assert(d.size() == data.size());
-     data = d;
+   explicit Invar(const InvType &d) : data(d) {
+     my_assert(d.size() == invdim);
    }
    explicit Invar(const int i0) : data{i0} {} // (int) constructor
    explicit Invar(const int i0, const int i1) : data{i0, i1} {} // (int,int) constructor
-- 
2.43.0


From 70e944b5d9aa5f4fa1f8cff353fcb32e46f6035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 20/28] fix: DBLSU2 spectral functions of doublet operators
 vanished (wrong operator quantum numbers) and lacked the multiplicity of the
 other isospin

---
 c++/symmetry/nrg-recalc-DBLSU2.hpp    | 16 ++++++++--------
 c++/symmetry/nrg-recalc-DBLSU2.hpp.m4 |  8 ++++----
 c++/symmetry/sym-DBLSU2-impl.hpp      | 15 +++++++++++----
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-DBLSU2.hpp b/c++/symmetry/nrg-recalc-DBLSU2.hpp
index 8c58253..4557dfd 100644
--- a/c++/symmetry/nrg-recalc-DBLSU2.hpp
+++ b/c++/symmetry/nrg-recalc-DBLSU2.hpp
@@ -38,52 +38,52 @@ MatrixElements<SC> SymmetryDBLSU2<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ii11 - 1, ii21);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletm0.dat" << ", Iop=" << Invar(2, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletm0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doubletm0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11 + 1, ii21);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletp0.dat" << ", Iop=" << Invar(2, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletp0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doubletp0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11, ii21 - 1);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0m.dat" << ", Iop=" << Invar(0, 2) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0m.dat" << ", Iop=" << Invar(1, 2) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doublet0m.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 2));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11, ii21 + 1);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0p.dat" << ", Iop=" << Invar(0, 2) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0p.dat" << ", Iop=" << Invar(1, 2) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doublet0p.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 2));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4 b/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
index 27c052b..966bdca 100644
--- a/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
+++ b/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
@@ -17,16 +17,16 @@ MatrixElements<SC> SymmetryDBLSU2<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ii11 - 1, ii21);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doubletm0.dat", Invar(2, 0));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doubletm0.dat", Invar(2, 1));
 
     Ip = Invar(ii11 + 1, ii21);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doubletp0.dat", Invar(2, 0));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doubletp0.dat", Invar(2, 1));
 
     Ip = Invar(ii11, ii21 - 1);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0m.dat", Invar(0, 2));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0m.dat", Invar(1, 2));
 
     Ip = Invar(ii11, ii21 + 1);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0p.dat", Invar(0, 2));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0p.dat", Invar(1, 2));
   }
   return cnew;
 }
diff --git a/c++/symmetry/sym-DBLSU2-impl.hpp b/c++/symmetry/sym-DBLSU2-impl.hpp
index 4ce5c88..7ae9edf 100644
--- a/c++/symmetry/sym-DBLSU2-impl.hpp
+++ b/c++/symmetry/sym-DBLSU2-impl.hpp
@@ -28,13 +28,20 @@ class SymmetryDBLSU2 : public Symmetry<SC> {
   // We always must have I1 >= 0 and I2 >= 0.
   bool Invar_allowed(const Invar &I) const override { return (I.get("II1") > 0) && (I.get("II2") > 0); }
 
-  // TO DO: support for the doublets wrt the second quantum number
+  // The operator is a doublet with respect to one of the isospins and a singlet with respect to the other one.
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ii1p = Ip.get("II1");
     const int ii11 = I1.get("II1");
-    my_assert(std::abs(ii11 - ii1p) == 1);
-    const double isofactor = (ii11 == ii1p + 1 ? ISO(ii1p) + 1.0 : ISO(ii1p));
-    return isofactor;
+    const int ii2p = Ip.get("II2");
+    const int ii21 = I1.get("II2");
+    if (std::abs(ii11 - ii1p) == 1) {
+      my_assert(ii21 == ii2p);
+      const double isofactor = (ii11 == ii1p + 1 ? ISO(ii1p) + 1.0 : ISO(ii1p));
+      return isofactor * ii2p; // multiplicity wrt 2nd isospin quantum number
+    }
+    my_assert(std::abs(ii21 - ii2p) == 1 && ii11 == ii1p);
+    const double isofactor = (ii21 == ii2p + 1 ? ISO(ii2p) + 1.0 : ISO(ii2p));
+    return isofactor * ii1p; // multiplicity wrt 1st isospin quantum number
   }
 
   void load() override {
-- 
2.43.0


From aa57eaf90bdfc1dddaf2d61bdb992ad10d38049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 21/28] fix: spin and orbital susceptibilities lacked the
 multiplicity of the conserved isospin, orbital momentum or spin (ISO*, QST,
 SPSU2T)

---
 c++/symmetry/sym-ISO-impl.hpp     | 9 +++++++++
 c++/symmetry/sym-ISOLR-impl.hpp   | 9 +++++++++
 c++/symmetry/sym-ISOSZ-impl.hpp   | 5 +++++
 c++/symmetry/sym-ISOSZLR-impl.hpp | 5 +++++
 c++/symmetry/sym-QST-impl.hpp     | 6 +++---
 c++/symmetry/sym-SPSU2T-impl.hpp  | 4 ++--
 6 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/c++/symmetry/sym-ISO-impl.hpp b/c++/symmetry/sym-ISO-impl.hpp
index cc9804a..ccc677f 100644
--- a/c++/symmetry/sym-ISO-impl.hpp
+++ b/c++/symmetry/sym-ISO-impl.hpp
@@ -33,6 +33,15 @@ class SymmetryISOcommon : public Symmetry<SC> {
     return isospin_ok && spin_ok;
   }
 
+  // Factor for the spin (as for SYMTYPE=QS) and the multiplicity of the isospin, because spin operators are isospin singlets.
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    const int ssp = Ip.get("SS");
+    const int ss1 = I1.get("SS");
+    my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
+    return Ip.get("II") * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
diff --git a/c++/symmetry/sym-ISOLR-impl.hpp b/c++/symmetry/sym-ISOLR-impl.hpp
index 8485b13..a6b71ac 100644
--- a/c++/symmetry/sym-ISOLR-impl.hpp
+++ b/c++/symmetry/sym-ISOLR-impl.hpp
@@ -30,6 +30,15 @@ class SymmetryISOLRcommon : public SymLR<SC> {
     return su2_triangle_inequality(I1.get("II"), I2.get("II"), I3.get("II")) && su2_triangle_inequality(I1.get("SS"), I2.get("SS"), I3.get("SS"))
        && z2_equality(I1.get("P"), I2.get("P"), I3.get("P"));
   }
+  // Factor for the spin (as for SYMTYPE=QS) and the multiplicity of the isospin, because spin operators are isospin singlets.
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    const int ssp = Ip.get("SS");
+    const int ss1 = I1.get("SS");
+    my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
+    return Ip.get("II") * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
diff --git a/c++/symmetry/sym-ISOSZ-impl.hpp b/c++/symmetry/sym-ISOSZ-impl.hpp
index defb283..2549c32 100644
--- a/c++/symmetry/sym-ISOSZ-impl.hpp
+++ b/c++/symmetry/sym-ISOSZ-impl.hpp
@@ -45,6 +45,11 @@ class SymmetryISOSZ : public SymField<SC> {
       default: my_assert_not_reached();
     }
   }
+  // Multiplicity of the isospin: spin operators are isospin singlets.
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    return Ip.get("II");
+  }
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     check_abs_diff(Ip, I1, "SSZ", 1);
     const int iip = Ip.get("II");
diff --git a/c++/symmetry/sym-ISOSZLR-impl.hpp b/c++/symmetry/sym-ISOSZLR-impl.hpp
index 82baa3e..7e933b1 100644
--- a/c++/symmetry/sym-ISOSZLR-impl.hpp
+++ b/c++/symmetry/sym-ISOSZLR-impl.hpp
@@ -35,6 +35,11 @@ class SymmetryISOSZLR : public SymFieldLR<SC> {
 #include "isoszlr/isoszlr-2ch-In2.dat"
 #include "isoszlr/isoszlr-2ch-QN.dat"
   }
+  // Multiplicity of the isospin: spin operators are isospin singlets.
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    return Ip.get("II");
+  }
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     check_abs_diff(Ip, I1, "SSZ", 1);
     const int iip = Ip.get("II");
diff --git a/c++/symmetry/sym-QST-impl.hpp b/c++/symmetry/sym-QST-impl.hpp
index e2bb756..45f5b3c 100644
--- a/c++/symmetry/sym-QST-impl.hpp
+++ b/c++/symmetry/sym-QST-impl.hpp
@@ -39,14 +39,14 @@ class SymmetryQST : public Symmetry<SC> {
 #include "qst/qst-QN.dat"
   } // load
 
-  // Same as for SYMTYPE=QS, because spin operators are angular momentum singlets.
+  // As for SYMTYPE=QS, times the multiplicity of the angular momentum, because spin operators are angular momentum singlets.
   double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
     check_diff(Ip, I1, "Q", 0);
     check_diff(Ip, I1, "T", 0);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
-    return switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+    return (2 * Ip.get("T") + 1) * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
   }
 
   double dynamic_orb_susceptibility_factor(const Invar &Ip, const Invar &I1) const override {
@@ -57,7 +57,7 @@ class SymmetryQST : public Symmetry<SC> {
     int ttp        = 2 * tp + 1;
     int tt1        = 2 * t1 + 1;
     my_assert((std::abs(tt1 - ttp) == 2 || tt1 == ttp));
-    return switch3(tt1, ttp + 2, 1. + (ttp - 1) / 3., ttp, ttp / 3., ttp - 2, (-2. + ttp) / 3.);
+    return Ip.get("SS") * switch3(tt1, ttp + 2, 1. + (ttp - 1) / 3., ttp, ttp / 3., ttp - 2, (-2. + ttp) / 3.);
   }
 
   // Creation operator is a spin-doublet, angular-momentum-triplet !
diff --git a/c++/symmetry/sym-SPSU2T-impl.hpp b/c++/symmetry/sym-SPSU2T-impl.hpp
index e443bc3..5ed177f 100644
--- a/c++/symmetry/sym-SPSU2T-impl.hpp
+++ b/c++/symmetry/sym-SPSU2T-impl.hpp
@@ -38,13 +38,13 @@ class SymmetrySPSU2T : public Symmetry<SC> {
 #include "spsu2t/spsu2t-QN.dat"
   } // load
 
-  // Same as for SYMTYPE=QS, because spin operators are angular momentum singlets.
+  // As for SYMTYPE=QS, times the multiplicity of the angular momentum, because spin operators are angular momentum singlets.
   double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
     check_diff(Ip, I1, "T", 0);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
-    return switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+    return (2 * Ip.get("T") + 1) * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
   }
 
   // Creation operator is a spin-doublet, angular-momentum-triplet !
-- 
2.43.0


From ba0ebca478b051dc2eebb1ca19d4551e14d15771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 22/28] fix: QSZTZ triplet operators vanished after the first
 step (operator quantum numbers of a spin multiplet)

---
 c++/symmetry/nrg-recalc-QSZTZ.hpp    | 12 ++++++------
 c++/symmetry/nrg-recalc-QSZTZ.hpp.m4 |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-QSZTZ.hpp b/c++/symmetry/nrg-recalc-QSZTZ.hpp
index 7af59fb..7b5ee5b 100644
--- a/c++/symmetry/nrg-recalc-QSZTZ.hpp
+++ b/c++/symmetry/nrg-recalc-QSZTZ.hpp
@@ -220,39 +220,39 @@ MatrixElements<SC> SymmetryQSZTZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, c
 
     Ip = Invar(q1, ssz1, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-triplets.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-triplets.dat" << ", Iop=" << Invar(0, 0, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-triplets.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 0, 0));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(q1, ssz1 + 2, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletp.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletp.dat" << ", Iop=" << Invar(0, -2, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-tripletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, -2, 0));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(q1, ssz1 - 2, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletm.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletm.dat" << ", Iop=" << Invar(0, +2, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-tripletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, +2, 0));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4 b/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
index a2a3f9b..0568c05 100644
--- a/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
+++ b/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
@@ -85,13 +85,13 @@ MatrixElements<SC> SymmetryQSZTZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, c
     Invar Ip;
 
     Ip = Invar(q1, ssz1, tz1);
-    RECALC_TAB("qsztz/qsztz-triplets.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-triplets.dat", Invar(0, 0, 0));
 
     Ip = Invar(q1, ssz1 + 2, tz1);
-    RECALC_TAB("qsztz/qsztz-tripletp.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-tripletp.dat", Invar(0, -2, 0));
 
     Ip = Invar(q1, ssz1 - 2, tz1);
-    RECALC_TAB("qsztz/qsztz-tripletm.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-tripletm.dat", Invar(0, +2, 0));
   }
   return cnew;
 }
-- 
2.43.0


From 9310432caefd2800b51f030da44fb392049bb719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 23/28] fix: zero of energy of polarised NONE, P, PP chains
 differed from all other symmetry types

---
 c++/symmetry/sym-NONE-impl.hpp | 4 ++--
 c++/symmetry/sym-P-impl.hpp    | 4 ++--
 c++/symmetry/sym-PP-impl.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/c++/symmetry/sym-NONE-impl.hpp b/c++/symmetry/sym-NONE-impl.hpp
index 43ef3ae..38d8acc 100644
--- a/c++/symmetry/sym-NONE-impl.hpp
+++ b/c++/symmetry/sym-NONE-impl.hpp
@@ -76,10 +76,10 @@ void SymmetryNONE<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, con
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryNONE<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-P-impl.hpp b/c++/symmetry/sym-P-impl.hpp
index 06ed34a..bc3625b 100644
--- a/c++/symmetry/sym-P-impl.hpp
+++ b/c++/symmetry/sym-P-impl.hpp
@@ -95,10 +95,10 @@ void SymmetryP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-PP-impl.hpp b/c++/symmetry/sym-PP-impl.hpp
index b39404e..598f1f1 100644
--- a/c++/symmetry/sym-PP-impl.hpp
+++ b/c++/symmetry/sym-PP-impl.hpp
@@ -79,10 +79,10 @@ void SymmetryPP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * conj_me( coef.delta(step.N() + 1, ch) ), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryPP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
-- 
2.43.0


From 5ecc14431ea73f1e5905ddfa5f7acc71b04d004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 24/28] fix: odd-parity singlet operators: subspaces without a
 counterpart of opposite parity ended the run with an exception

---
 c++/symmetry.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/symmetry.hpp b/c++/symmetry.hpp
index 1657b1a..e962cd7 100644
--- a/c++/symmetry.hpp
+++ b/c++/symmetry.hpp
@@ -204,6 +204,7 @@ class Symmetry {
      for (const auto &I : diag.subspaces()) {
        const Invar I1 = I;
        const Invar Ip = parity == -1 ? I.InvertParity() : I;
+       if (parity == -1 && !have_stored_subspaces(diag, I1, Ip)) continue;
        std::vector<Recalc<S>> recalc_table;
        for (const auto i: combs()) {
          const auto anc = ancestor(I, i);
-- 
2.43.0


From 8d45f78801ce3502d1a1b06575c6bdff0edee08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 25/28] fix: SPU1LR doublet and triplet operators vanished
 after the first step (parity missing in the subspace labels)

---
 c++/symmetry/nrg-recalc-SPU1LR.hpp    | 10 +++++-----
 c++/symmetry/nrg-recalc-SPU1LR.hpp.m4 | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPU1LR.hpp b/c++/symmetry/nrg-recalc-SPU1LR.hpp
index dbfc179..8667e11 100644
--- a/c++/symmetry/nrg-recalc-SPU1LR.hpp
+++ b/c++/symmetry/nrg-recalc-SPU1LR.hpp
@@ -36,7 +36,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1 + 1);
+    Ip = Invar(ssz1 + 1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-doubletp.dat" << ", Iop=" << Invar(-1, 1) << ")");
@@ -63,7 +63,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1-1);
+    Ip = Invar(ssz1 - 1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-doubletm.dat" << ", Iop=" << Invar(+1, 1) << ")");
@@ -232,7 +232,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1);
+    Ip = Invar(ssz1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-triplets.dat" << ", Iop=" << Invar(0, 1) << ")");
@@ -259,7 +259,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1+2);
+    Ip = Invar(ssz1 + 2, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-tripletp.dat" << ", Iop=" << Invar(-2, 1) << ")");
@@ -286,7 +286,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1-2);
+    Ip = Invar(ssz1 - 2, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-tripletm.dat" << ", Iop=" << Invar(+2, 1) << ")");
diff --git a/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4 b/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
index 6d02649..b915bc6 100644
--- a/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
@@ -16,11 +16,11 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1 + 1);
+    Ip = Invar(ssz1 + 1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-doubletp.dat", Invar(-1, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-doubletp.dat", Invar(-1, 1))');
 
-    Ip = Invar(ssz1-1);
+    Ip = Invar(ssz1 - 1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-doubletm.dat", Invar(+1, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-doubletm.dat", Invar(+1, 1))');
   }
@@ -72,15 +72,15 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1);
+    Ip = Invar(ssz1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-triplets.dat", Invar(0, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-triplets.dat", Invar(0, 1))');
 
-    Ip = Invar(ssz1+2);
+    Ip = Invar(ssz1 + 2, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-tripletp.dat", Invar(-2, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-tripletp.dat", Invar(-2, 1))');
 
-    Ip = Invar(ssz1-2);
+    Ip = Invar(ssz1 - 2, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-tripletm.dat", Invar(+2, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-tripletm.dat", Invar(+2, 1))');
   }
-- 
2.43.0


From f63f23ff5d5cff9016fe79ef82a4189849622f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 26/28] fix: SPSU2LR doublet and triplet operators vanished
 after the first step (operator quantum numbers of SPU1LR)

---
 c++/symmetry/nrg-recalc-SPSU2LR.hpp    | 20 ++++++++++----------
 c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4 | 10 +++++-----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPSU2LR.hpp b/c++/symmetry/nrg-recalc-SPSU2LR.hpp
index f49dec0..4f96290 100644
--- a/c++/symmetry/nrg-recalc-SPSU2LR.hpp
+++ b/c++/symmetry/nrg-recalc-SPSU2LR.hpp
@@ -38,26 +38,26 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1 + 1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletp.dat" << ", Iop=" << Invar(-1, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletp.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-doubletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(-1, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletm.dat" << ", Iop=" << Invar(+1, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletm.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-doubletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(+1, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
@@ -178,39 +178,39 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-triplets.dat" << ", Iop=" << Invar(0, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-triplets.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-triplets.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 + 2, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletp.dat" << ", Iop=" << Invar(-2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletp.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-tripletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(-2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 2, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletm.dat" << ", Iop=" << Invar(+2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletm.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-tripletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(+2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4 b/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
index f5d9c8b..d8dfe2a 100644
--- a/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
@@ -17,10 +17,10 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ss1 + 1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletp.dat", Invar(-1, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletp.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletm.dat", Invar(+1, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletm.dat", Invar(2, 1));
   }
   return cnew;
 }
@@ -65,13 +65,13 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ss1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-triplets.dat", Invar(0, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-triplets.dat", Invar(3, 1));
 
     Ip = Invar(ss1 + 2, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletp.dat", Invar(-2, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletp.dat", Invar(3, 1));
 
     Ip = Invar(ss1 - 2, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletm.dat", Invar(+2, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletm.dat", Invar(3, 1));
   }
   return cnew;
 }
-- 
2.43.0


From af6098ef3d285474fbb45ccf87c3c5ef27c4d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 27/28] fix: a run whose outputs could not be opened or written
 was reported as completed

---
 c++/basicio.hpp     |  6 ++++++
 c++/nrg-general.hpp |  2 +-
 c++/outfield.hpp    |  3 ++-
 c++/output.hpp      | 26 ++++++++++++++++++--------
 c++/spectrum.hpp    | 10 ++++++++--
 c++/store.hpp       |  6 ++++--
 6 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/c++/basicio.hpp b/c++/basicio.hpp
index 3cf1c36..3dfbd78 100644
--- a/c++/basicio.hpp
+++ b/c++/basicio.hpp
@@ -114,6 +114,12 @@ inline std::ofstream safe_open(const std::string &filename, const bool binary =
   return F;
 }
 
+// Throws if anything written so far to the output stream F has not reached the file (e.g. disk full).
+inline void check_written(std::ofstream &F, const std::string &filename) {
+  F.flush();
+  if (!F) throw std::runtime_error(fmt::format("Error writing {}", filename));
+}
+
 inline std::ifstream safe_open_for_reading(const std::string &filename, const bool binary = false) {
   my_assert(filename != "");
   std::ios::openmode flag = std::ios::in;
diff --git a/c++/nrg-general.hpp b/c++/nrg-general.hpp
index 5cf4450..722a652 100644
--- a/c++/nrg-general.hpp
+++ b/c++/nrg-general.hpp
@@ -213,7 +213,7 @@ public:
       run_dm_phase(operators_seed, coef_seed, diag_seed);
     }
 
-    if (P.done) { std::ofstream D("DONE"); } // Indicate successful completion by creating a flag file
+    if (P.done) safe_open("DONE"); // Indicate successful completion by creating a flag file
   }
   NRG_calculation(const NRG_calculation &) = delete;
   NRG_calculation(NRG_calculation &&) = delete;
diff --git a/c++/outfield.hpp b/c++/outfield.hpp
index 8732c07..128bd21 100644
--- a/c++/outfield.hpp
+++ b/c++/outfield.hpp
@@ -84,10 +84,11 @@ class TD_generic {
   template<typename T> void set(const std::string &desc, const T &x) { allfields.set(desc,x); }
   void save_values() {
     if (!O) {
-      O.emplace(filename);
+      O = safe_open(filename);
       allfields.save_header(O.value());
     }
     allfields.save_values(O.value());
+    check_written(O.value(), filename);
   }
 };
 
diff --git a/c++/output.hpp b/c++/output.hpp
index 5c72a06..571e80c 100644
--- a/c++/output.hpp
+++ b/c++/output.hpp
@@ -30,6 +30,7 @@ template<scalar S, typename t_expv = expv_traits<S>>
 class ExpvOutput {
  private:
    std::ofstream F;                     // output stream
+   const std::string filename;
    std::map<std::string, t_expv> &m;    // reference to the name->value mapping (e.g. from class Stats)
    const std::list<std::string> fields; // list of fields to be output (may be a subset of the fields actually present in m)
    const Params &P;
@@ -50,15 +51,17 @@ class ExpvOutput {
      F << ' ' << formatted_output(labelvalue, P) << ' ';
      std::transform(fields.cbegin(), fields.cend(), std::ostream_iterator<std::string>(F, " "), [this](const auto op) { return formatted_output(m[op], P); }); // NOTE: only real part stored
      F << std::endl;
+     check_written(F, filename);
      if (cout_dump)
        for (const auto &op: fields)
          color_print(P.pretty_out, fmt::emphasis::bold | fg(fmt::color::red), "<{}>={}\n", op, formatted_output(m[op], P)); // NOTE: real and imaginary part shown
    }
     ExpvOutput(const std::string &fn, std::map<std::string, t_expv> &m_,
-               std::list<std::string> fields_, const Params &P_) : m(m_), fields(std::move(fields_)), P(P_) {
+               std::list<std::string> fields_, const Params &P_) : filename(fn), m(m_), fields(std::move(fields_)), P(P_) {
       F = safe_open(fn);
       field_numbers();
       field_names();
+      check_written(F, filename);
     }
 };
 
@@ -90,6 +93,7 @@ class Annotated {
       ranges::sort(seznam);
       if (seznam.empty()) {
         F << std::endl;
+        check_written(F, filename);
         return;
       }
       size_t len = std::min<size_t>(seznam.size(), P.dumpannotated); // non-const
@@ -119,6 +123,7 @@ class Annotated {
          F << scale(e) << " " << I << std::endl;
      }
      F << std::endl; // Consecutive iterations are separated by an empty line
+     check_written(F, filename);
    }
 };
 
@@ -131,16 +136,18 @@ struct Output {
   std::ofstream Fenergies;  // all energies (different file for NRG and for DMNRG)
   std::ofstream Fstates;    // all states
   std::ofstream Freport;    // select state energies and diagonal matrix elements of singlet operators
+  const std::string filename_energies, filename_states, filename_report;
   std::unique_ptr<ExpvOutput<S>> custom;
   std::unique_ptr<ExpvOutput<S>> customfdm;
   std::unique_ptr<H5Easy::File> h5raw;
   Output(const RUNTYPE &runtype_, const Operators<S> &operators, Stats<S> &stats, const Params &P_,
-         const std::string filename_energies= "energies.nrg"s,
-         const std::string filename_states = "states.nrg"s,
-         const std::string filename_report = "report.nrg"s,
+         const std::string filename_energies_ = "energies.nrg"s,
+         const std::string filename_states_ = "states.nrg"s,
+         const std::string filename_report_ = "report.nrg"s,
          const std::string filename_custom = "custom",
          const std::string filename_customfdm = "customfdm")
-    : runtype(runtype_), P(P_), annotated(P_)
+    : runtype(runtype_), P(P_), annotated(P_),
+      filename_energies(filename_energies_), filename_states(filename_states_), filename_report(filename_report_)
     {
       if (runtype == RUNTYPE::NRG) {
         if (P.dumpenergies) Fenergies = safe_open(filename_energies);
@@ -162,21 +169,23 @@ struct Output {
     }
   // Dump eigenvalues from the diagonalisation to a file.
   void dump_energies(const int N, const DiagInfo<S> &diag, const double rescaled_by = 1.0) {
-    if (!Fenergies) return;
+    if (!Fenergies.is_open()) return;
     Fenergies << std::endl << "===== Iteration number: " << N << std::endl;
     dump_all_energies(diag, rescaled_by, Fenergies, P);
+    check_written(Fenergies, filename_energies);
   }
   void dump_states(const int N, const DiagInfo<S> &diag, const double rescaled_by = 1.0) {
-    if (!Fstates) return;
+    if (!Fstates.is_open()) return;
     Fstates << std::endl << "===== Iteration number: " << N << std::endl;
     dump_all_states(diag, rescaled_by, Fstates, P);
+    check_written(Fstates, filename_states);
   }
   void reportdiagonal(const Step &step,
                       Stats<S> &stats,
                       const DiagInfo<S> &diag,
                       const Operators<S> &operators,
                       const Params &P_) {
-    if (!Freport) return;
+    if (!Freport.is_open()) return;
     if (P_.reportdiagonallast && !step.last()) return;
     Freport << "=== Report N=" << step.ndx() << std::endl;
     for (auto &[I, eig] : diag) {
@@ -191,6 +200,7 @@ struct Output {
     }
     if (!step.last())
       Freport << std::endl;
+    check_written(Freport, filename_report);
   }};
 } // namespace
 
diff --git a/c++/spectrum.hpp b/c++/spectrum.hpp
index 4fbc03d..923a0a1 100644
--- a/c++/spectrum.hpp
+++ b/c++/spectrum.hpp
@@ -171,6 +171,7 @@ void SpectrumRealFreq<S>::savebins() {
     if (P.reim)
       Fbins.write((char *)&wi, sizeof(double));
   }
+  check_written(Fbins, fn);
 }
 
 // Energy mesh for spectral functions
@@ -224,6 +225,7 @@ void SpectrumRealFreq<S>::continuous() {
   std::ofstream Fdensity = safe_open(fn);
   densityneg.save(Fdensity, P.prec_xy, P.reim);
   densitypos.save(Fdensity, P.prec_xy, P.reim);
+  check_written(Fdensity, fn);
 }
 
 template<scalar S>
@@ -240,7 +242,9 @@ class GFMatsubara {
    }
    void save() {
      color_print(P.pretty_out, fmt::emphasis::bold, "GF Matsubara: {} {} -> {}\n", name, algoname, filename);
-     results.save(safe_open(filename + ".dat"), P.prec_xy);
+     auto F = safe_open(filename + ".dat");
+     results.save(F, P.prec_xy);
+     check_written(F, filename + ".dat");
    }
 };
 
@@ -259,7 +263,9 @@ class TempDependence {
    void save() {
      color_print(P.pretty_out, fmt::emphasis::bold, "Temperature dependence: {} {} -> {}\n", name, algoname, filename);
      ranges::sort(results, sortfirst());
-     results.save(safe_open(filename + ".dat"), P.prec_xy, P.reim);
+     auto F = safe_open(filename + ".dat");
+     results.save(F, P.prec_xy, P.reim);
+     check_written(F, filename + ".dat");
    }
 };
 
diff --git a/c++/store.hpp b/c++/store.hpp
index 4183500..a45bd80 100644
--- a/c++/store.hpp
+++ b/c++/store.hpp
@@ -64,12 +64,13 @@ class ThermoStore : public std::vector<ThermoSubs<S>> {
      }
    }
    void dump_all_absolute_energies(const std::string &filename = "absolute_energies.dat"s) {
-     std::ofstream F(filename);
+     auto F = safe_open(filename);
      this->dump_abs_G(F);
+     check_written(F, filename);
    }
    // Save a dump of all subspaces, with dimension info, etc.
    void dump_subspaces(const std::string &filename = "subspaces.dat"s) const {
-     std::ofstream O(filename);
+     auto O = safe_open(filename);
      for (const auto N : Nall()) {
        O << "Iteration " << N << std::endl;
        O << "len_dm=" << this->at(N).size() << std::endl;
@@ -77,6 +78,7 @@ class ThermoStore : public std::vector<ThermoSubs<S>> {
          O << "I=" << I << " kept=" << sub.kept() << " total=" << sub.total() << std::endl;
         O << std::endl;
       }
+      check_written(O, filename);
     }
     void shift_abs_energies(const double GS_energy) {
       for (const auto N : Nall())
-- 
2.43.0


From b27e05068609eeb682512124c963880661c834de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 28/28] fix: the workdir was left behind when a run terminated
 with an error

---
 c++/nrg.cc       | 22 +++++++++++++++-------
 c++/portabil.hpp |  4 ++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/c++/nrg.cc b/c++/nrg.cc
index f43ed25..c686303 100644
--- a/c++/nrg.cc
+++ b/c++/nrg.cc
@@ -242,13 +242,21 @@ int main(int argc, char **argv) {
   boost::mpi::broadcast(mpiw, startup_status, 0);
   if (startup_status != startup_continue) return startup_status;
 
-  if (mpiw.rank() == 0) {
-    std::cout << "MPI job running on " << mpiw.size() << " processors." << std::endl << std::endl;
-    report_openMP(std::cout, mpiw.size());
-    auto workdir = set_workdir(argc, argv);
-    run_nrg_master(mpienv, mpiw, std::move(workdir));
-  } else {
-    run_nrg_slave(mpienv, mpiw); // slaves do no disk I/O to workdir
+  // Exceptions are handled here, so that the stack is unwound and the workdir is removed also when a run fails.
+  try {
+    if (mpiw.rank() == 0) {
+      std::cout << "MPI job running on " << mpiw.size() << " processors." << std::endl << std::endl;
+      report_openMP(std::cout, mpiw.size());
+      auto workdir = set_workdir(argc, argv);
+      run_nrg_master(mpienv, mpiw, std::move(workdir));
+    } else {
+      run_nrg_slave(mpienv, mpiw); // slaves do no disk I/O to workdir
+    }
+  } catch (const std::exception &e) {
+    std::cout << std::flush;
+    std::cerr << "Error: " << e.what() << std::endl;
+    if (mpiw.size() > 1) mpienv.abort(EXIT_FAILURE); // terminate the other processes, too
+    return EXIT_FAILURE;
   }
   return 0;
 }
diff --git a/c++/portabil.hpp b/c++/portabil.hpp
index c355a24..77f9991 100644
--- a/c++/portabil.hpp
+++ b/c++/portabil.hpp
@@ -47,7 +47,7 @@ inline T finite_test_fnc(T x, const char *file, const int line) {
     std::cout << "File " << file << ", line " << line << "." << std::endl;
     std::cout << "Finiteness assertion" << std::endl;
     print_trace();
-    exit(1);
+    throw std::runtime_error("Non-finite number detected.");
   }
   return x;
 }
@@ -84,7 +84,7 @@ inline T finite_test_fnc(T x, const char *file, const int line) {
     std::cout << "File " << __FILE__ << ", line " << __LINE__ << "." << std::endl;                                                                             \
     std::cout << "Should never be reached." << std::endl;                                                                                                      \
     print_trace();                                                                                                                                   \
-    exit(1);                                                                                                                                         \
+    throw std::runtime_error("Program location reached that should never be reached.");                                                              \
   } while (0)
 
 // Workaround
-- 
2.43.0

