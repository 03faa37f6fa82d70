From a8d6fee85ccff47bc46d7aa6e82174e6e0d44167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 01/31] fix: specmoments: refuse truncated binary input instead
 of reading past the buffer

---
 tools/specmoments/specmoments.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 40fc85c..51e1b63 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -148,7 +148,10 @@ void load(int i) {
   f.seekg(0, ios::end);
   const ios::pos_type end_pos = f.tellg();
   const long len              = end_pos - begin_pos;
-  assert(len % (rows * sizeof(double)) == 0);
+  if (len % (rows * sizeof(double)) != 0) {
+    cerr << "Input binary file " << filename << " has incomplete row data." << endl;
+    exit(1);
+  }
   const int nr = len / (rows * sizeof(double)); // number of lines
   if (verbose) cout << "len=" << len << " nr=" << nr << " data points" << endl;
   // Allocate the read buffer. The data will be kept in memory for the
-- 
2.43.0


From a0c5128efbf4c8b0b67f23e436045c4239f21e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 02/31] fix: intavg, tdavg: do not output the abscissa zero
 twice when several data sets contain it

---
 tools/intavg/intavg.cc | 2 +-
 tools/tdavg/tdavg.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index b1db08a..2e67b8e 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -209,7 +209,7 @@ double LinInt::operator()(double x) {
 
 const double EPS = 1e-6;
 
-inline bool eq_approx(double a, double b) { return std::abs((a - b) / a) < EPS; }
+inline bool eq_approx(double a, double b) { return a == b || std::abs((a - b) / a) < EPS; }
 
 dvec merge_meshes() {
   dvec mesh_;
diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index c254b09..b25e12b 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -289,7 +289,7 @@ double LinInt::operator()(double x) {
 
 const double EPS = 1e-6;
 
-inline bool eq_approx(double a, double b) { return std::abs((a - b) / a) < EPS; }
+inline bool eq_approx(double a, double b) { return a == b || std::abs((a - b) / a) < EPS; }
 
 dvec merge_meshes() {
   dvec mesh_;
-- 
2.43.0


From 0f0ef8ffb56ee99bc9e59096cbdea3bb55bdbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 03/31] fix: tdavg: refuse data lines of unequal length also
 when the first line has no data columns

---
 tools/tdavg/tdavg.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index b25e12b..d3bb7a9 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -52,6 +52,7 @@ dvec mesh;          // output mesh
 
 unsigned int Nz;          // number of data sets (twist parameters z)
 unsigned int columns = 0; // number of columns (excluding the first column!)
+bool columns_known = false; // set once the first data line has been parsed
 
 const int OUTPUT_PRECISION = 16;
 
@@ -157,8 +158,9 @@ DataType load(const string &filename) {
         cerr << "Error parsing line: " << line << endl;
         exit(1);
       }
-      if (columns == 0) {
+      if (!columns_known) {
         columns = elements.size() - 1;
+        columns_known = true;
       } else {
         if (elements.size() - 1 != columns) {
           cerr << "Unequal number of columns in line: " << endl << line << endl;
-- 
2.43.0


From 1068f0a907aeec034cfd7a0a0d58a60738537f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 04/31] fix: kk writes nothing but the table to standard output
 in filter mode

---
 tools/kk/kk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index fb1fcfa..63492a4 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -271,7 +271,7 @@ class KK {
      init(im);
      const auto re = calc(Xpts);
      write(re, mode == MODE::FILES ? Fout : std::cout);
-     std::cout << "KK done!" << std::endl;
+     if (mode != MODE::STD) std::cout << "KK done!" << std::endl;
    }
    
    // Modern interface when kk is used as a library
-- 
2.43.0


From 40dc223fa18e6267e591d2c0deee2eef36b16809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 05/31] fix: matrix: refuse coefficient indices outside the
 tables (the assertions are compiled out in release builds)

---
 tools/matrix/parser.cc | 31 ++++++++++++++++++++-----------
 tools/matrix/parser.yy | 31 ++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 610dcc0..432e3d9 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -2090,39 +2090,48 @@ struct vec * duplicate_vector(struct vec *dvec)
   return head;
 }
 
+// The coefficient tables are read from files: an index out of range is an error in the input.
+void check_range(bool valid)
+{
+  if (!valid) {
+    cerr << "Coefficient index out of range." << endl;
+    exit(1);
+  }
+}
+
 double gammapolch(int ch)
 {
   // In initial.m, gammaPolCh[] is defined as sqrt(theta/pi * Gamma) !!
-  assert(1 <= ch && ch <= nrchannels);
+  check_range(1 <= ch && ch <= nrchannels);
   return sqrt(theta[ch-1]/M_PI);
 }
 
 // channel nr. has offset 1, i is 0 based
 double coefzeta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < zeta[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels);
+  check_range(0 <= i && i < zeta[ch-1].size());
   return zeta[ch-1][i];
 }
 
 double coefxi(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < xi[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels);
+  check_range(0 <= i && i < xi[ch-1].size());
   return xi[ch-1][i];
 }
 
 double coefdelta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < delta[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels);
+  check_range(0 <= i && i < delta[ch-1].size());
   return delta[ch-1][i];
 }
 
 double coefkappa(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < kappa[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels);
+  check_range(0 <= i && i < kappa[ch-1].size());
   return kappa[ch-1][i];
 }
 
@@ -2131,8 +2140,8 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
-  assert(1 <= i && i <= V[ch-1].size());
-  assert(1 <= j && j <= V[ch-1][i-1].size());
+  check_range(1 <= i && i <= V[ch-1].size());
+  check_range(1 <= j && j <= V[ch-1][i-1].size());
   return V[ch-1][i-1][j-1];
 }
 
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b067ba3..7d57be2 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -489,39 +489,48 @@ struct vec * duplicate_vector(struct vec *dvec)
   return head;
 }
 
+// The coefficient tables are read from files: an index out of range is an error in the input.
+void check_range(bool valid)
+{
+  if (!valid) {
+    cerr << "Coefficient index out of range." << endl;
+    exit(1);
+  }
+}
+
 double gammapolch(int ch)
 {
   // In initial.m, gammaPolCh[] is defined as sqrt(theta/pi * Gamma) !!
-  assert(1 <= ch && ch <= nrchannels);
+  check_range(1 <= ch && ch <= nrchannels);
   return sqrt(theta[ch-1]/M_PI);
 }
 
 // channel nr. has offset 1, i is 0 based
 double coefzeta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < zeta[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels);
+  check_range(0 <= i && i < zeta[ch-1].size());
   return zeta[ch-1][i];
 }
 
 double coefxi(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < xi[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels);
+  check_range(0 <= i && i < xi[ch-1].size());
   return xi[ch-1][i];
 }
 
 double coefdelta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < delta[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels);
+  check_range(0 <= i && i < delta[ch-1].size());
   return delta[ch-1][i];
 }
 
 double coefkappa(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < kappa[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels);
+  check_range(0 <= i && i < kappa[ch-1].size());
   return kappa[ch-1][i];
 }
 
@@ -530,8 +539,8 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
-  assert(1 <= i && i <= V[ch-1].size());
-  assert(1 <= j && j <= V[ch-1][i-1].size());
+  check_range(1 <= i && i <= V[ch-1].size());
+  check_range(1 <= j && j <= V[ch-1][i-1].size());
   return V[ch-1][i-1][j-1];
 }
 
-- 
2.43.0


From ac0a7a56ede997fc0476dd95b8c3553c7d0e0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 06/31] fix: matrix: a bracketed name after a function name is
 its argument, not a section header

---
 tools/matrix/matrix.cc | 14 ++++++++++++--
 tools/matrix/matrix.ll | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index 3d25b41..178adaa 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -552,6 +552,10 @@ void parse_file(const char *);
 int count_braces = 0;
 int include_depth = 0;
 
+// A bracket following a name contains the argument of a function, it is not a section header.
+static bool after_name = false, name_before = false;
+#define YY_USER_ACTION name_before = after_name; after_name = false;
+
 
 
 #line 554 "matrix.cc"
@@ -935,12 +939,17 @@ YY_RULE_SETUP
 case 17:
 YY_RULE_SETUP
 #line 68 "matrix.ll"
-;		 /* ignore white space */
+{ after_name = name_before; } /* ignore white space */
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
 #line 70 "matrix.ll"
-;          /* ignore sections (param) */
+{          /* ignore sections (param) */
+                 if (name_before) {
+                   yyless(1);
+                   return yytext[0];
+                 }
+        }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
@@ -958,6 +967,7 @@ YY_RULE_SETUP
 		struct symtab *sp = symlook(yytext);
 
 		yylval.symp = sp;
+		after_name = true;
 		return NAME;
 	}
 	YY_BREAK
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index 230948c..0794a5d 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -20,6 +20,10 @@ void parse_file(const char *);
 int count_braces = 0;
 int include_depth = 0;
 
+// A bracket following a name contains the argument of a function, it is not a section header.
+static bool after_name = false, name_before = false;
+#define YY_USER_ACTION name_before = after_name; after_name = false;
+
 %}
 
 %x incl
@@ -69,9 +73,14 @@ parse      { BEGIN(incl); }
 	}
 
 
-[ \t]	;		 /* ignore white space */
+[ \t]	{ after_name = name_before; } /* ignore white space */
 
-\[{ALPHANAME}\] ;          /* ignore sections (param) */
+\[{ALPHANAME}\] {          /* ignore sections (param) */
+                 if (name_before) {
+                   yyless(1);
+                   return yytext[0];
+                 }
+        }
 
 {ALPHANAME}={TEXT} { 
                      if (veryverbose) {
@@ -83,6 +92,7 @@ parse      { BEGIN(incl); }
 		struct symtab *sp = symlook(yytext);
 
 		yylval.symp = sp;
+		after_name = true;
 		return NAME;
 	}
 
-- 
2.43.0


From 62dfe8a9d8a01bd52837add824b6e24353f24f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 07/31] fix: matrix: accept the documented option -V

---
 tools/matrix/parser.cc | 2 +-
 tools/matrix/parser.yy | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 432e3d9..3daafe3 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1809,7 +1809,7 @@ void usage()
 void parse_param(int argc, char *argv[])
 {
   int c;
-  while ((c = getopt(argc, argv, "hc:vpPs")) != -1) {
+  while ((c = getopt(argc, argv, "hc:vVpPs")) != -1) {
   switch (c) {
     case 'h':
       usage();
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 7d57be2..8793aaa 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -208,7 +208,7 @@ void usage()
 void parse_param(int argc, char *argv[])
 {
   int c;
-  while ((c = getopt(argc, argv, "hc:vpPs")) != -1) {
+  while ((c = getopt(argc, argv, "hc:vVpPs")) != -1) {
   switch (c) {
     case 'h':
       usage();
-- 
2.43.0


From 1f718f3e45b34cc09ce261583bcfda3521d8da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 08/31] fix: nrgchain: refuse negative Nmax, mMAX and preccpp

---
 tools/nrgchain/nrgchain.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 9cdddbd..e9cd52e 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -163,14 +163,18 @@ void set_parameters() {
   xmax = P("xmax", 30); // Interval [1..xmax]
   if (!(xmax >= 1.0)) throw std::invalid_argument("xmax must be greater than or equal to 1.");
 
-  Nmax = Pint("Nmax", 0); // Maximal site index in the Wilson chain
-
-  mMAX = Pint("mMAX", 2 * Nmax); // Maximal index of coefficients (e,f)
-
-  if (!(mMAX > 0)) throw std::invalid_argument("mMAX must be greater than 0.");
-
-  preccpp = Pint("preccpp", 2000); // Precision for GMP
-  if (!(preccpp > 10)) throw std::invalid_argument("preccpp must be greater than 10.");
+  // Validate as signed values: the variables are unsigned and negative input would wrap around.
+  const int Nmax_in = Pint("Nmax", 0); // Maximal site index in the Wilson chain
+  if (!(Nmax_in >= 0)) throw std::invalid_argument("Nmax must not be negative.");
+  Nmax = Nmax_in;
+
+  const int mMAX_in = Pint("mMAX", 2 * Nmax); // Maximal index of coefficients (e,f)
+  if (!(mMAX_in > 0)) throw std::invalid_argument("mMAX must be greater than 0.");
+  mMAX = mMAX_in;
+
+  const int preccpp_in = Pint("preccpp", 2000); // Precision for GMP
+  if (!(preccpp_in > 10)) throw std::invalid_argument("preccpp must be greater than 10.");
+  preccpp = preccpp_in;
 
   band = Pstr("band", "adapt"); // Default: load FSOL*.dat
 
-- 
2.43.0


From 4b3440a31b5e3a6244d67c61e0abc40898c6c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 09/31] fix: nrgchain: refuse stored tables shorter than the
 discretization

---
 tools/nrgchain/nrgchain.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index e9cd52e..3d3ee69 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -325,6 +325,8 @@ void load_tables() {
   load("de_neg.dat", de_neg);
   load("du_pos.dat", du_pos);
   load("du_neg.dat", du_neg);
+  for (const auto *t : {&de_pos, &de_neg, &du_pos, &du_neg})
+    if (t->size() < mMAX + 1) throw std::invalid_argument("Stored coefficient tables are shorter than mMAX+1.");
 }
 
 class my_mpf {
-- 
2.43.0


From c40a12720dae68d7616e2134a2ca2b2693a97428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 10/31] fix: nrgchain: abort on negative xi2 and on undefined
 checksum

---
 tools/nrgchain/nrgchain.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 3d3ee69..509621a 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -295,7 +295,7 @@ void tables() {
 
   // A large deviation probably indicates a serious problem!
   const double CHECKSUM_LIMIT = 1e-10;
-  if (std::abs(1 - checksum) > CHECKSUM_LIMIT) {
+  if (!(std::abs(1 - checksum) <= CHECKSUM_LIMIT)) { // also true for NaN
     cerr << "Checksum test failed." << endl;
     exit(1);
   }
@@ -447,7 +447,7 @@ void tridiag() {
     mpf_mul(tempsq, mpzeta, mpzeta);
     mpf_sub(xi2, xi2, tempsq);
 
-    if (!mpf_cmp_d(xi2, 0.0)) {
+    if (mpf_cmp_d(xi2, 0.0) <= 0) {
       cerr << "xi2 negative, aborting." << endl;
       exit(1);
     }
-- 
2.43.0


From 16483f489a326575ac54db1191b9a7f1d8ed7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 11/31] fix: intavg, integ, kk: skip comment lines also after
 the first data line (the rest of the table was ignored)

---
 tools/intavg/intavg.cc | 2 +-
 tools/integ/integ.cc   | 2 +-
 tools/kk/kk.hpp        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 2e67b8e..07e67d1 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -88,7 +88,7 @@ Vec load(int i) {
   Vec data;
 
   while (f) {
-    if (f.peek() == '#') { // skip comment lines
+    if ((f >> ws).peek() == '#') { // skip comment lines
       string line;
       getline(f, line);
     } else {
diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 6df8912..61a3d61 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -115,7 +115,7 @@ void cmd_line(int argc, char *argv[]) {
 // Read data from stream F.
 void readtable(istream &F, XYFUNC &v) {
   while (F) {
-    if (F.peek() == '#') { // skip comment lines
+    if ((F >> ws).peek() == '#') { // skip comment lines
       string line;
       getline(F, line);
     } else {
diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index 63492a4..4f9ba2e 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -66,7 +66,7 @@ constexpr auto OUTPUT_PRECISION = 16;
 inline auto read(std::istream &F) {
   XYFUNC v;
   while (F) {
-    if (F.peek() == '#') { // skip comment lines
+    if ((F >> std::ws).peek() == '#') { // skip comment lines
       std::string line;
       std::getline(F, line);
     } else {
-- 
2.43.0


From 7b3858a42089b78020de2be9d5b7f693e5f3e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 12/31] fix: NONE, P, PP: half the average occupancy is
 subtracted per spin projection in polarized mode

---
 c++/symmetry/sym-NONE-impl.hpp | 4 ++--
 c++/symmetry/sym-P-impl.hpp    | 4 ++--
 c++/symmetry/sym-PP-impl.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/c++/symmetry/sym-NONE-impl.hpp b/c++/symmetry/sym-NONE-impl.hpp
index 48f7672..72418ab 100644
--- a/c++/symmetry/sym-NONE-impl.hpp
+++ b/c++/symmetry/sym-NONE-impl.hpp
@@ -76,10 +76,10 @@ void SymmetryNONE<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, con
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryNONE<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-P-impl.hpp b/c++/symmetry/sym-P-impl.hpp
index 1fc54cd..180c1b6 100644
--- a/c++/symmetry/sym-P-impl.hpp
+++ b/c++/symmetry/sym-P-impl.hpp
@@ -95,10 +95,10 @@ void SymmetryP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-PP-impl.hpp b/c++/symmetry/sym-PP-impl.hpp
index b19c175..a9cee58 100644
--- a/c++/symmetry/sym-PP-impl.hpp
+++ b/c++/symmetry/sym-PP-impl.hpp
@@ -79,10 +79,10 @@ void SymmetryPP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryPP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
-- 
2.43.0


From 85f6456b7b958cd82eb8048ac27d229fc9757c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 13/31] fix: three-channel orbital symmetry types: subtract the
 average occupancy of all three channels

---
 c++/symmetry/sym-QSC3-impl.hpp    | 2 +-
 c++/symmetry/sym-QST-impl.hpp     | 2 +-
 c++/symmetry/sym-QSTZ-impl.hpp    | 2 +-
 c++/symmetry/sym-QSZTZ-impl.hpp   | 2 +-
 c++/symmetry/sym-SPSU2C3-impl.hpp | 2 +-
 c++/symmetry/sym-SPSU2T-impl.hpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/c++/symmetry/sym-QSC3-impl.hpp b/c++/symmetry/sym-QSC3-impl.hpp
index cc2f3b2..84328aa 100644
--- a/c++/symmetry/sym-QSC3-impl.hpp
+++ b/c++/symmetry/sym-QSC3-impl.hpp
@@ -75,7 +75,7 @@ class SymmetryQSC3 : public SymC3<SC> {
 #define OFFDIAG(i, j, ch, factor0) offdiag_function(step, i, j, ch, 0, t_matel(factor0) * coef.xi(step.N(), ch), h, qq, In, opch)
 
 #undef DIAG
-#define DIAG(i, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, 0), h, qq)
+#define DIAG(i, number) this->diag_function_impl(step, i, number, coef.zeta(step.N() + 1, 0), h, qq, P.channels)
 
 template<typename SC>
 void SymmetryQSC3<SC>::make_matrix(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-QST-impl.hpp b/c++/symmetry/sym-QST-impl.hpp
index e2bb756..0c57e45 100644
--- a/c++/symmetry/sym-QST-impl.hpp
+++ b/c++/symmetry/sym-QST-impl.hpp
@@ -133,7 +133,7 @@ bool qst_exception(const unsigned int i, const unsigned int j, const Invar &I) {
 #define OFFDIAG(i, j, factor0) offdiag_qst(i, j, 0, 0, t_matel(factor0) * coef.xi(step.N(), 0), h, qq, In, I, opch)
 
 #undef DIAG
-#define DIAG(i, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, 0), h, qq)
+#define DIAG(i, number) this->diag_function_impl(step, i, number, coef.zeta(step.N() + 1, 0), h, qq, P.channels)
 
 template<typename SC>
 void SymmetryQST<SC>::make_matrix(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-QSTZ-impl.hpp b/c++/symmetry/sym-QSTZ-impl.hpp
index 87c58d1..deef759 100644
--- a/c++/symmetry/sym-QSTZ-impl.hpp
+++ b/c++/symmetry/sym-QSTZ-impl.hpp
@@ -84,7 +84,7 @@ class SymmetryQSTZ : public Symmetry<SC> {
 #define OFFDIAG(i, j, factor0) offdiag_function(step, i, j, 0, 0, t_matel(factor0) * coef.xi(step.N(), 0), h, qq, In, opch)
 
 #undef DIAG
-#define DIAG(i, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, 0), h, qq)
+#define DIAG(i, number) this->diag_function_impl(step, i, number, coef.zeta(step.N() + 1, 0), h, qq, P.channels)
 
 template<typename SC>
 void SymmetryQSTZ<SC>::make_matrix(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-QSZTZ-impl.hpp b/c++/symmetry/sym-QSZTZ-impl.hpp
index c4c3909..af8ddad 100644
--- a/c++/symmetry/sym-QSZTZ-impl.hpp
+++ b/c++/symmetry/sym-QSZTZ-impl.hpp
@@ -60,7 +60,7 @@ class SymmetryQSZTZ : public Symmetry<SC> {
 #define OFFDIAG(i, j, factor0) offdiag_function(step, i, j, 0, 0, t_matel(factor0) * coef.xi(step.N(), 0), h, qq, In, opch)
 
 #undef DIAG
-#define DIAG(i, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, 0), h, qq)
+#define DIAG(i, number) this->diag_function_impl(step, i, number, coef.zeta(step.N() + 1, 0), h, qq, P.channels)
 
 template<typename SC>
 void SymmetryQSZTZ<SC>::make_matrix(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-SPSU2C3-impl.hpp b/c++/symmetry/sym-SPSU2C3-impl.hpp
index cedd611..f24b900 100644
--- a/c++/symmetry/sym-SPSU2C3-impl.hpp
+++ b/c++/symmetry/sym-SPSU2C3-impl.hpp
@@ -64,7 +64,7 @@ class SymmetrySPSU2C3 : public SymC3<SC> {
 #define OFFDIAG(i, j, ch, factor0) offdiag_function(step, i, j, ch, 0, t_matel(factor0) * coef.xi(step.N(), ch), h, qq, In, opch)
 
 #undef DIAG
-#define DIAG(i, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, 0), h, qq)
+#define DIAG(i, number) this->diag_function_impl(step, i, number, coef.zeta(step.N() + 1, 0), h, qq, P.channels)
 
 template<typename SC>
 void SymmetrySPSU2C3<SC>::make_matrix(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-SPSU2T-impl.hpp b/c++/symmetry/sym-SPSU2T-impl.hpp
index 2afe6a1..dccaa65 100644
--- a/c++/symmetry/sym-SPSU2T-impl.hpp
+++ b/c++/symmetry/sym-SPSU2T-impl.hpp
@@ -118,7 +118,7 @@ bool spsu2t_exception(const unsigned int i, const unsigned int j, const Invar &I
 #define OFFDIAG(i, j, factor0) offdiag_spsu2t(i, j, 0, 0, t_matel(factor0) * coef.xi(step.N(), 0), h, qq, In, I, opch)
 
 #undef DIAG
-#define DIAG(i, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, 0), h, qq)
+#define DIAG(i, number) this->diag_function_impl(step, i, number, coef.zeta(step.N() + 1, 0), h, qq, P.channels)
 
 #undef ISOSPINX
 #define ISOSPINX(i, j, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, 0), h, qq)
-- 
2.43.0


From 3785eeb91169f5b9ceb38c72f18735b968460411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 14/31] fix: QJ: the list of ancestor subspaces is zero based
 (read past its end, wrong selection rule)

---
 c++/symmetry/sym-QJ-impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/symmetry/sym-QJ-impl.hpp b/c++/symmetry/sym-QJ-impl.hpp
index e1ee0f7..8fa425a 100644
--- a/c++/symmetry/sym-QJ-impl.hpp
+++ b/c++/symmetry/sym-QJ-impl.hpp
@@ -87,8 +87,8 @@ class SymmetryQJ : public Symmetry<SC> {
                             const InvarVec &In, const Opch<SC> &opch) const
    {
      const Invar Iop     = ch == 0 ? Invar(1, 2) : Invar(1, 4);
-     const Invar I1      = In[i];
-     const Invar I2      = In[j];
+     const Invar I1      = In[i-1];
+     const Invar I2      = In[j-1];
      const bool triangle = triangle_inequality(I1, I2, Iop); // I1 = I2+Iop
      if (triangle) { offdiag_function(step, i, j, ch, fnr, factor, h, qq, In, opch); }
    }
@@ -106,7 +106,7 @@ double Factorial(const double x) { return boost::math::factorial<double>(round(x
 #define OFFDIAG(i, j, Jndx, factor0) offdiag_function_QJ(step, i, j, Jndx, 0, t_matel(factor0) * coef.xi(step.N(), 0), h, qq, In, opch)
 
 #undef DIAG
-#define DIAG(i, number) this->diag_function(step, i, number, coef.zeta(step.N() + 1, 0), h, qq)
+#define DIAG(i, number) this->diag_function_impl(step, i, number, coef.zeta(step.N() + 1, 0), h, qq, P.channels)
 
 inline double J(int JJ) {
   return (JJ - 1.0) / 2.0; // JJ=2J+1
-- 
2.43.0


From 9bf46972a5af5caae20114161160e23d7d334110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 15/31] fix: U1 without polarisation: spin up and down of the
 previous site were exchanged in the hopping term

---
 c++/symmetry/sym-U1-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/symmetry/sym-U1-impl.hpp b/c++/symmetry/sym-U1-impl.hpp
index 7543f71..6a588b6 100644
--- a/c++/symmetry/sym-U1-impl.hpp
+++ b/c++/symmetry/sym-U1-impl.hpp
@@ -150,8 +150,8 @@ void SymmetryU1<SC>::make_matrix_pol2x2(Matrix &h, const Step &step, const Subsp
 #undef OFFDIAG_DO
 #undef OFFDIAG_UP
 
-#define OFFDIAG_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
 
 template<typename SC>
 void SymmetryU1<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
-- 
2.43.0


From 0a19021765faa4bec22b7e6d9fbd17e7d7d9c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 16/31] fix: P: doublet operators lost their fermionic sign
 when recalculated on the next site

---
 c++/symmetry/coefnew/p/p-1ch-doublet.dat |  4 ++--
 c++/symmetry/coefnew/p/p-2ch-doublet.dat | 16 ++++++++--------
 c++/symmetry/coefnew/p/p.m               |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/c++/symmetry/coefnew/p/p-1ch-doublet.dat b/c++/symmetry/coefnew/p/p-1ch-doublet.dat
index b3d578f..978f1ee 100644
--- a/c++/symmetry/coefnew/p/p-1ch-doublet.dat
+++ b/c++/symmetry/coefnew/p/p-1ch-doublet.dat
@@ -1,4 +1,4 @@
-{ 1, 1, Invar(-p1), Invar(p1), 1},
-{ 2, 2, Invar(-p1), Invar(p1), 1},
+{ 1, 1, Invar(-p1), Invar(p1), -1},
+{ 2, 2, Invar(-p1), Invar(p1), -1},
 { 3, 3, Invar(p1), Invar(-p1), 1},
 { 4, 4, Invar(p1), Invar(-p1), 1},
diff --git a/c++/symmetry/coefnew/p/p-2ch-doublet.dat b/c++/symmetry/coefnew/p/p-2ch-doublet.dat
index 0c6d08c..4918748 100644
--- a/c++/symmetry/coefnew/p/p-2ch-doublet.dat
+++ b/c++/symmetry/coefnew/p/p-2ch-doublet.dat
@@ -1,11 +1,11 @@
-{ 1, 1, Invar(-p1), Invar(p1), 1},
-{ 2, 2, Invar(-p1), Invar(p1), 1},
-{ 3, 3, Invar(-p1), Invar(p1), 1},
-{ 4, 4, Invar(-p1), Invar(p1), 1},
-{ 5, 5, Invar(-p1), Invar(p1), 1},
-{ 6, 6, Invar(-p1), Invar(p1), 1},
-{ 7, 7, Invar(-p1), Invar(p1), 1},
-{ 8, 8, Invar(-p1), Invar(p1), 1},
+{ 1, 1, Invar(-p1), Invar(p1), -1},
+{ 2, 2, Invar(-p1), Invar(p1), -1},
+{ 3, 3, Invar(-p1), Invar(p1), -1},
+{ 4, 4, Invar(-p1), Invar(p1), -1},
+{ 5, 5, Invar(-p1), Invar(p1), -1},
+{ 6, 6, Invar(-p1), Invar(p1), -1},
+{ 7, 7, Invar(-p1), Invar(p1), -1},
+{ 8, 8, Invar(-p1), Invar(p1), -1},
 { 9, 9, Invar(p1), Invar(-p1), 1},
 { 10, 10, Invar(p1), Invar(-p1), 1},
 { 11, 11, Invar(p1), Invar(-p1), 1},
diff --git a/c++/symmetry/coefnew/p/p.m b/c++/symmetry/coefnew/p/p.m
index ab44485..484ba25 100644
--- a/c++/symmetry/coefnew/p/p.m
+++ b/c++/symmetry/coefnew/p/p.m
@@ -198,10 +198,10 @@ doall[] := Module[{},
   dodiag[];
   dorecalcf["P"];
 
-  checksignfn[{}] := False;
+  checksignfn[{_}] := False;
   recalcop[{1}, diffsS];
 
-  checksignfn[{}] := True;
+  checksignfn[{_}] := True;
   recalcop[{-1}, diffsD]; (* changes parity! *)
 
   INCLUDEZEROONDIAG = True;
-- 
2.43.0


From f88bf16d1afa4828529c976d4f0694d378085150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 17/31] fix: SPSU2LR: singlet, doublet and triplet operators
 were never carried to the next site (operator quantum numbers failed the
 triangle rule), spectral factors asked for a charge quantum number that does
 not exist

---
 c++/symmetry/nrg-recalc-SPSU2LR.hpp    | 20 ++++++++++----------
 c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4 | 10 +++++-----
 c++/symmetry/sym-SPSU2LR-impl.hpp      |  4 +---
 3 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPSU2LR.hpp b/c++/symmetry/nrg-recalc-SPSU2LR.hpp
index f49dec0..5958766 100644
--- a/c++/symmetry/nrg-recalc-SPSU2LR.hpp
+++ b/c++/symmetry/nrg-recalc-SPSU2LR.hpp
@@ -38,26 +38,26 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1 + 1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletp.dat" << ", Iop=" << Invar(-1, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletp.dat" << ", Iop=" << Invar(2, +1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-doubletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(-1, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, +1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletm.dat" << ", Iop=" << Invar(+1, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletm.dat" << ", Iop=" << Invar(2, +1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-doubletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(+1, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, +1));
     if (cn) cnew[II] = *cn;
   }
 };
@@ -178,39 +178,39 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-triplets.dat" << ", Iop=" << Invar(0, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-triplets.dat" << ", Iop=" << Invar(3, +1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-triplets.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, +1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 + 2, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletp.dat" << ", Iop=" << Invar(-2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletp.dat" << ", Iop=" << Invar(3, +1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-tripletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(-2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, +1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 2, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletm.dat" << ", Iop=" << Invar(+2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletm.dat" << ", Iop=" << Invar(3, +1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-tripletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(+2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, +1));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4 b/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
index f5d9c8b..a1644a0 100644
--- a/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
@@ -17,10 +17,10 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ss1 + 1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletp.dat", Invar(-1, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletp.dat", Invar(2, +1));
 
     Ip = Invar(ss1 - 1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletm.dat", Invar(+1, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletm.dat", Invar(2, +1));
   }
   return cnew;
 }
@@ -65,13 +65,13 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ss1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-triplets.dat", Invar(0, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-triplets.dat", Invar(3, +1));
 
     Ip = Invar(ss1 + 2, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletp.dat", Invar(-2, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletp.dat", Invar(3, +1));
 
     Ip = Invar(ss1 - 2, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletm.dat", Invar(+2, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletm.dat", Invar(3, +1));
   }
   return cnew;
 }
diff --git a/c++/symmetry/sym-SPSU2LR-impl.hpp b/c++/symmetry/sym-SPSU2LR-impl.hpp
index ca3835b..cd7cf20 100644
--- a/c++/symmetry/sym-SPSU2LR-impl.hpp
+++ b/c++/symmetry/sym-SPSU2LR-impl.hpp
@@ -10,7 +10,7 @@ class SymmetrySPSU2LR : public SymLR<SC> {
  public:
    using Matrix = typename traits<SC>::Matrix;
    using t_matel = typename traits<SC>::t_matel;
-   SymmetrySPSU2LR(const Params &P) : SymLR<SC>(P, std::vector{"<Sz^2>"}, Invar(0,1)) {
+   SymmetrySPSU2LR(const Params &P) : SymLR<SC>(P, std::vector{"<Sz^2>"}, Invar(1,1)) {
      initInvar({
         {"SS", additive},     // spin
         {"P", multiplicative} // parity
@@ -32,7 +32,6 @@ class SymmetrySPSU2LR : public SymLR<SC> {
   }
 
   double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
-    check_diff(Ip, I1, "Q", 0);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
@@ -40,7 +39,6 @@ class SymmetrySPSU2LR : public SymLR<SC> {
   }
 
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
-    check_diff(Ip, I1, "Q", 1);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     return (ss1 == ssp + 1 ? S(ssp) + 1.0 : S(ssp));
-- 
2.43.0


From b1dd85eadb77a10d8ba48015d7f24f03dc2aca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 18/31] fix: SPU1LR: doublet and triplet operators were never
 carried to the next site (subspace without its parity)

---
 c++/symmetry/nrg-recalc-SPU1LR.hpp    | 10 +++++-----
 c++/symmetry/nrg-recalc-SPU1LR.hpp.m4 | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPU1LR.hpp b/c++/symmetry/nrg-recalc-SPU1LR.hpp
index dbfc179..113a643 100644
--- a/c++/symmetry/nrg-recalc-SPU1LR.hpp
+++ b/c++/symmetry/nrg-recalc-SPU1LR.hpp
@@ -36,7 +36,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1 + 1);
+    Ip = Invar(ssz1 + 1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-doubletp.dat" << ", Iop=" << Invar(-1, 1) << ")");
@@ -63,7 +63,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1-1);
+    Ip = Invar(ssz1-1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-doubletm.dat" << ", Iop=" << Invar(+1, 1) << ")");
@@ -232,7 +232,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1);
+    Ip = Invar(ssz1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-triplets.dat" << ", Iop=" << Invar(0, 1) << ")");
@@ -259,7 +259,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1+2);
+    Ip = Invar(ssz1+2, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-tripletp.dat" << ", Iop=" << Invar(-2, 1) << ")");
@@ -286,7 +286,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1-2);
+    Ip = Invar(ssz1-2, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-tripletm.dat" << ", Iop=" << Invar(+2, 1) << ")");
diff --git a/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4 b/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
index 6d02649..0fd6cb4 100644
--- a/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
@@ -16,11 +16,11 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1 + 1);
+    Ip = Invar(ssz1 + 1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-doubletp.dat", Invar(-1, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-doubletp.dat", Invar(-1, 1))');
 
-    Ip = Invar(ssz1-1);
+    Ip = Invar(ssz1-1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-doubletm.dat", Invar(+1, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-doubletm.dat", Invar(+1, 1))');
   }
@@ -72,15 +72,15 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1);
+    Ip = Invar(ssz1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-triplets.dat", Invar(0, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-triplets.dat", Invar(0, 1))');
 
-    Ip = Invar(ssz1+2);
+    Ip = Invar(ssz1+2, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-tripletp.dat", Invar(-2, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-tripletp.dat", Invar(-2, 1))');
 
-    Ip = Invar(ssz1-2);
+    Ip = Invar(ssz1-2, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-tripletm.dat", Invar(+2, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-tripletm.dat", Invar(+2, 1))');
   }
-- 
2.43.0


From 4562f7009e3c7dfba5b5c7b6540dfeca0a7f83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 19/31] fix: SPSU2T: doublet operators have two quantum
 numbers, not three

---
 c++/symmetry/nrg-recalc-SPSU2T.hpp    | 24 ++++++++++++------------
 c++/symmetry/nrg-recalc-SPSU2T.hpp.m4 | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPSU2T.hpp b/c++/symmetry/nrg-recalc-SPSU2T.hpp
index 2818c28..ad3cf4c 100644
--- a/c++/symmetry/nrg-recalc-SPSU2T.hpp
+++ b/c++/symmetry/nrg-recalc-SPSU2T.hpp
@@ -41,78 +41,78 @@ MatrixElements<SC> SymmetrySPSU2T<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1 + 1, t1 - 1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp-1.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp-1.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletp-1.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, t1 - 1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm-1.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm-1.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletm-1.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 + 1, t1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp0.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletp0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, t1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm0.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletm0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 + 1, t1 + 1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp+1.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp+1.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletp+1.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, t1 + 1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm+1.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm+1.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletm+1.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-SPSU2T.hpp.m4 b/c++/symmetry/nrg-recalc-SPSU2T.hpp.m4
index a9d3c37..aeaad96 100644
--- a/c++/symmetry/nrg-recalc-SPSU2T.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPSU2T.hpp.m4
@@ -20,22 +20,22 @@ MatrixElements<SC> SymmetrySPSU2T<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     // Two different lengths: D_3CH_a and D_3CH_b
 
     Ip = Invar(ss1 + 1, t1 - 1);
-    RECALC_TAB("spsu2t/spsu2t-doubletp-1.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletp-1.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, t1 - 1);
-    RECALC_TAB("spsu2t/spsu2t-doubletm-1.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletm-1.dat", Invar(2, 1));
 
     Ip = Invar(ss1 + 1, t1);
-    RECALC_TAB("spsu2t/spsu2t-doubletp0.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletp0.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, t1);
-    RECALC_TAB("spsu2t/spsu2t-doubletm0.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletm0.dat", Invar(2, 1));
 
     Ip = Invar(ss1 + 1, t1 + 1);
-    RECALC_TAB("spsu2t/spsu2t-doubletp+1.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletp+1.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, t1 + 1);
-    RECALC_TAB("spsu2t/spsu2t-doubletm+1.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletm+1.dat", Invar(2, 1));
   }
   return cnew;
 }
-- 
2.43.0


From 9b8a1ca946b9b9d4956dfeeddeb09b7e6b08edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 20/31] fix: DBLSU2: doublet operators were never carried to
 the next site; spectral factor lacked the other isospin's multiplicity and
 the second-isospin doublets

---
 c++/symmetry/nrg-recalc-DBLSU2.hpp    | 16 ++++++++--------
 c++/symmetry/nrg-recalc-DBLSU2.hpp.m4 |  8 ++++----
 c++/symmetry/sym-DBLSU2-impl.hpp      | 18 ++++++++++++++----
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-DBLSU2.hpp b/c++/symmetry/nrg-recalc-DBLSU2.hpp
index 8c58253..4557dfd 100644
--- a/c++/symmetry/nrg-recalc-DBLSU2.hpp
+++ b/c++/symmetry/nrg-recalc-DBLSU2.hpp
@@ -38,52 +38,52 @@ MatrixElements<SC> SymmetryDBLSU2<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ii11 - 1, ii21);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletm0.dat" << ", Iop=" << Invar(2, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletm0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doubletm0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11 + 1, ii21);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletp0.dat" << ", Iop=" << Invar(2, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletp0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doubletp0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11, ii21 - 1);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0m.dat" << ", Iop=" << Invar(0, 2) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0m.dat" << ", Iop=" << Invar(1, 2) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doublet0m.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 2));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11, ii21 + 1);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0p.dat" << ", Iop=" << Invar(0, 2) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0p.dat" << ", Iop=" << Invar(1, 2) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doublet0p.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 2));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4 b/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
index 27c052b..966bdca 100644
--- a/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
+++ b/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
@@ -17,16 +17,16 @@ MatrixElements<SC> SymmetryDBLSU2<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ii11 - 1, ii21);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doubletm0.dat", Invar(2, 0));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doubletm0.dat", Invar(2, 1));
 
     Ip = Invar(ii11 + 1, ii21);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doubletp0.dat", Invar(2, 0));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doubletp0.dat", Invar(2, 1));
 
     Ip = Invar(ii11, ii21 - 1);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0m.dat", Invar(0, 2));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0m.dat", Invar(1, 2));
 
     Ip = Invar(ii11, ii21 + 1);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0p.dat", Invar(0, 2));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0p.dat", Invar(1, 2));
   }
   return cnew;
 }
diff --git a/c++/symmetry/sym-DBLSU2-impl.hpp b/c++/symmetry/sym-DBLSU2-impl.hpp
index 4ce5c88..d2e314b 100644
--- a/c++/symmetry/sym-DBLSU2-impl.hpp
+++ b/c++/symmetry/sym-DBLSU2-impl.hpp
@@ -28,13 +28,23 @@ class SymmetryDBLSU2 : public Symmetry<SC> {
   // We always must have I1 >= 0 and I2 >= 0.
   bool Invar_allowed(const Invar &I) const override { return (I.get("II1") > 0) && (I.get("II2") > 0); }
 
-  // TO DO: support for the doublets wrt the second quantum number
+  // This function supports isospin doublets with respect to either the first or the second isospin quantum number.
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ii1p = Ip.get("II1");
     const int ii11 = I1.get("II1");
-    my_assert(std::abs(ii11 - ii1p) == 1);
-    const double isofactor = (ii11 == ii1p + 1 ? ISO(ii1p) + 1.0 : ISO(ii1p));
-    return isofactor;
+    const int ii2p = Ip.get("II2");
+    const int ii21 = I1.get("II2");
+    if (std::abs(ii11 - ii1p) == 1) {
+      my_assert(ii2p == ii21);
+      const double isofactor1 = (ii11 == ii1p + 1 ? ISO(ii1p) + 1.0 : ISO(ii1p));
+      return isofactor1 * ii2p; // multiplicity wrt 2nd isospin quantum number
+    }
+    if (std::abs(ii21 - ii2p) == 1) {
+      my_assert(ii1p == ii11);
+      const double isofactor2 = (ii21 == ii2p + 1 ? ISO(ii2p) + 1.0 : ISO(ii2p));
+      return isofactor2 * ii1p; // multiplicity wrt 1st isospin quantum number
+    }
+    my_assert_not_reached();
   }
 
   void load() override {
-- 
2.43.0


From 042c51371859b9e0243f09109440fb46338dfe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 21/31] fix: SL3: global operator Qtot subtracted the average
 charge of all three channels once per channel

---
 c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat | 48 +++++++++++------------
 c++/symmetry/coefnew/sl3/sl3.m            |  2 +-
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat b/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
index 0a23123..e3d0550 100644
--- a/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
+++ b/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
@@ -1,24 +1,24 @@
-QTOT(1, 1, 0, -3);
-QTOT(2, 2, 0, -3);
-QTOT(3, 3, 0, -3);
-QTOT(4, 4, 0, -3);
-QTOT(5, 5, 0, -2);
-QTOT(6, 6, 0, -2);
-QTOT(7, 7, 0, -2);
-QTOT(8, 8, 0, -2);
-QTOT(1, 1, 1, -3);
-QTOT(2, 2, 1, -3);
-QTOT(3, 3, 1, -2);
-QTOT(4, 4, 1, -2);
-QTOT(5, 5, 1, -3);
-QTOT(6, 6, 1, -3);
-QTOT(7, 7, 1, -2);
-QTOT(8, 8, 1, -2);
-QTOT(1, 1, 2, -3);
-QTOT(2, 2, 2, -2);
-QTOT(3, 3, 2, -3);
-QTOT(4, 4, 2, -2);
-QTOT(5, 5, 2, -3);
-QTOT(6, 6, 2, -2);
-QTOT(7, 7, 2, -3);
-QTOT(8, 8, 2, -2);
+QTOT(1, 1, 0, -1);
+QTOT(2, 2, 0, -1);
+QTOT(3, 3, 0, -1);
+QTOT(4, 4, 0, -1);
+QTOT(5, 5, 0, 0);
+QTOT(6, 6, 0, 0);
+QTOT(7, 7, 0, 0);
+QTOT(8, 8, 0, 0);
+QTOT(1, 1, 1, -1);
+QTOT(2, 2, 1, -1);
+QTOT(3, 3, 1, 0);
+QTOT(4, 4, 1, 0);
+QTOT(5, 5, 1, -1);
+QTOT(6, 6, 1, -1);
+QTOT(7, 7, 1, 0);
+QTOT(8, 8, 1, 0);
+QTOT(1, 1, 2, -1);
+QTOT(2, 2, 2, 0);
+QTOT(3, 3, 2, -1);
+QTOT(4, 4, 2, 0);
+QTOT(5, 5, 2, -1);
+QTOT(6, 6, 2, 0);
+QTOT(7, 7, 2, -1);
+QTOT(8, 8, 2, 0);
diff --git a/c++/symmetry/coefnew/sl3/sl3.m b/c++/symmetry/coefnew/sl3/sl3.m
index 7f82a92..12fbaf7 100644
--- a/c++/symmetry/coefnew/sl3/sl3.m
+++ b/c++/symmetry/coefnew/sl3/sl3.m
@@ -121,7 +121,7 @@ diffsS = { {{0, 0, 0}, FNSINGLET<>".dat"} };
 
 matrixopqtot[i1_, i2_, ch_] := Module[{op, opqtot},
   op = ch2op[ch];
-  opqtot = number[ op[] ] - 3;
+  opqtot = number[ op[] ] - 1;
   matrixop1[i1, i2, opqtot]
 ];
 
-- 
2.43.0


From 3c6554f92ddd5cc232bb08fc89ebfefde1ce432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 22/31] fix: SL with three channels: global operators N1, N2,
 N3 were counted three times

---
 c++/symmetry/coefnew/sl/sl-3ch-N1.dat | 8 --------
 c++/symmetry/coefnew/sl/sl-3ch-N2.dat | 8 --------
 c++/symmetry/coefnew/sl/sl-3ch-N3.dat | 8 --------
 c++/symmetry/coefnew/sl/sl.m          | 6 +++---
 4 files changed, 3 insertions(+), 27 deletions(-)

diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N1.dat b/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
index fca1387..415bad3 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
@@ -2,11 +2,3 @@ N1(1, 1, 0, -1);
 N1(2, 2, 0, -1);
 N1(3, 3, 0, -1);
 N1(5, 5, 0, -1);
-N1(1, 1, 1, -1);
-N1(2, 2, 1, -1);
-N1(3, 3, 1, -1);
-N1(5, 5, 1, -1);
-N1(1, 1, 2, -1);
-N1(2, 2, 2, -1);
-N1(3, 3, 2, -1);
-N1(5, 5, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N2.dat b/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
index aee6d05..da992cf 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
@@ -1,12 +1,4 @@
-N2(1, 1, 0, -1);
-N2(2, 2, 0, -1);
-N2(4, 4, 0, -1);
-N2(6, 6, 0, -1);
 N2(1, 1, 1, -1);
 N2(2, 2, 1, -1);
 N2(4, 4, 1, -1);
 N2(6, 6, 1, -1);
-N2(1, 1, 2, -1);
-N2(2, 2, 2, -1);
-N2(4, 4, 2, -1);
-N2(6, 6, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N3.dat b/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
index 881f742..657ee35 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
@@ -1,11 +1,3 @@
-N3(1, 1, 0, -1);
-N3(3, 3, 0, -1);
-N3(4, 4, 0, -1);
-N3(7, 7, 0, -1);
-N3(1, 1, 1, -1);
-N3(3, 3, 1, -1);
-N3(4, 4, 1, -1);
-N3(7, 7, 1, -1);
 N3(1, 1, 2, -1);
 N3(3, 3, 2, -1);
 N3(4, 4, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl.m b/c++/symmetry/coefnew/sl/sl.m
index 59471b7..65ef148 100644
--- a/c++/symmetry/coefnew/sl/sl.m
+++ b/c++/symmetry/coefnew/sl/sl.m
@@ -108,20 +108,20 @@ matrixopqtot[i1_, i2_, ch_] := Module[{op, opqtot},
 
 matrixopN1[i1_, i2_, ch_] := Module[{op, opqtot},
   op = ch2op[0];
-  opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
+  opqtot = If[ch == 0, number[ op[] ] - 1, 0]; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
   matrixop1[i1, i2, opqtot]
 ];
 
 matrixopN2[i1_, i2_, ch_] := Module[{op, opqtot},
   op = ch2op[1];
-  opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
+  opqtot = If[ch == 1, number[ op[] ] - 1, 0]; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
   matrixop1[i1, i2, opqtot]
 ];
 
 matrixopN3[i1_, i2_, ch_] := Module[{op, opqtot},
   If[ch <= -1 || ch >= 3, Exit[]];
   op = ch2op[2];
-  opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
+  opqtot = If[ch == 2, number[ op[] ] - 1, 0]; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
   matrixop1[i1, i2, opqtot]
 ];
 
-- 
2.43.0


From a439d12b7d0484e76e729986352e1ed7fcae5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 23/31] fix: QSZ, SPSU2: the three-channel tables of the
 raising/lowering triplet components were left out

---
 c++/symmetry/nrg-recalc-QSZ.hpp      | 22 ++++++++++++++++++++++
 c++/symmetry/nrg-recalc-QSZ.hpp.m4   |  4 ++--
 c++/symmetry/nrg-recalc-SPSU2.hpp    | 11 +++++++++++
 c++/symmetry/nrg-recalc-SPSU2.hpp.m4 |  2 +-
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-QSZ.hpp b/c++/symmetry/nrg-recalc-QSZ.hpp
index 6bc2075..d5b58ac 100644
--- a/c++/symmetry/nrg-recalc-QSZ.hpp
+++ b/c++/symmetry/nrg-recalc-QSZ.hpp
@@ -406,6 +406,17 @@ MatrixElements<SC> SymmetryQSZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, con
     auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, -2));
     if (cn) cnew[II] = *cn;
   }
+} } break;
+  case 3: { {
+  nrglog('f', "RECALC(fn=" << "qsz/qsz-3ch-tripletp.dat" << ", Iop=" << Invar(0, -2) << ")");
+  auto II = Twoinvar(I1, Ip);
+  if (this->have_stored_subspaces(diag, I1, Ip)) {
+    std::initializer_list<Recalc<SC>> recalc_table = {
+#include "qsz/qsz-3ch-tripletp.dat"
+    };
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, -2));
+    if (cn) cnew[II] = *cn;
+  }
 } } break;
   default: my_assert_not_reached();
   };
@@ -433,6 +444,17 @@ MatrixElements<SC> SymmetryQSZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, con
     auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, +2));
     if (cn) cnew[II] = *cn;
   }
+} } break;
+  case 3: { {
+  nrglog('f', "RECALC(fn=" << "qsz/qsz-3ch-tripletm.dat" << ", Iop=" << Invar(0, +2) << ")");
+  auto II = Twoinvar(I1, Ip);
+  if (this->have_stored_subspaces(diag, I1, Ip)) {
+    std::initializer_list<Recalc<SC>> recalc_table = {
+#include "qsz/qsz-3ch-tripletm.dat"
+    };
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, +2));
+    if (cn) cnew[II] = *cn;
+  }
 } } break;
   default: my_assert_not_reached();
   };
diff --git a/c++/symmetry/nrg-recalc-QSZ.hpp.m4 b/c++/symmetry/nrg-recalc-QSZ.hpp.m4
index 8843b50..773a7b9 100644
--- a/c++/symmetry/nrg-recalc-QSZ.hpp.m4
+++ b/c++/symmetry/nrg-recalc-QSZ.hpp.m4
@@ -117,12 +117,12 @@ MatrixElements<SC> SymmetryQSZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, con
           `RECALC_TAB("qsz/qsz-3ch-triplets.dat", Invar(0, 0))');
 
     Ip = Invar(q1, ssz1+2);
-    ONETWO(`RECALC_TAB("qsz/qsz-1ch-tripletp.dat", Invar(0, -2))',
+    ONE23(`RECALC_TAB("qsz/qsz-1ch-tripletp.dat", Invar(0, -2))',
            `RECALC_TAB("qsz/qsz-2ch-tripletp.dat", Invar(0, -2))',
            `RECALC_TAB("qsz/qsz-3ch-tripletp.dat", Invar(0, -2))');
 
     Ip = Invar(q1, ssz1-2);
-    ONETWO(`RECALC_TAB("qsz/qsz-1ch-tripletm.dat", Invar(0, +2))',
+    ONE23(`RECALC_TAB("qsz/qsz-1ch-tripletm.dat", Invar(0, +2))',
            `RECALC_TAB("qsz/qsz-2ch-tripletm.dat", Invar(0, +2))',
            `RECALC_TAB("qsz/qsz-3ch-tripletm.dat", Invar(0, +2))');
     }      // loop
diff --git a/c++/symmetry/nrg-recalc-SPSU2.hpp b/c++/symmetry/nrg-recalc-SPSU2.hpp
index 45d7301..7ca8771 100644
--- a/c++/symmetry/nrg-recalc-SPSU2.hpp
+++ b/c++/symmetry/nrg-recalc-SPSU2.hpp
@@ -434,6 +434,17 @@ MatrixElements<SC> SymmetrySPSU2<SC>::recalc_triplet(const DiagInfo<SC> &diag, c
     auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3));
     if (cn) cnew[II] = *cn;
   }
+} } break;
+  case 3: { {
+  nrglog('f', "RECALC(fn=" << "spsu2/spsu2-3ch-tripletm.dat" << ", Iop=" << Invar(3) << ")");
+  auto II = Twoinvar(I1, Ip);
+  if (this->have_stored_subspaces(diag, I1, Ip)) {
+    std::initializer_list<Recalc<SC>> recalc_table = {
+#include "spsu2/spsu2-3ch-tripletm.dat"
+    };
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3));
+    if (cn) cnew[II] = *cn;
+  }
 } } break;
   default: my_assert_not_reached();
   };
diff --git a/c++/symmetry/nrg-recalc-SPSU2.hpp.m4 b/c++/symmetry/nrg-recalc-SPSU2.hpp.m4
index 8c6e5aa..79a1d1b 100644
--- a/c++/symmetry/nrg-recalc-SPSU2.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPSU2.hpp.m4
@@ -112,7 +112,7 @@ MatrixElements<SC> SymmetrySPSU2<SC>::recalc_triplet(const DiagInfo<SC> &diag, c
           `RECALC_TAB("spsu2/spsu2-3ch-tripletp.dat", Invar(3))');
 
     Ip = Invar(ss1-2);
-    ONETWO(`RECALC_TAB("spsu2/spsu2-1ch-tripletm.dat", Invar(3))',
+    ONE23(`RECALC_TAB("spsu2/spsu2-1ch-tripletm.dat", Invar(3))',
            `RECALC_TAB("spsu2/spsu2-2ch-tripletm.dat", Invar(3))',
            `RECALC_TAB("spsu2/spsu2-3ch-tripletm.dat", Invar(3))');
     }
-- 
2.43.0


From 7960a5c5ef0e8897b2824172634b8ae134e5697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 24/31] fix: QSZTZ: triplet operators were never carried to the
 next site (SU(2) operator quantum number in a U(1) spin symmetry)

---
 c++/symmetry/nrg-recalc-QSZTZ.hpp    | 12 ++++++------
 c++/symmetry/nrg-recalc-QSZTZ.hpp.m4 |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-QSZTZ.hpp b/c++/symmetry/nrg-recalc-QSZTZ.hpp
index 7af59fb..7b5ee5b 100644
--- a/c++/symmetry/nrg-recalc-QSZTZ.hpp
+++ b/c++/symmetry/nrg-recalc-QSZTZ.hpp
@@ -220,39 +220,39 @@ MatrixElements<SC> SymmetryQSZTZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, c
 
     Ip = Invar(q1, ssz1, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-triplets.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-triplets.dat" << ", Iop=" << Invar(0, 0, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-triplets.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 0, 0));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(q1, ssz1 + 2, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletp.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletp.dat" << ", Iop=" << Invar(0, -2, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-tripletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, -2, 0));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(q1, ssz1 - 2, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletm.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletm.dat" << ", Iop=" << Invar(0, +2, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-tripletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, +2, 0));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4 b/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
index a2a3f9b..0568c05 100644
--- a/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
+++ b/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
@@ -85,13 +85,13 @@ MatrixElements<SC> SymmetryQSZTZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, c
     Invar Ip;
 
     Ip = Invar(q1, ssz1, tz1);
-    RECALC_TAB("qsztz/qsztz-triplets.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-triplets.dat", Invar(0, 0, 0));
 
     Ip = Invar(q1, ssz1 + 2, tz1);
-    RECALC_TAB("qsztz/qsztz-tripletp.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-tripletp.dat", Invar(0, -2, 0));
 
     Ip = Invar(q1, ssz1 - 2, tz1);
-    RECALC_TAB("qsztz/qsztz-tripletm.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-tripletm.dat", Invar(0, +2, 0));
   }
   return cnew;
 }
-- 
2.43.0


From eeae559233fe99ca3675bd266fe2f56e025f81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 25/31] fix: QST, SPSU2T: susceptibility factors lacked the
 multiplicity of the other SU(2) quantum number

---
 c++/symmetry/sym-QST-impl.hpp    | 6 +++---
 c++/symmetry/sym-SPSU2T-impl.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/symmetry/sym-QST-impl.hpp b/c++/symmetry/sym-QST-impl.hpp
index 0c57e45..b5680af 100644
--- a/c++/symmetry/sym-QST-impl.hpp
+++ b/c++/symmetry/sym-QST-impl.hpp
@@ -39,14 +39,14 @@ class SymmetryQST : public Symmetry<SC> {
 #include "qst/qst-QN.dat"
   } // load
 
-  // Same as for SYMTYPE=QS, because spin operators are angular momentum singlets.
+  // As for SYMTYPE=QS, times the angular momentum multiplicity (spin operators are angular momentum singlets).
   double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
     check_diff(Ip, I1, "Q", 0);
     check_diff(Ip, I1, "T", 0);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
-    return switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+    return (2 * I1.get("T") + 1) * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
   }
 
   double dynamic_orb_susceptibility_factor(const Invar &Ip, const Invar &I1) const override {
@@ -57,7 +57,7 @@ class SymmetryQST : public Symmetry<SC> {
     int ttp        = 2 * tp + 1;
     int tt1        = 2 * t1 + 1;
     my_assert((std::abs(tt1 - ttp) == 2 || tt1 == ttp));
-    return switch3(tt1, ttp + 2, 1. + (ttp - 1) / 3., ttp, ttp / 3., ttp - 2, (-2. + ttp) / 3.);
+    return I1.get("SS") * switch3(tt1, ttp + 2, 1. + (ttp - 1) / 3., ttp, ttp / 3., ttp - 2, (-2. + ttp) / 3.); // times the spin multiplicity
   }
 
   // Creation operator is a spin-doublet, angular-momentum-triplet !
diff --git a/c++/symmetry/sym-SPSU2T-impl.hpp b/c++/symmetry/sym-SPSU2T-impl.hpp
index dccaa65..422093d 100644
--- a/c++/symmetry/sym-SPSU2T-impl.hpp
+++ b/c++/symmetry/sym-SPSU2T-impl.hpp
@@ -38,13 +38,13 @@ class SymmetrySPSU2T : public Symmetry<SC> {
 #include "spsu2t/spsu2t-QN.dat"
   } // load
 
-  // Same as for SYMTYPE=QS, because spin operators are angular momentum singlets.
+  // As for SYMTYPE=QS, times the angular momentum multiplicity (spin operators are angular momentum singlets).
   double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
     check_diff(Ip, I1, "T", 0);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
-    return switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+    return (2 * I1.get("T") + 1) * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
   }
 
   // Creation operator is a spin-doublet, angular-momentum-triplet !
-- 
2.43.0


From 21e27649c1a48bf071e179cf0d80ef5cd14e13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 26/31] fix: ISO, ISO2, ISOLR, ISO2LR, ISOSZ, ISOSZLR: spin
 susceptibility factor lacked the Clebsch-Gordan coefficients and the isospin
 multiplicity

---
 c++/symmetry/sym-ISO-impl.hpp     | 9 +++++++++
 c++/symmetry/sym-ISOLR-impl.hpp   | 9 +++++++++
 c++/symmetry/sym-ISOSZ-impl.hpp   | 6 ++++++
 c++/symmetry/sym-ISOSZLR-impl.hpp | 6 ++++++
 4 files changed, 30 insertions(+)

diff --git a/c++/symmetry/sym-ISO-impl.hpp b/c++/symmetry/sym-ISO-impl.hpp
index cc9804a..e0b46c1 100644
--- a/c++/symmetry/sym-ISO-impl.hpp
+++ b/c++/symmetry/sym-ISO-impl.hpp
@@ -33,6 +33,15 @@ class SymmetryISOcommon : public Symmetry<SC> {
     return isospin_ok && spin_ok;
   }
 
+  // Spin operators are isospin singlets: the factor of SYMTYPE=QS times the isospin multiplicity.
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    const int ssp = Ip.get("SS");
+    const int ss1 = I1.get("SS");
+    my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
+    return I1.get("II") * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
diff --git a/c++/symmetry/sym-ISOLR-impl.hpp b/c++/symmetry/sym-ISOLR-impl.hpp
index 8485b13..33f0f23 100644
--- a/c++/symmetry/sym-ISOLR-impl.hpp
+++ b/c++/symmetry/sym-ISOLR-impl.hpp
@@ -30,6 +30,15 @@ class SymmetryISOLRcommon : public SymLR<SC> {
     return su2_triangle_inequality(I1.get("II"), I2.get("II"), I3.get("II")) && su2_triangle_inequality(I1.get("SS"), I2.get("SS"), I3.get("SS"))
        && z2_equality(I1.get("P"), I2.get("P"), I3.get("P"));
   }
+  // Spin operators are isospin singlets: the factor of SYMTYPE=QS times the isospin multiplicity.
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    const int ssp = Ip.get("SS");
+    const int ss1 = I1.get("SS");
+    my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
+    return I1.get("II") * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
diff --git a/c++/symmetry/sym-ISOSZ-impl.hpp b/c++/symmetry/sym-ISOSZ-impl.hpp
index defb283..9bbbdd7 100644
--- a/c++/symmetry/sym-ISOSZ-impl.hpp
+++ b/c++/symmetry/sym-ISOSZ-impl.hpp
@@ -45,6 +45,12 @@ class SymmetryISOSZ : public SymField<SC> {
       default: my_assert_not_reached();
     }
   }
+  // Spin operators are isospin singlets: the factor is the isospin multiplicity.
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    return I1.get("II");
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     check_abs_diff(Ip, I1, "SSZ", 1);
     const int iip = Ip.get("II");
diff --git a/c++/symmetry/sym-ISOSZLR-impl.hpp b/c++/symmetry/sym-ISOSZLR-impl.hpp
index 82baa3e..5fdd3c1 100644
--- a/c++/symmetry/sym-ISOSZLR-impl.hpp
+++ b/c++/symmetry/sym-ISOSZLR-impl.hpp
@@ -35,6 +35,12 @@ class SymmetryISOSZLR : public SymFieldLR<SC> {
 #include "isoszlr/isoszlr-2ch-In2.dat"
 #include "isoszlr/isoszlr-2ch-QN.dat"
   }
+  // Spin operators are isospin singlets: the factor is the isospin multiplicity.
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    return I1.get("II");
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     check_abs_diff(Ip, I1, "SSZ", 1);
     const int iip = Ip.get("II");
-- 
2.43.0


From f87faab23ef95123ed8baf358c7ee6b3b4153042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 27/31] fix: ISOLR: doublet operators lost their fermionic sign
 on the one-particle and three-particle states of the added site

---
 .../coefnew/isolr/isolr-2ch-doubletmm.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletmp.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletpm.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletpp.dat     | 36 +++++++++----------
 4 files changed, 72 insertions(+), 72 deletions(-)

diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
index 15e5bf6..f218907 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(-1 + ii1, -1 + ss1, -p1), (S(ss1)*(-1 + 2*S(ss1)) + sqrt(-1 + 4*Power(S(ss1),2))*sqrt(1 - 2/(1 + 2*S(ss1))))/sqrt(S(ss1)*(1 + S(ss1))*(-1 + 4*Power(S(ss1),2)))},
 { 4, 5, Invar(ii1, ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), 1/sqrt((1 + S(ss1))*(1 + 2*S(ss1)))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), sqrt((S(ss1)*(3 + 4*S(ss1)*(2 + S(ss1))))/(1 + S(ss1)))/(1 + 2*S(ss1))},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, -2 + ss1, -p1), 1},
-{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), 1/(1 + 2*ISO(ii1))},
-{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), 1/(1 + 2*S(ss1))},
-{ 6, 9, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, -2 + ss1, p1), 1},
-{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), 1/(1 + 2*ISO(ii1))},
-{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), 1/(1 + 2*S(ss1))},
-{ 10, 13, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, -2 + ss1, -p1), -(1)},
+{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -(1/(1 + 2*ISO(ii1)))},
+{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -(1/(1 + 2*S(ss1)))},
+{ 6, 9, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, -2 + ss1, p1), -(1)},
+{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -(1/(1 + 2*ISO(ii1)))},
+{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -(1/(1 + 2*S(ss1)))},
+{ 10, 13, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-3 + ii1, -1 + ss1, p1), sqrt(1/(-1 + 2*ISO(ii1)))*sqrt(-1 + 2*ISO(ii1))},
 { 14, 15, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), sqrt(1/(-ISO(ii1) + 2*Power(ISO(ii1),2)))*sqrt(1 - 2/(1 + 2*ISO(ii1)))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), (ISO(ii1)*(-1 + 2*ISO(ii1)) + sqrt(-1 + 4*Power(ISO(ii1),2))*sqrt(1 - 2/(1 + 2*ISO(ii1))))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(-1 + 4*Power(ISO(ii1),2)))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
index dd25e32..4d44e2c 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), (S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(3 + 4*S(ss1)*(2 + S(ss1))))},
 { 5, 4, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), -(1/sqrt((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 3 + ss1, -p1), 1},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1))},
-{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), 1/(-1 - 2*S(ss1))},
-{ 8, 7, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, 2 + ss1, -p1), 1},
-{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), 1/(1 + 2*ISO(ii1))},
-{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1))},
-{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), 1/(-1 - 2*S(ss1))},
-{ 12, 11, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, 2 + ss1, p1), 1},
-{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), 1/(1 + 2*ISO(ii1))},
-{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1)))},
+{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -(1/(-1 - 2*S(ss1)))},
+{ 8, 7, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, 2 + ss1, -p1), -(1)},
+{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -(1/(1 + 2*ISO(ii1)))},
+{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1)))},
+{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -(1/(-1 - 2*S(ss1)))},
+{ 12, 11, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, 2 + ss1, p1), -(1)},
+{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -(1/(1 + 2*ISO(ii1)))},
+{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-3 + ii1, 1 + ss1, p1), sqrt(1/(-1 + 2*ISO(ii1)))*sqrt(-1 + 2*ISO(ii1))},
 { 14, 15, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), sqrt(1/(-ISO(ii1) + 2*Power(ISO(ii1),2)))*sqrt(1 - 2/(1 + 2*ISO(ii1)))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), (ISO(ii1)*(-1 + 2*ISO(ii1)) + sqrt(-1 + 4*Power(ISO(ii1),2))*sqrt(1 - 2/(1 + 2*ISO(ii1))))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(-1 + 4*Power(ISO(ii1),2)))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
index af0cb79..480eb11 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(1 + ii1, -1 + ss1, -p1), (S(ss1)*(-1 + 2*S(ss1)) + sqrt(-1 + 4*Power(S(ss1),2))*sqrt(1 - 2/(1 + 2*S(ss1))))/sqrt(S(ss1)*(1 + S(ss1))*(-1 + 4*Power(S(ss1),2)))},
 { 4, 5, Invar(ii1, ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), 1/sqrt((1 + S(ss1))*(1 + 2*S(ss1)))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), S(ss1)/sqrt((S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/(3 + 2*S(ss1)))},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), 1/(-1 - 2*ISO(ii1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, -2 + ss1, -p1), 1},
-{ 7, 8, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), 1/(1 + 2*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5)},
-{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), (2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), 1/(-1 - 2*ISO(ii1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, -2 + ss1, p1), 1},
-{ 11, 12, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), 1/(1 + 2*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5)},
-{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), (2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, -2 + ss1, -p1), -(1)},
+{ 7, 8, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -(1/(1 + 2*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5))},
+{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -((2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, -2 + ss1, p1), -(1)},
+{ 11, 12, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), -(1/(1 + 2*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5))},
+{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), -((2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), (-1 + 2*ISO(ii1))*sqrt(-((1 + ISO(ii1))/(ISO(ii1) - 4*Power(ISO(ii1),3))))},
 { 15, 14, Invar(ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), -(1/sqrt(ISO(ii1)*(1 + 2*ISO(ii1))))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(1 + ii1, -1 + ss1, p1), (ISO(ii1)*(3 + 2*ISO(ii1)))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(3 + 4*ISO(ii1)*(2 + ISO(ii1))))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
index 509c6a4..840c2d8 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), (S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(3 + 4*S(ss1)*(2 + S(ss1))))},
 { 5, 4, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), -(1/sqrt((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 3 + ss1, -p1), 1},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 9, 6, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), 1/(-1 - 2*S(ss1))},
-{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), 1/(-1 - 2*ISO(ii1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, 2 + ss1, -p1), 1},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 13, 10, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), 1/(-1 - 2*S(ss1))},
-{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), 1/(-1 - 2*ISO(ii1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, 2 + ss1, p1), 1},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 9, 6, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -(1/(-1 - 2*S(ss1)))},
+{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, 2 + ss1, -p1), -(1)},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 13, 10, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), -(1/(-1 - 2*S(ss1)))},
+{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, 2 + ss1, p1), -(1)},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), (-1 + 2*ISO(ii1))*sqrt(-((1 + ISO(ii1))/(ISO(ii1) - 4*Power(ISO(ii1),3))))},
 { 15, 14, Invar(ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), -(1/sqrt(ISO(ii1)*(1 + 2*ISO(ii1))))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(1 + ii1, 1 + ss1, p1), (ISO(ii1)*(3 + 2*ISO(ii1)))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(3 + 4*ISO(ii1)*(2 + ISO(ii1))))},
-- 
2.43.0


From a9d28d456bae09c79000d0c7251ab82839ae1987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:38 +0000
Subject: [PATCH 28/31] fix: absolute=true: the patching windows of FT and
 DMNRG spectra did not follow the energy scale of the shell

---
 c++/algo_DMNRG.hpp | 4 ++--
 c++/spectrum.hpp   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/algo_DMNRG.hpp b/c++/algo_DMNRG.hpp
index 8ca451c..2404d26 100644
--- a/c++/algo_DMNRG.hpp
+++ b/c++/algo_DMNRG.hpp
@@ -30,8 +30,8 @@ class Algo_DMNRG : public Algo<S> {
     void calc(const Step &step, const Eigen<S> &diagIp, const Eigen<S> &diagI1, const Matrix &op1, const Matrix &op2,
               t_coef factor, const Invar &Ip, const Invar &I1, const DensMatElements<S> &rho, [[maybe_unused]] const Stats<S> &stats) override
     {
-      const auto Emin = step.scale() * P.getEmin();
-      const auto Emax = step.scale() * P.getEmax();
+      const auto Emin = step.energyscale() * P.getEmin();
+      const auto Emax = step.energyscale() * P.getEmax();
       const auto &rhoNIp = rho.at(Ip);
       const auto &rhoNI1 = rho.at(I1);
       const auto nrIpKept = diagIp.getnrkept();
diff --git a/c++/spectrum.hpp b/c++/spectrum.hpp
index 4fbc03d..cb01b9f 100644
--- a/c++/spectrum.hpp
+++ b/c++/spectrum.hpp
@@ -117,9 +117,9 @@ inline double windowfunction(const double E, const double Emin, const double Ex,
 // See R. Bulla, T. A. Costi, D. Vollhardt, Phys. Rev. B 64, 045103 (2001)
 template<scalar S>
 void SpectrumRealFreq<S>::mergeNN2half(Bins<S> &fullspec, const Bins<S> &cs, const Step &step) {
-  const auto Emin = step.scale() * P.getEmin(); // p
-  const auto Ex   = step.scale() * P.getEx();   // p Lambda
-  const auto Emax = step.scale() * P.getEmax(); // p Lambda^2
+  const auto Emin = step.energyscale() * P.getEmin(); // p
+  const auto Ex   = step.energyscale() * P.getEx();   // p Lambda
+  const auto Emax = step.energyscale() * P.getEmax(); // p Lambda^2
   const auto len = fullspec.bins.size();
   my_assert(len == cs.bins.size()); // We require equivalent bin sets!!
   for (const auto i: range0(len)) {
-- 
2.43.0


From 7d77c303c382fe628e1d8e2341f4a9c09b80670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:42 +0000
Subject: [PATCH 29/31] fix: specmoments, intavg: a number of data sets below
 one was accepted and a result made of nothing reported

---
 tools/intavg/intavg.cc           | 5 ++++-
 tools/specmoments/specmoments.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 07e67d1..12923ad 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -64,7 +64,10 @@ void cmd_line(int argc, char *argv[]) {
   }
   name = string(argv[optind]);   // Name of spectral density files
   Nz   = atoi(argv[optind + 1]); // Number of z-values
-  assert(Nz >= 1);
+  if (!(Nz >= 1)) {
+    cerr << "Nz must be greater than or equal to 1." << endl;
+    exit(1);
+  }
 }
 
 string tostring(int i) {
diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 51e1b63..aefddaa 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -104,7 +104,10 @@ void cmd_line(int argc, char *argv[]) {
   }
   name = string(argv[optind]);
   Nz   = atoi(argv[optind + 1]);
-  assert(Nz >= 1);
+  if (!(Nz >= 1)) {
+    cerr << "Nz must be greater than or equal to 1." << endl;
+    exit(1);
+  }
   if (verbose) cout << "Processing: " << name << " Nz=" << Nz << endl;
 }
 
-- 
2.43.0


From e97245d310e089e8ef6c316d2c5eded705e995c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:50 +0000
Subject: [PATCH 30/31] fix: DMNRG spectral functions with complex matrix
 elements: the density matrix entered transposed

---
 c++/algo_DMNRG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/algo_DMNRG.hpp b/c++/algo_DMNRG.hpp
index 2404d26..529ea89 100644
--- a/c++/algo_DMNRG.hpp
+++ b/c++/algo_DMNRG.hpp
@@ -43,13 +43,13 @@ class Algo_DMNRG : public Algo<S> {
       const auto rhoNIp_kept = submatrix_const(rhoNIp, {0, nrIpKept}, {0, nrIpKept});
       const auto rhoNI1_kept = submatrix_const(rhoNI1, {0, nrI1Kept}, {0, nrI1Kept});
       Matrix sumA(nrI1Kept, nrIpKept);
-      gemm_rowmajor<S>(S(1), op2_kept, GemmTranspose::none, rhoNIp_kept, GemmTranspose::transpose, S(0), sumA);
+      gemm_rowmajor<S>(S(1), op2_kept, GemmTranspose::none, rhoNIp_kept, GemmTranspose::none, S(0), sumA);
       Matrix op1_conj(nrI1Kept, nrIpKept);
       for (const auto i : range0(nrI1Kept))
         for (const auto j : range0(nrIpKept))
           op1_conj(i, j) = conj_me(op1_kept(i, j));
       Matrix sumB(nrI1Kept, nrIpKept);
-      gemm_nn<S>(S(1), rhoNI1_kept, op1_conj, S(0), sumB);
+      gemm_rowmajor<S>(S(1), rhoNI1_kept, GemmTranspose::transpose, op1_conj, GemmTranspose::none, S(0), sumB);
 
       for (const auto rj: diagI1.kept())
         for (const auto rm: diagIp.kept()) {
@@ -96,13 +96,13 @@ class Algo_DMNRGmats : public Algo<S> {
        const auto rhoNIp_kept = submatrix_const(rhoNIp, {0, nrIpKept}, {0, nrIpKept});
        const auto rhoNI1_kept = submatrix_const(rhoNI1, {0, nrI1Kept}, {0, nrI1Kept});
         Matrix sumA(nrI1Kept, nrIpKept);
-        gemm_rowmajor<S>(S(1), op2_kept, GemmTranspose::none, rhoNIp_kept, GemmTranspose::transpose, S(0), sumA);
+        gemm_rowmajor<S>(S(1), op2_kept, GemmTranspose::none, rhoNIp_kept, GemmTranspose::none, S(0), sumA);
         Matrix op1_conj(nrI1Kept, nrIpKept);
         for (const auto i : range0(nrI1Kept))
           for (const auto j : range0(nrIpKept))
             op1_conj(i, j) = conj_me(op1_kept(i, j));
         Matrix sumB(nrI1Kept, nrIpKept);
-        gemm_nn<S>(S(1), rhoNI1_kept, op1_conj, S(0), sumB);
+        gemm_rowmajor<S>(S(1), rhoNI1_kept, GemmTranspose::transpose, op1_conj, GemmTranspose::none, S(0), sumB);
 
        const auto term = [this](const auto energy, const auto weightA, const auto weightB, const auto n) {
          if (gt == gf_type::fermionic || n>0 || std::abs(energy) > WEIGHT_TOL) // [[likely]]
-- 
2.43.0


From c1a1e0b90cbee00016912145592b2f45b46955ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:50 +0000
Subject: [PATCH 31/31] fix: absolute=true: G(T), chi(T) and their partition
 functions did not follow the energy scale of the shell

---
 c++/algo_FT.hpp      | 4 ++--
 c++/measurements.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/algo_FT.hpp b/c++/algo_FT.hpp
index 2a6ff34..826905b 100644
--- a/c++/algo_FT.hpp
+++ b/c++/algo_FT.hpp
@@ -126,7 +126,7 @@ class Algo_GT : public Algo<S> {
    void calc(const Step &step, const Eigen<S> &diagIp, const Eigen<S> &diagI1, const Matrix &op1, const Matrix &op2, 
              t_coef factor, const Invar &, const Invar &, const DensMatElements<S> &, const Stats<S> &stats) override 
    {
-     const double temperature = P.gtp * step.scale(); // in absolute units! stats.Zgt is evaluated for this temperature.
+     const double temperature = P.gtp * step.energyscale(); // in absolute units! stats.Zgt is evaluated for this temperature.
      const auto stat_factor = [beta = 1.0/temperature, Z = stats.Zgt](const auto E1, const auto Ep) {
        return beta / (exp(+beta*E1) + exp(+beta*Ep)) * pow(E1 - Ep, n)/Z; // n is template parameter
      };
@@ -168,7 +168,7 @@ class Algo_CHIT : public Algo<S> {
    void calc(const Step &step, const Eigen<S> &diagIp, const Eigen<S> &diagI1, const Matrix &op1, const Matrix &op2,
              t_coef factor, const Invar &, const Invar &, const DensMatElements<S> &, const Stats<S> &stats) override
    {
-     const double temperature = P.chitp * step.scale(); // in absolute units! stats.Zchit is evaluated for this temperature.
+     const double temperature = P.chitp * step.energyscale(); // in absolute units! stats.Zchit is evaluated for this temperature.
      const auto stat_factor = [temperature, Z = stats.Zchit](const auto E1, const auto Ep) {
        return chit_weight(E1, Ep, 1.0/temperature)/Z;
      };
diff --git a/c++/measurements.hpp b/c++/measurements.hpp
index 8476a6c..f674615 100644
--- a/c++/measurements.hpp
+++ b/c++/measurements.hpp
@@ -191,9 +191,9 @@ void calc_Z(const Step &step, Stats<S> &stats, const DiagInfo<S> &diag, MF mult,
   stats.Zft = grand_canonical_Z(step.scT(), diag, mult);
   nrglog('Z', "Z_ft=" << stats.Zft);
   if (std::string(P.specgt) != "" || std::string(P.speci1t) != "" || std::string(P.speci2t) != "")
-    stats.Zgt = grand_canonical_Z(1.0/P.gtp, diag, mult); // exp(-x*gtp)
+    stats.Zgt = grand_canonical_Z(1.0/(P.gtp * step.unscale()), diag, mult); // exp(-x*gtp)
   if (std::string(P.specchit) != "")
-    stats.Zchit = grand_canonical_Z(1.0/P.chitp, diag, mult); // exp(-x*chitp)
+    stats.Zchit = grand_canonical_Z(1.0/(P.chitp * step.unscale()), diag, mult); // exp(-x*chitp)
 }
 
 template<scalar S>
-- 
2.43.0

