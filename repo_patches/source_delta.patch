From 94eecab1ac0206591dd1d67a802211bdcd9a1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 01/19] fix: reject numbers too large for a float instead of
 aborting in the lexer

---
 stl-to-ps/lexer.l | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index b00215c..57eb275 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -32,6 +32,9 @@
 // lexer.yy.cc can't allow include lexer.yy.h so pretend it's already happened
 #define stl2psHEADER_H
 
+#include <cmath>
+#include <cstdlib>
+
 #include "parser/parser_support.h"
 #include "stl-to-ps/ast.h"
 #include "stl-to-ps/gen.lexer.h"
@@ -55,6 +58,12 @@ int stl2psget_column(stl2psscan_t scanner);
     stl2psset_column(col + yyleng, yyscanner);       \
 } while(0);
 
+// Convert the text of a NUM. Fails if the value can't be represented.
+static bool ParseNum(const char* text, float* ret) {
+  *ret = std::strtof(text, nullptr);
+  return std::isfinite(*ret);
+}
+
 extern "C" int stl2pswrap(stl2psscan_t scanner) { return 1; }
 
 void stl2pserror(stl2psscan_t scanner) {
@@ -93,8 +102,8 @@ rad   return T::RAD;
 text  return T::TEXT;
 
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
-[-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-[-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
+[-+]?[0-9]+(\.[0-9]*)?      { if (ParseNum(yytext, &yylval_param->fp)) return T::NUM; stl2pserror(yyscanner); return 256; }
+[-+]?\.[0-9]+               { if (ParseNum(yytext, &yylval_param->fp)) return T::NUM; stl2pserror(yyscanner); return 256; }
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
-- 
2.43.0


From 85ca2f604022110b5fed68cdd83361b8263624fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 02/19] fix: keep string literals with an embedded NUL whole

---
 stl-to-ps/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index 57eb275..5dc2bdf 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -104,7 +104,7 @@ text  return T::TEXT;
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
 [-+]?[0-9]+(\.[0-9]*)?      { if (ParseNum(yytext, &yylval_param->fp)) return T::NUM; stl2pserror(yyscanner); return 256; }
 [-+]?\.[0-9]+               { if (ParseNum(yytext, &yylval_param->fp)) return T::NUM; stl2pserror(yyscanner); return 256; }
-\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
+\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(std::string(yytext, yyleng)); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
 \/\/.*      ;
-- 
2.43.0


From e5250397983f31583cd7d363d6003fb2bf2ba686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 03/19] fix: collect enough points before skipping farther ones
 in Closest

---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 75512ef..1404084 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -88,7 +88,7 @@ std::vector<Eigen::RowVector2d> Closest(
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
     // Skip anything already too far away.
-    if (!c.empty() && d > c.rbegin()->first) continue;
+    if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
     // Check if this point (or one very close to it) has already been collected
     // (if so; reject it).
-- 
2.43.0


From 4ef997dc7220a4aac8d41f73dce73315472600b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 04/19] fix: drop repeats of a point that is exactly on the
 target in Closest

---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 1404084..58c8913 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -94,7 +94,7 @@ std::vector<Eigen::RowVector2d> Closest(
     // (if so; reject it).
     auto r = c.equal_range(d);
     auto pred = [&p, d](const decltype(c)::value_type& i) {
-      return (p - i.second).squaredNorm() < d * .01;
+      return (p - i.second).squaredNorm() <= d * .01;
     };
     if (std::find_if(r.first, r.second, pred) != r.second) continue;
 
-- 
2.43.0


From f0017953519ddf4cd169d46d537cb73cf80ac5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 05/19] fix: reject STL facets that don't have exactly three
 vertexes

---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index b8a184a..6bd2ed9 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -108,6 +108,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
+      } else if (points.size() != 3) {
+        LOG(ERROR) << line_number << ": Expected 3 vertexes in a facet, got "
+                   << points.size();
+        return nullptr;
       } else {
         ret->facets.emplace_back(norm, points);
       }
-- 
2.43.0


From e0bfae71e2b84b92b380f780125d099ce2ea884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 06/19] fix: reject scales that aren't a ratio of positive
 whole numbers

---
 stl-to-ps/parser.y | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 703454c..f0af299 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -30,6 +30,7 @@
 %locations
 
 %{
+#include <limits.h>
 #include <math.h>
 #include <stdio.h>
 #include <string.h>
@@ -54,6 +55,11 @@ int stl2ps_parserlex(stl2ps_parser::parser::semantic_type* o,
                      stl2ps_parser::parser::location_type* l, stl2psscan_t s) {
   return stl2pslex(o, l, s);
 }
+
+// Both parts of a scale are kept as an int and one of them is divided by.
+bool ValidScalePart(float f) {
+  return f >= 1 && f < (float)INT_MAX && f == floorf(f);
+}
 }  // namespace
 
 %}
@@ -134,7 +140,14 @@ arg : ID '=' string_lit
     | ID '=' location
          { $$ = Meta::New<Eigen::RowVector2d>($1, $3, @1).release(); }
     | ID '=' NUM ':' NUM
-         { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }
+         {
+           if (!ValidScalePart($3) || !ValidScalePart($5)) {
+             error(@3 + @5, "a ratio must be of positive whole numbers");
+             delete $1;
+             YYERROR;
+           }
+           $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release();
+         }
     | '@' location
          { $$ = Meta::New<Eigen::RowVector2d>("@", $2, @1).release(); }
     ;
-- 
2.43.0


From cb5fad8d6a559eca49dae558679ee5049b2ca32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 07/19] fix: escape the formatted value in a diameter's raw
 text

---
 stl-to-ps/stl-to-ps.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 0695e7c..d9cff45 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -40,6 +40,7 @@
 #include "absl/log/log.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/str_split.h"
 #include "absl/strings/string_view.h"
 #include "re2/re2.h"
@@ -522,11 +523,15 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
   ps::Text t;
   t.at = at;
   constexpr char kPsDia[] = "\\351";
-  t.str = absl::StrCat(kPsDia, absl::StrFormat(fmt, r * 2));
+  std::string value = absl::StrFormat(fmt, r * 2);
+  // Raw text has to escape whatever came from the user.
+  t.str = absl::StrCat(
+      kPsDia, absl::StrReplaceAll(
+                  value, {{"(", "\\("}, {")", "\\)"}, {"\\", "\\\\"}}));
   t.raw = true;
   t.center = true;
   // Offset for width of text.  TODO deal with left side placements
-  t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() - 2)) / proj.scale;
+  t.at.x() += (ps::kFontSize * 0.3 * (value.length() + 2)) / proj.scale;
 
   AddText({t});
 
-- 
2.43.0


From d59c5e8c92cb4f92f1fd0be78846239b7ae686b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 08/19] fix: keep names with line breaks inside the header's
 comments

---
 stl-to-ps/ps.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 31dfdba..7229608 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -30,6 +30,7 @@
 #include <vector>
 
 #include "absl/flags/flag.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/substitute.h"
 #include "absl/time/clock.h"
 #include "absl/time/time.h"
@@ -52,6 +53,13 @@ std::string Now() {
 }  // namespace impl
 }  // namespace
 
+namespace {
+// A comment ends at the end of its line.
+std::string OneLine(const std::string& s) {
+  return absl::StrReplaceAll(s, {{"\n", " "}, {"\r", " "}, {"\f", " "}});
+}
+}  // namespace
+
 void DocumentHeader(const std::string& src, std::ostream& out) {
   out << absl::Substitute(R"(% generated by stl-to-ps
 % Name: $0
@@ -77,7 +85,8 @@ void DocumentHeader(const std::string& src, std::ostream& out) {
 FontSize scalefont setfont
 % End File Header %%%%%%
 )",
-                          absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)
+                          OneLine(absl::GetFlag(FLAGS_name)), OneLine(src),
+                          impl::Now(), kFontSize)
       << std::endl;
 }
 
-- 
2.43.0


From 4c454df91623e1d37c296b4ee2c77f178ee67ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 09/19] fix: keep the angle between nearly parallel directions
 a number

---
 stl-to-ps/stl-to-ps.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index d9cff45..2443ab8 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -451,7 +451,10 @@ bool DrawToPage::operator()(const Angle& dim) {
   });
 
   ps::Text t;
-  double ang = std::acos(from_dir.dot(to_dir.normalized())) * 180 / geo::PI;
+  // Rounding can put the cosine just outside acos's domain.
+  double cos_ang =
+      std::min(1., std::max(-1., from_dir.dot(to_dir.normalized())));
+  double ang = std::acos(cos_ang) * 180 / geo::PI;
   t.at.x() = at.x();
   t.at.y() = at.y();
   t.str = absl::StrCat(absl::StrFormat(fmt, ang), " deg");
-- 
2.43.0


From 59bb9e38d3fbd1bfc0d071ea017d68188c740f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 10/19] fix: refuse diameters and radii whose direction is zero
 on the page

---
 stl-to-ps/stl-to-ps.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 2443ab8..5cd64a0 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -269,6 +269,11 @@ bool DrawToPage::GetCenter(const BaseDim& dia,
 
   if (!ok) return false;
 
+  if (dir.x() == 0 && dir.y() == 0) {
+    SYM_ERROR(*p_dir) << "'dir' must not be zero on the page";
+    return false;
+  }
+
   Eigen::RowVector2d target = {target3.x(), target3.y()};
 
   // Flatten to 2d
-- 
2.43.0


From 19a049197e8ed78c004440bfe6fc0c5424b1c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 11/19] fix: write a carriage return in a text so that it is
 read back as one

---
 stl-to-ps/ps.cc        | 4 ++++
 stl-to-ps/stl-to-ps.cc | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 7229608..d3a485e 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -154,6 +154,10 @@ void TextToPs(const std::vector<Text>& text, std::ostream& out) { //
             s.push_back('\\');
             s.push_back(c);
             break;
+
+          case '\r':  // Inside a string, this would be read as a newline.
+            s.append("\\r");
+            break;
         }
       }
     }
diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 5cd64a0..45f57a6 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -534,8 +534,10 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
   std::string value = absl::StrFormat(fmt, r * 2);
   // Raw text has to escape whatever came from the user.
   t.str = absl::StrCat(
-      kPsDia, absl::StrReplaceAll(
-                  value, {{"(", "\\("}, {")", "\\)"}, {"\\", "\\\\"}}));
+      kPsDia,
+      absl::StrReplaceAll(
+          value,
+          {{"(", "\\("}, {")", "\\)"}, {"\\", "\\\\"}, {"\r", "\\r"}}));
   t.raw = true;
   t.center = true;
   // Offset for width of text.  TODO deal with left side placements
-- 
2.43.0


From 3484a5751336f0b3bdf160b7fa67162e3a12317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 12/19] fix: refuse a model that could not be read to its end

A read error (or a directory in place of the file) ended the loop as if the
file were complete, so a cut short or empty model was drawn.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 6bd2ed9..dfcae2f 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -130,6 +130,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (in.bad()) {
+    LOG(ERROR) << line_number << ": Failed to read";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From 62d22b877ab659894b43b72bcea8f8ed6aa25bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 13/19] fix: fail when the output could not be written

A full disk left a cut short file and an exit status of success.
---
 stl-to-ps/stl-to-ps-main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index 1345ea0..a56bef1 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
 
   in.close();
   out.close();
+  if (!out) {
+    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
+    return 1;
+  }
 
   return ret ? 0 : 1;
 }
-- 
2.43.0


From 3758c9bc94d740b283498e66183e4ca127aa3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:53 +0000
Subject: [PATCH 14/19] fix: fit circles relative to their points, so that they
 are found far from the origin

---
 stl-to-ps/center.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index c020d22..7d0b5dd 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -44,11 +44,17 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   // X^2 - 2*X*Xc + Xc^2 + Y^2 - 2*Y*Yc + Yc^2 - R^2 = 0
   // X*(Xc) + Y*(Yc) + 1/2*(R^2 - Xc^2 - Yc^2) = (X^2 + Y^2)/2
 
+  // Work relative to the middle of the points; away from the origin the normal
+  // equations are too badly conditioned to be solved.
+  Eigen::RowVector2d mid = {0, 0};
+  for (const auto& p : points) mid += p;
+  mid /= points.size();
+
   Eigen::Matrix<double, Eigen::Dynamic, 3> X(points.size(), 3);
   Eigen::Matrix<double, Eigen::Dynamic, 1> Y(points.size(), 1);
 
   for (size_t i = 0; i < points.size(); i++) {
-    auto p = points[i];
+    Eigen::RowVector2d p = points[i] - mid;
     X(i, 0) = p.x();
     X(i, 1) = p.y();
     X(i, 2) = 0.5;
@@ -58,8 +64,8 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, 3, Eigen::Dynamic> Xt = X.transpose();
   Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
 
-  center->x() = res.x();
-  center->y() = res.y();
+  center->x() = mid.x() + res.x();
+  center->y() = mid.y() + res.y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
   return true;
 }
-- 
2.43.0


From 9cfe8228f1a459a272fc47dea4a2c761316b38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:53 +0000
Subject: [PATCH 15/19] fix: take corners that differ by rounding as one in
 Closest

---
 stl-to-ps/ast.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 58c8913..93df23b 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -90,13 +90,12 @@ std::vector<Eigen::RowVector2d> Closest(
     // Skip anything already too far away.
     if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
-    // Check if this point (or one very close to it) has already been collected
-    // (if so; reject it).
-    auto r = c.equal_range(d);
-    auto pred = [&p, d](const decltype(c)::value_type& i) {
-      return (p - i.second).squaredNorm() <= d * .01;
+    // Check if this point (or one that only differs from it by rounding) has
+    // already been collected (if so; reject it).
+    auto pred = [&p](const decltype(c)::value_type& i) {
+      return (p - i.second).squaredNorm() <= 1e-18;
     };
-    if (std::find_if(r.first, r.second, pred) != r.second) continue;
+    if (std::find_if(c.begin(), c.end(), pred) != c.end()) continue;
 
     c.emplace(d, p);
     // If there are already more than enought points, throw out the last ones.
-- 
2.43.0


From fbc57bbcc9feeca0e7a9355161e041025947e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 16/19] fix: don't draw facets that are seen edge-on but for
 rounding

---
 stl-to-ps/stl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index dfcae2f..caa2089 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -156,7 +156,8 @@ STLFile STLFile::Rotate(const Eigen::Matrix3d& m) const {
 void STLFile::CullBackFace() {
   int i = 0, j = facets.size();
   for (; i < j; i++) {
-    if (facets[i].norm.z() <= 0) swap(facets[i--], facets[--j]);
+    // Rotation can leave facets that are seen edge-on a rounding error off.
+    if (facets[i].norm.z() <= 1e-9) swap(facets[i--], facets[--j]);
   }
   facets.resize(j);
 }
-- 
2.43.0


From e34606e7209ad2b37d181cd543ee04064fb8439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:26 +0000
Subject: [PATCH 17/19] fix: find the crossing at the shared end of two edges
 whatever rounding makes of it

---
 stl-to-ps/stl.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index caa2089..262f187 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -399,11 +399,16 @@ std::vector<std::map<int, Eigen::RowVector3d>> STLFile::EdgeCrosses() const {
       auto j = (-du.y() * x + du.x() * y) * det;
       auto i = (-dv.y() * x + dv.x() * y) * det;
 
-      if (!(0 <= i && i <= 1 && 0 <= j && j <= 1)) {
+      // Edges that share an end cross there, whatever rounding says.
+      const bool first = ev.first == eu.first || ev.first == eu.second;
+      const bool second = ev.second == eu.first || ev.second == eu.second;
+      const bool shared = std::isfinite(det) && (first || second);
+      if (!shared && !(0 <= i && i <= 1 && 0 <= j && j <= 1)) {
         continue;
       }
-      auto pu = eu.first + du * i;
-      auto pv = ev.first + dv * j;
+      Eigen::RowVector3d pu = eu.first + du * i;
+      Eigen::RowVector3d pv = ev.first + dv * j;
+      if (shared) pu = pv = first ? ev.first : ev.second;
 
       if (pu.z() <= pv.z()) hidden_by_list.emplace_back(u, v, pu);
       if (pv.z() <= pu.z()) hidden_by_list.emplace_back(v, u, pv);
-- 
2.43.0


From 12d635a4a88bbf6e550cbd652fafb39230eb920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 18/19] fix: don't hide what lies on a facet when only rounding
 puts it behind

---
 stl-to-ps/stl.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 262f187..2437670 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -209,8 +209,9 @@ std::vector<geo::Line> STLFile::ToLines() const {
       using PD = std::pair<Eigen::RowVector3d, double>;
       PD hidden_points[5];
       int idx = 0;
-      // check if the ends of ev are hidden by f
-      if (ev.first.dot(f.norm) < f.r) {
+      // check if the ends of ev are hidden by f (what only rounding puts behind
+      // it is on it)
+      if (ev.first.dot(f.norm) < f.r - 1e-9) {
         auto v0 = ev.first - f.edge[0];
         auto v1 = ev.first - f.edge[1];
         auto v2 = ev.first - f.edge[2];
@@ -224,7 +225,7 @@ std::vector<geo::Line> STLFile::ToLines() const {
         }
       }
 
-      if (ev.second.dot(f.norm) < f.r) {
+      if (ev.second.dot(f.norm) < f.r - 1e-9) {
         auto v0 = ev.second - f.edge[0];
         auto v1 = ev.second - f.edge[1];
         auto v2 = ev.second - f.edge[2];
-- 
2.43.0


From d1a53efa686b1227a9b3d6c31dc2e9fb8c2a6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 19/19] fix: refuse directions in one line, or nothing on the
 page, though rounding hides it

---
 stl-to-ps/stl-to-ps.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 45f57a6..86beb7b 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -269,7 +269,8 @@ bool DrawToPage::GetCenter(const BaseDim& dia,
 
   if (!ok) return false;
 
-  if (dir.x() == 0 && dir.y() == 0) {
+  // Zero, but for rounding.
+  if (dir.head<2>().squaredNorm() <= 1e-12 * dir.squaredNorm()) {
     SYM_ERROR(*p_dir) << "'dir' must not be zero on the page";
     return false;
   }
@@ -418,7 +419,8 @@ bool DrawToPage::operator()(const Angle& dim) {
   if (!ok) return false;
 
   auto c = to_dir.cross(from_dir);
-  if (c.z() == 0) {
+  // Along one line, but for rounding.
+  if (std::abs(c.z()) < 1e-6) {
     SYM_ERROR(dim) << "Degenerate angle provided.";
     return false;
   }
-- 
2.43.0

