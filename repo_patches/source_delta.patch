From df4ef25973ba9b4206d8748041ac9e82c46df60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 01/50] fix: ParameterList assignment replaces the target
 instead of merging into it

operator= left the old parameters and sublists of the target in place, and
assigning from (or importing) a list's own sublist read it while changing it.
---
 src/core/ekat_parameter_list.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index fd07ebf..cf1331e 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -21,14 +21,11 @@ ParameterList (const ParameterList& src)
 ParameterList& ParameterList::operator= (const ParameterList& src)
 {
   if (this!=&src) {
-    m_name = src.m_name;
-    for (const auto& [name,p] : src.m_params) {
-      m_params[name] = p;
-    }
-
-    for (const auto& [name,sl] : src.m_sublists) {
-      m_sublists[name] = sl;
-    }
+    // Copy first, since src may be one of our sublists (or contain this list)
+    ParameterList tmp(src);
+    m_name.swap(tmp.m_name);
+    m_params.swap(tmp.m_params);
+    m_sublists.swap(tmp.m_sublists);
   }
   return *this;
 }
@@ -72,10 +69,18 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
 
 void ParameterList::import (const ParameterList& src)
 {
-  for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+  // Copy first, since src may be one of our sublists (or contain this list)
+  const ParameterList tmp(src);
+  for (const auto& [name,sl] : tmp.m_sublists) {
+    auto it = m_sublists.find(name);
+    if (it==m_sublists.end()) {
+      m_sublists[name] = sl;
+    } else {
+      it->second.import(sl);
+      it->second.rename(sl.name());
+    }
   }
-  for (const auto& [name,p] : src.m_params) {
+  for (const auto& [name,p] : tmp.m_params) {
     m_params[name] = p;
   }
 }
-- 
2.43.0


From 10ce36e5088110c7c71fd61eb320b3d36b92d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 02/50] fix: trim does not read past the end when trimming '\0'

---
 src/core/ekat_string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 656acdf..579fc11 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -40,11 +40,11 @@ std::string trim (const std::string& s, const char c) {
   if (s=="") {
     return s;
   }
+  int size = s.size();
   int nl = 0;
-  while (s[nl] == c) {
+  while (nl<size && s[nl] == c) {
     ++nl;
   }
-  int size = s.size();
   int nt = 0;
   while (nt<size && s[size-nt-1] == c) {
     ++nt;
-- 
2.43.0


From 1c164faaae718af7232bfd1b96ada19834d698fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 03/50] fix: jaccard_similarity counts repeated tokens once in
 the union

The union was computed from the lists of tokens rather than from the sets, so
that repeated tokens lowered the index, and no tokens at all gave NaN.
---
 src/core/ekat_string_utils.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 579fc11..cb60c99 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -460,9 +460,6 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
     // We already took care of the case were we don't tokenize either one,
     // so we can be sure tokenize_s2 is true.
     // S2 is a single token
-      if (s2=="zenith_angle") {
-        printf("zenith_angle\n");
-      }
     s1_tokens.push_back(s1);
     s2_tokens = gather_tokens(s2, delimiters, s1);
   }
@@ -479,8 +476,10 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
   // The Jaccard index is the ratio of the size of the intersection to that
   // of the union.
   double int_size = static_cast<double>(s_intersection.size());
-  double un_size = static_cast<double>(s1_tokens.size() + s2_tokens.size() - int_size);
-  return int_size / un_size;
+  double un_size = static_cast<double>(s1_set.size() + s2_set.size() - s_intersection.size());
+
+  // Two empty sets of tokens are equal
+  return un_size==0 ? 1.0 : int_size / un_size;
 }
 
 // ===================== Case Insensitive String ================== //
-- 
2.43.0


From dba1f730eb720123b26656690cea62112d198531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 04/50] fix: gather_tokens finds every delimited occurrence of
 the atomic token

Only the first occurrence was considered; one at the end of the string lost
part of what followed the previous token, and erasing an occurrence could join
the text around it.
---
 src/core/ekat_string_utils.cpp | 69 +++++++++++-----------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index cb60c99..c2a173c 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -363,56 +363,29 @@ std::list<std::string> gather_tokens(const std::string& s,
   }
 
   if (atomic!="") {
-    auto pos = s.find(atomic);
-    if (pos==std::string::npos) {
-      // The atomic string wasn't found.
-      return gather_tokens(s,delimiters,"");
-    }
-    // The atomic string was found. Add it as a token, then remove if from
-    // the input string, and run again on what's left.
-    // But first, we need to check that the string is delimited left and right
-    // by a delimiter (or string boundaries), otherwise it doesn't count.
-    auto slen = s.size();
-    auto alen = atomic.size();
-
-    // These lambda implement exactly what you think they do,
-    // but are more verbose than the corresponding checks when used.
-    auto at_s_start = [&] () -> bool {
-      return pos==0;
-    };
-    auto at_s_end = [&] () -> bool {
-      return (pos+alen)==slen;
-    };
-    auto delim_before = [&] () -> bool {
-      return s.find_first_of(delim_str,pos-1)==(pos-1);
+    // Look for occurrences of the atomic string. Those delimited both left and
+    // right (by a delimiter or string boundaries) are tokens, the others don't count.
+    // Each time we find a token, gather also the tokens in what precedes it.
+    auto is_delim = [&] (const std::size_t i) -> bool {
+      return delim_str.find(s[i])!=std::string::npos;
     };
-    auto delim_after = [&] () -> bool {
-      return s.find_first_of(delim_str,pos+alen)==(pos+alen);
-    };
-
-    if ( !at_s_start() && !delim_before() ) {
-      // The atomic string is not at the start of s, but it is
-      // not preceeded by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
-    } else if ( !at_s_end() && !delim_after() ) {
-      // The atomic string is not at the end of s, but it is
-      // not followed by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
+    std::size_t start = 0;
+    auto found = s.find(atomic);
+    while (found!=std::string::npos) {
+      const auto end = found + atomic.size();
+      const bool delim_before = found==0 || is_delim(found-1);
+      const bool delim_after  = end==s.size() || is_delim(end);
+      if (delim_before && delim_after) {
+        // Note: splice is better than manual push back, since it only moves a couple of ptrs.
+        all_tokens.splice(all_tokens.end(),gather_tokens(s.substr(start,found-start),delimiters,""));
+        all_tokens.push_back(atomic);
+        start = end;
+        found = s.find(atomic,end);
+      } else {
+        found = s.find(atomic,found+1);
+      }
     }
-
-    // If we didn't hit any of the previous return statements, then the atomic
-    // substring was found, and it is a sub-token.
-    all_tokens.push_back(atomic);
-
-    std::string s_mod(s);
-    auto erase_begin = at_s_start() ? 0 : pos-1;
-    auto erase_len   = delim_after() ? alen+1 : alen;
-    s_mod.erase(erase_begin,erase_len);
-
-    // Note: splice is better than manual push back, since it only moves a couple of ptrs.
-    all_tokens.splice(all_tokens.end(),gather_tokens(s_mod,delimiters,atomic));
+    all_tokens.splice(all_tokens.end(),gather_tokens(s.substr(start),delimiters,""));
     return all_tokens;
   }
 
-- 
2.43.0


From d188ca4f4e4b29db5f9a23805b71b42b9d85f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 05/50] fix: valid_nested_list_format rejects text after a
 closing bracket

Strings like '[a],[b]' or '[[a]b]' were accepted, and entries were lost or
split when parsing them.
---
 src/core/ekat_string_utils.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index c2a173c..0e9e521 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -179,6 +179,22 @@ bool valid_nested_list_format (const std::string& str)
       --num_open;
     }
 
+    // After a close, we need a comma or another close, right away
+    if (last_match==close && pos!=start) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' contains an entry right after a close.\n";
+#endif
+      return false;
+    }
+
+    // The outermost list must end at the end of the string
+    if (num_open==0 && pos+1!=str.size()) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' continues after the end of the list.\n";
+#endif
+      return false;
+    }
+
     // Cannot close more than you open
     if (num_open<0) {
 #ifdef DEBUG_OUTPUT
-- 
2.43.0


From 70a66a41c588ad20382606eafc5340fcd3c4bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 06/50] fix: rational constants with negative denominator keep
 their sign

The sign of a negative denominator was dropped instead of moved to the numerator: 1/-2 became 1/2.
---
 src/core/ekat_rational_constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 345ac95..e15e279 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -155,7 +155,7 @@ private:
   static constexpr iType fix_num(const iType n, const iType d) {
     if (d==0)
       throw std::invalid_argument("[RationalConstant] Cannot divide by 0");
-    return n==0 ? n : n / gcd(abs(n),abs(d));
+    return d<0 ? fix_num(-n,-d) : (n==0 ? n : n / gcd(abs(n),abs(d)));
   }
 
   static constexpr iType fix_den(const iType n, const iType d) {
-- 
2.43.0


From bef6ce1b218747ba55f16d3dcfcd7a78ead7a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 07/50] fix: integer powers of a zero rational constant

The recursion ended at exponent 0 of the repeatedly squared base, so 0^p threw as if it were 0^0
(and the needless last squaring could overflow). End it at exponent 1.
---
 src/core/ekat_rational_constant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index e15e279..965201c 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -213,6 +213,8 @@ pow (const RationalConstant& x, const IntType p) {
       throw std::invalid_argument("[RationalConstant] Cannot compute 0^0.");
 
     return RationalConstant::one();
+  } else if (p==1) {
+    return x;
   } else {
     return (p&1)!=0 ? x*pow(x*x,p>>1) : pow(x*x,p>>1);
   }
-- 
2.43.0


From 26c5e0cc31dca1052bb3c414bcec62759c82b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 08/50] fix: character representation of negative or large
 rational constants

The number of digits of a negative number was always taken to be one, and digits were
extracted with int arithmetic.
---
 src/core/ekat_rational_constant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 965201c..885c98b 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -81,7 +81,7 @@ struct RationalConstant {
   {
     std::array<char,N> s = {'\0'};
     int pos = 0;
-    int nd_num = ndigits(num);
+    int nd_num = ndigits(num<0 ? -num : num);
     int nd_den = ndigits(den);
 
     assert (N>(nd_num+nd_den+(num<0 ? 1 : 0)));
@@ -89,7 +89,7 @@ struct RationalConstant {
     if (num<0) {
       s[pos++] = '-';
     }
-    int absnum = num<0 ? -num : num;
+    iType absnum = num<0 ? -num : num;
     for (int i=(nd_num-1); i>=0; --i) {
       s[pos++] = digit2char(get_digit(absnum,i));
     }
@@ -142,8 +142,8 @@ private:
     return n<10 ? 1 : 1 + ndigits(n/10);
   }
 
-  static constexpr int get_digit(int n, int ten_pow_exp) {
-    int ten_pow = 1;
+  static constexpr int get_digit(iType n, int ten_pow_exp) {
+    iType ten_pow = 1;
     for (int i=0; i<ten_pow_exp; ++i) {
       ten_pow *= 10;
     }
-- 
2.43.0


From 4cf0358f032ce5ed1dfb0c865fa3fcf7dbef1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 09/50] fix: character representation of the exponent of a
 scaling factor

The exponent was copied with the length of the base.
---
 src/core/ekat_scaling_factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index ad0fe16..1363a35 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -74,7 +74,7 @@ struct ScalingFactor {
       if (e_den_or_neg) {
         out[pos++] = '(';
       }
-      for (int i=0; i<sz1; ++i) {
+      for (int i=0; i<sz2; ++i) {
         out[pos++] = e_repr[i];
       }
       if (e_den_or_neg) {
-- 
2.43.0


From 2bd43478e2ef55ef7322057917070cd0b50a67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 10/50] fix: parenthesize fractional bases when printing
 scaling factors

(1/2)^3 was printed as 1/2^3, which denotes 1/8 only by chance and (2/3)^2 as 2/3^2.
---
 src/core/ekat_scaling_factor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index 1363a35..04ec2ae 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -87,6 +87,9 @@ struct ScalingFactor {
   inline std::string to_string(const Format fmt = Format::Rat) const {
     std::string s = base.to_string(fmt);
     if (exp!=RationalConstant::one()) {
+      if (base.num<0 or (base.den!=1 and fmt==Format::Rat)) {
+        s = '(' + s + ')';
+      }
       s +=  '^';
       if (exp.den!=1 and fmt==Format::Rat) {
         s+= '(';
-- 
2.43.0


From 010f1e6a56d1adf026adbe456ae97416dd9fc360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 11/50] fix: reading YAML numbers that do not fit the detected
 type

Integers out of the range of int, strings like --5, and denormal numbers were detected as numbers, but
their conversion threw. Now they are read as double, string, and double respectively.
---
 src/parser/ekat_yaml.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index be392c4..4c2b0c2 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -28,12 +28,17 @@ bool is_type<bool> (const std::string& s) {
 }
 template<>
 bool is_type<int> (const std::string& s) {
-  if (s.size()==0) return false;
-  if (s[0]=='-') {
-    return is_type<int>(s.substr(1));
+  // Optional minus sign, followed by digits only
+  const size_t start = (s.size()>0 and s[0]=='-') ? 1 : 0;
+  if (s.size()==start or s.find_first_not_of("0123456789",start)!=std::string::npos) {
+    return false;
   }
 
-  return s.find_first_not_of("0123456789")==std::string::npos;
+  // The value must fit in an int
+  std::istringstream is(s);
+  int i;
+  is >> i;
+  return !is.fail();
 }
 
 template<>
@@ -67,7 +72,11 @@ int str2type<int> (const std::string& s) {
 }
 template<>
 double str2type<double> (const std::string& s) {
-  return std::stod(s);
+  // Same conversion as in is_type<double>. Unlike stod, it does not throw on denormals
+  std::istringstream is(s);
+  double d = 0;
+  is >> d;
+  return d;
 }
 template<>
 std::string str2type<std::string> (const std::string& s) {
-- 
2.43.0


From 6e7f7d7c81807c37203963222f8c15207287a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 12/50] fix: writing doubles in scientific notation to YAML

Trailing zeros were clipped from the exponent too, so that 1e20 was written as 1e+2. Also, numbers
beyond the range of int were cast to int (undefined behavior), to add decimals that showpoint always adds.
---
 src/parser/ekat_yaml.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 4c2b0c2..6791231 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -4,6 +4,7 @@
 
 #include <yaml-cpp/yaml.h>
 
+#include <algorithm>
 #include <sstream>
 #include <fstream>
 #include <iomanip>
@@ -262,19 +263,20 @@ template<>
 std::string write_param<double> (const double& d) {
   std::stringstream ss;
   ss << std::showpoint << std::setprecision(14) << d;
-  if (d==static_cast<int>(d) and ss.str().find('.')==std::string::npos) {
-    ss << ".0";
-  }
 
   // Clip trailing 0's, but ensure that there is AT LEAST one decimal digit
   auto s = ss.str();
   auto start = s.find('.');
-  auto last_nnz = s.substr(start+2).find_last_not_of('0');
-  if (last_nnz==std::string::npos) {
-    // No nonzeros after the 1st decimal digit. Truncate
-    return s.substr(0,start+2);
+  if (start==std::string::npos) {
+    // Not a finite number
+    return s;
   }
-  return s.substr(0,start+2+last_nnz+1);
+  // Do not touch the exponent (if any)
+  auto exp_pos = s.find('e');
+  auto exp = exp_pos==std::string::npos ? "" : s.substr(exp_pos);
+  auto digits = s.substr(0,exp_pos);
+  auto last_nnz = digits.find_last_not_of('0');
+  return digits.substr(0,std::max(start+2,last_nnz+1)) + exp;
 }
 template<>
 std::string write_param<char> (const char& t) {
-- 
2.43.0


From d894abd6f2ce2e6350ed15c9a25e1b1505d8df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 13/50] fix: strings keep their type and value when written to
 YAML and read back

Strings that look like a bool or a number were written without quotes, and so read back as bool or number.
Moreover, the parser ignored the quotes of strings in a sequence, and the literal style used for
strings with several lines lost or added newlines at their end and could not be parsed for leading blanks.
---
 src/parser/ekat_yaml.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 6791231..5413b3d 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -91,6 +91,11 @@ bool is_seq (const YAML::Node& node) {
   int n = node.size();
   for (int i=0; i<n; ++i) {
     std::string str = node[i].as<std::string>();
+    const auto& tag = node[i].Tag();
+    if (tag=="!" or tag=="!!str" or tag=="tag:yaml.org,2002:str") {
+      // Quoted (or tagged) strings are strings, whatever they look like
+      return std::is_same<T,std::string>::value;
+    }
     if (not is_type<T>(str)) {
       return false;
     }
@@ -283,6 +288,26 @@ std::string write_param<char> (const char& t) {
   return (t ? "true" : "false");
 }
 
+// Write a string in a way that the parser reads back as the same string
+void write_string (const std::string& s, YAML::Emitter& out, const bool allow_literal) {
+  // A literal block keeps the text as is, except for leading blanks, trailing newlines (must be exactly one),
+  // and characters that need escaping
+  auto needs_escape = [](const char c) { return (c>=0 and c<' ' and c!='\n') or c==127; };
+  const auto n = s.size();
+  const bool literal_ok = allow_literal and n>1 and s[n-1]=='\n' and s[n-2]!='\n' and s[0]!=' ' and s[0]!='\n' and
+                          std::find_if(s.begin(),s.end(),needs_escape)==s.end();
+  if (s.find('\n')!=std::string::npos) {
+    if (literal_ok)
+      out << YAML::Literal; // Use Literal for multiline
+    else
+      out << YAML::DoubleQuoted;
+  } else if (is_type<bool>(s) or is_type<int>(s) or is_type<double>(s)) {
+    // Without quotes, the parser would not interpret this as a string
+    out << YAML::DoubleQuoted;
+  }
+  out << s;
+}
+
 void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
   // Helper lambda, to try all possible value types, return whether we found the type
   auto try_values = [&](const std::string& pname) -> bool {
@@ -298,9 +323,7 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     } else if (params.isType<std::string>(pname)) {
       auto v = params.get<std::string>(pname);
       out << YAML::Key << pname << YAML::Value;
-      if (v.find('\n') != std::string::npos)
-        out << YAML::Literal; // Use Literal for multiline
-      out << v;
+      write_string(v,out,true);
     } else {
       // No match
       return false;
@@ -333,7 +356,10 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     // Note: all but one of the vectors above will be empty, so write will do nothing for all but one
     auto write = [&](auto vec) {
       for (auto e : vec) {
-        out << write_param(e);
+        if constexpr (std::is_same<decltype(e),std::string>::value)
+          write_string(e,out,false);
+        else
+          out << write_param(e);
       }
     };
 
-- 
2.43.0


From f8345c1df0245bea6a08c4402d47ca0d37d4d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 14/50] fix: reject YAML nodes that contain an alias to
 themselves

They caused an infinite recursion in the parser.
---
 src/parser/ekat_yaml.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 5413b3d..e7cae93 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -8,6 +8,7 @@
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <vector>
 
 namespace ekat {
 
@@ -233,6 +234,22 @@ void parse_node<YAML::NodeType::Map> (
   }
 }
 
+// An alias inside the node that it refers to yields a node that contains itself
+void check_no_cycles (const YAML::Node& node, std::vector<YAML::Node>& parents)
+{
+  if (not node.IsMap() and not node.IsSequence()) {
+    return;
+  }
+  for (const auto& p : parents) {
+    EKAT_REQUIRE_MSG (not node.is(p), "Error! YAML node contains an alias to itself.\n");
+  }
+  parents.push_back(node);
+  for (const auto& it : node) {
+    check_no_cycles (node.IsMap() ? it.second : it, parents);
+  }
+  parents.pop_back();
+}
+
 ParameterList parse_yaml_file (const std::string& fname) {
   ParameterList params;
   parse_yaml_file(fname,params);
@@ -246,6 +263,9 @@ void parse_yaml_file (const std::string& fname, ParameterList& params) {
   } catch (YAML::BadFile&) {
     EKAT_ERROR_MSG ("Error! Something went wrong while opening file " + fname + "'.\n");
   }
+  std::vector<YAML::Node> parents;
+  check_no_cycles (root,parents);
+
   ParameterList temp(params.name());
   parse_node<YAML::NodeType::Map> (root, temp.name(), temp);
   params = temp.sublist(params.name());
-- 
2.43.0


From 6f46b35dfdc270f1b0b20959301c776e111841a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 15/50] fix: case-insensitive booleans in YAML sequences

[True] was detected as a sequence of bools, but read as false.
---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index e7cae93..7853916 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -66,7 +66,7 @@ bool str2type<bool> (const std::string& s) {
 }
 template<>
 char str2type<char> (const std::string& s) {
-  return (s=="true" || s=="TRUE") ? 1 : 0;
+  return str2type<bool>(s) ? 1 : 0;
 }
 template<>
 int str2type<int> (const std::string& s) {
-- 
2.43.0


From 46942d975cfcb955c83db87603ebe0c35e4a4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 16/50] fix: resetting the communicator in the build without
 MPI

The stored MPI_Comm was not updated.
---
 src/core/ekat_comm_serial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_comm_serial.cpp b/src/core/ekat_comm_serial.cpp
index 7438db1..9e4d66d 100644
--- a/src/core/ekat_comm_serial.cpp
+++ b/src/core/ekat_comm_serial.cpp
@@ -19,8 +19,9 @@ Comm::Comm(MPI_Comm mpi_comm)
 {
 }
 
-void Comm::reset_mpi_comm (MPI_Comm /* new_mpi_comm */)
+void Comm::reset_mpi_comm (MPI_Comm new_mpi_comm)
 {
+  m_mpi_comm = new_mpi_comm;
 }
 
 void Comm::barrier () const
-- 
2.43.0


From 352bcb378492459768163120214d7252a6e6f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 17/50] fix: dereferencing a non-const map key iterator

Keys of a map are const, so the dereference operators did not compile.
---
 src/core/ekat_std_map_key_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_std_map_key_iterator.hpp b/src/core/ekat_std_map_key_iterator.hpp
index 979acbf..a16f248 100644
--- a/src/core/ekat_std_map_key_iterator.hpp
+++ b/src/core/ekat_std_map_key_iterator.hpp
@@ -32,8 +32,8 @@ public:
   using iterator_category = std::bidirectional_iterator_tag;
   using difference_type   = std::ptrdiff_t;
   using value_type        = Key;
-  using pointer           = value_type*;
-  using reference         = value_type&;
+  using pointer           = const value_type*;
+  using reference         = const value_type&;
 
   using map_iterator = typename std::map<Key,Value>::iterator;
 
-- 
2.43.0


From c796221c134c3ac77d015ccc03f7e5bbbb1fde4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 18/50] fix: single-valued test arguments that get more values
 in a later call

The first value was left in params, although params entries have length 1 in vec_params.
---
 src/core/ekat_test_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_test_utils.cpp b/src/core/ekat_test_utils.cpp
index 610f40e..4b02fc4 100644
--- a/src/core/ekat_test_utils.cpp
+++ b/src/core/ekat_test_utils.cpp
@@ -114,6 +114,9 @@ parse_test_args (const std::vector<char*>& args)
   for (const auto& it : vec_params) {
     if (it.second.size()==1) {
       params[it.first] = it.second[0];
+    } else {
+      // It may have had length 1 in a previous call
+      params.erase(it.first);
     }
   }
 }
-- 
2.43.0


From 2a3af32b32b5c34421b9eb409d336f94925a5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 19/50] fix: factories with keys that are not strings

The error message of create concatenated the key to a string, so that create did not compile for other
types of keys, although the factory caters for them (even for types that cannot be printed).
---
 src/core/ekat_factory.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_factory.hpp b/src/core/ekat_factory.hpp
index 1803150..cb44534 100644
--- a/src/core/ekat_factory.hpp
+++ b/src/core/ekat_factory.hpp
@@ -65,6 +65,16 @@ public:
   void clean_up () { m_register.clear(); }
 
 private:
+  static std::string print_key (const key_type& key) {
+    std::stringstream ss;
+    if constexpr (StreamExists<key_type>::value==1) {
+      ss << key;
+    } else {
+      ss << "(not printable key of type " << typeid(key_type).name() << ")";
+    }
+    return ss.str();
+  }
+
   std::string print_registered_products () const {
     return print_registered_products_impl<StreamExists<key_type>::value>();
   }
@@ -140,7 +150,7 @@ create (const key_type& key,ConstructorArgs&& ...args)
   // Check that the requested product is registered
   EKAT_REQUIRE_MSG(it!=m_register.end(),
                      "[" + m_factory_name + "] Error!\n"
-                     "        The key '" + key + "' is not associated to any registered product.\n"
+                     "        The key '" + print_key(key) + "' is not associated to any registered product.\n"
                      "        The list of registered product is: " + print_registered_products() + "\n"
                      "        Did you forget to register it?\n");
 
-- 
2.43.0


From 5897f94483a72d5ae9f6eb078c26926462e8c927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 20/50] fix: pack op= scalar when the scalar is one of the
 pack's entries

The scalar was taken by reference, so that in, e.g., p -= p[0] or
p.set(m,p[1],p[0]) it changed while the entries of p were being updated.
---
 src/pack/ekat_pack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 0217263..1f9e5e8 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -207,7 +207,7 @@ bool operator == (const Mask<n>& m1, const Mask<n>& m2) {
     std::is_constructible<scalar,S>::value,                 \
     Pack&                                                   \
   >                                                         \
-  operator op (const S& a) {                                \
+  operator op (const S a) {                                 \
     vector_simd for (int i = 0; i < n; ++i) d[i] op a;      \
     return *this;                                           \
   }
@@ -319,7 +319,7 @@ struct Pack {
   }
 
   KOKKOS_FORCEINLINE_FUNCTION
-  Pack& set (const Mask<n>& mask, const scalar& v_true, const scalar& v_false) {
+  Pack& set (const Mask<n>& mask, const scalar v_true, const scalar v_false) {
     vector_simd
     for (int i = 0; i < n; ++i) {
       if (mask[i])
-- 
2.43.0


From 53556a60ee38637a7af9acddb64e28b1144f60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:53 +0000
Subject: [PATCH 21/50] fix: index_and_shift sets the unshifted value when the
 shifted index is out of bounds

In debug builds the lanes where k+Shift is out of bounds were skipped
altogether, so that index[i] kept its old value rather than a(k).
---
 src/pack/ekat_pack_kokkos.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index dc57138..b84e6d3 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -90,10 +90,14 @@ index_and_shift (const Array1& a, const IdxPack& i0, Pack<typename Array1::non_c
     const auto i0i = i0[i];
 #ifndef NDEBUG
     // We don't want to trigger kokkos OOB errors if they are on
-    if ((i0i+Shift) < 0 || (i0i+Shift)>=static_cast<int>(a.size())) continue;
-#endif
+    const int size = static_cast<int>(a.size());
+    if (i0i>=0 && i0i<size) index[i] = a(i0i);
+    if ((i0i+Shift) < 0 || (i0i+Shift)>=size) continue;
+    index_shift[i] = a(i0i + Shift);
+#else
     index[i]       = a(i0i);
     index_shift[i] = a(i0i + Shift);
+#endif
   }
 }
 
-- 
2.43.0


From 0fb6fd0e205cbe806c6b1dc28b720ecb12ad277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 22/50] fix: reject views that scalarize and repack cannot
 represent

The returned view was built from the data pointer and the extents only,
so that for views with strides (e.g., those returned by subview_1) or
with the first index running fastest its entries were not those of the
input view. Stop with an error instead.
---
 src/pack/ekat_pack_kokkos.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index b84e6d3..596decf 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -167,8 +167,24 @@ adj_diff(const Kokkos::View<ScalarT*,Props...>& v, int index)
   return adj_diff<Forward>(v,index,v.size());
 }
 
+// Whether the entries of a View are stored contiguously, with the last index
+// running fastest. Views obtained by slicing (e.g., with subview_1) may not be.
+template<typename DT, typename... Props>
+KOKKOS_INLINE_FUNCTION
+bool is_row_major (const Kokkos::View<DT,Props...>& v)
+{
+  size_t stride = 1;
+  bool row_major = true;
+  for (int i=static_cast<int>(Kokkos::View<DT,Props...>::rank)-1; i>=0; --i) {
+    row_major = row_major && (v.extent(i)<=1 || v.stride(i)==stride);
+    stride *= v.extent(i);
+  }
+  return row_major || stride==0;
+}
+
 // Turn a View of Packs into a View of scalars.
 // Example: const auto b = scalarize(a);
+// NOTE: the entries of the input view must be contiguous, with the last index running fastest
 
 // Default impl returns the input view, regardless of rank
 template<typename ScalarT>
@@ -205,6 +221,9 @@ struct ScalarizeHelper<Pack<T,N>>
     constexpr int rank = Kokkos::View<DT, Props...>::rank;
     static_assert (rank<=7, "ScalarizeHelper only supports up to rank-7 views.\n");
 
+    EKAT_KERNEL_REQUIRE_MSG (is_row_major(vp) || (N==1 && vp.span_is_contiguous()),
+        "Error! Cannot scalarize input view, as its entries are not contiguous in row-major order.\n");
+
     if constexpr (rank==0) {
       return ret_t(pack2scl(vp.data()));
     } else if constexpr (rank==1) {
@@ -267,6 +286,9 @@ auto repack (const Kokkos::View<DT,Props...>& src)
   using dst_view_t = Unmanaged<Kokkos::View<dst_data_type,Props...>>;
   int packed_dim = rank-1;
 
+  EKAT_KERNEL_REQUIRE_MSG (is_row_major(src) || (N==1 && src.span_is_contiguous()),
+      "Error! Cannot pack input view, as its entries are not contiguous in row-major order.\n");
+
   EKAT_KERNEL_REQUIRE_MSG (src.extent(packed_dim) % N == 0,
       "Error! Cannot pack input view, as the pack size does not divide the last dimension.\n");
 
-- 
2.43.0


From c08451444b1138404e6dd598501b8c3306ef95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 23/50] fix: off-by-one in the bounds check of
 ViewBroadcast::extent

---
 src/kokkos/ekat_view_broadcast.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index bba4e17..bbbf372 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -83,7 +83,7 @@ public:
 
   KOKKOS_INLINE_FUNCTION
   int extent(int i) {
-    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<=m_view_impl.rank(),
+    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<static_cast<int>(m_view_impl.rank()),
         "[ViewBroadcast::extent] Error! Index out of bounds.\n");
     return m_shape[i];
   }
-- 
2.43.0


From 1c6fedff106f8b243b4674e873fb0dee43b3322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 24/50] fix: reject views whose memory layout ViewBroadcast
 cannot represent

The strides of the input view were ignored, so that, e.g., broadcasting a
LayoutLeft view, or one obtained with subview_1, silently gave access to
entries other than those of the input view.
---
 src/kokkos/ekat_view_broadcast.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index bbbf372..ff151a4 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -79,6 +79,18 @@ public:
         "Error! Too many positive extents in input vector.\n");
 
     m_view_impl = view_type(from_v.data(),impl_layout);
+
+    // The impl view has its own strides, which must lead to the entries of the input view
+    ifrom = 0;
+    for (int i=0; i<to_rank; ++i) {
+      if (m_coeff[i]==1) {
+        EKAT_REQUIRE_MSG (from_v.extent(ifrom)<=1 or
+                          static_cast<size_t>(m_view_impl.stride(i))==static_cast<size_t>(from_v.stride(ifrom)),
+            "[ViewBroadcast] Error! Cannot broadcast input view, due to its memory layout.\n"
+            " dimension: " << ifrom << "\n");
+        ++ifrom;
+      }
+    }
   }
 
   KOKKOS_INLINE_FUNCTION
-- 
2.43.0


From dae68c3d3ba7b43721f6a818d65596cddc75a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 25/50] fix: assert that the input of reshape is contiguous

Strides are not retained, so that a view obtained by slicing would be
reshaped into a view of other entries.
---
 src/kokkos/ekat_view_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kokkos/ekat_view_utils.hpp b/src/kokkos/ekat_view_utils.hpp
index a8dcf5f..443b3ad 100644
--- a/src/kokkos/ekat_view_utils.hpp
+++ b/src/kokkos/ekat_view_utils.hpp
@@ -16,6 +16,7 @@ typename std::enable_if<GetRanks<DataTypeOut>::rank_dynamic==0,
 reshape (Kokkos::View<DataTypeIn,Props...> view_in) {
   typename ekat::Unmanaged<Kokkos::View<DataTypeOut,Props...>> view_out(view_in.data());
   assert (view_in.size()==view_out.size());
+  assert (view_in.span_is_contiguous());
   return view_out;
 }
 
@@ -26,6 +27,7 @@ reshape (Kokkos::View<DataTypeIn,Props...> view_in,
          const int dim0) {
   typename ekat::Unmanaged<Kokkos::View<DataTypeOut,Props...>> view_out(view_in.data(),dim0);
   assert (view_in.size()==view_out.size());
+  assert (view_in.span_is_contiguous());
   return view_out;
 }
 
@@ -36,6 +38,7 @@ reshape (Kokkos::View<DataTypeIn,Props...> view_in,
          const int dim0, const int dim1) {
   typename ekat::Unmanaged<Kokkos::View<DataTypeOut,Props...>> view_out(view_in.data(),dim0,dim1);
   assert (view_in.size()==view_out.size());
+  assert (view_in.span_is_contiguous());
   return view_out;
 }
 
-- 
2.43.0


From 082337dfae324ecce9bc40e770ded9df02d80c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 26/50] fix: check the number of views in the 1d host/device
 transfers

The check of the number of sizes was there twice instead.
---
 src/pack/ekat_pack_kokkos.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index 596decf..7441012 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -366,7 +366,7 @@ host_to_device_impl(const std::vector<typename VectorT::value_type::value_type::
   using PackT = typename ViewT::value_type;
 
   EKAT_ASSERT(data.size() == sizes.size());
-  EKAT_ASSERT(data.size() == sizes.size());
+  EKAT_ASSERT(data.size() == views.size());
 
   for (size_t i = 0; i < data.size(); ++i) {
     const size_t size = static_cast<size_t>(sizes[i]);
@@ -824,7 +824,7 @@ device_to_host(const std::vector<typename ViewT::non_const_value_type::scalar*>&
   using PackT = typename ViewT::value_type;
 
   EKAT_ASSERT(data.size() == sizes.size());
-  EKAT_ASSERT(data.size() == sizes.size());
+  EKAT_ASSERT(data.size() == views.size());
 
   for (size_t i = 0; i < data.size(); ++i) {
     const size_t size = static_cast<size_t>(sizes[i]);
-- 
2.43.0


From 59944883153b47775cbe0e0f209a2474a7270738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 27/50] fix: include the header of the kernel assert in
 ekat_view_broadcast.hpp

The header could not be used without including it first.
---
 src/kokkos/ekat_view_broadcast.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index ff151a4..ea48797 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -2,6 +2,7 @@
 #define EKAT_BROADCAST_VIEW_HPP
 
 #include "ekat_kokkos_meta.hpp"
+#include "ekat_kernel_assert.hpp"
 #include "ekat_assert.hpp"
 
 namespace ekat {
-- 
2.43.0


From 7923c8f1ec5149c174c8d55f0560106ff69fbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 28/50] fix: view_reduction over a range in the interior of a
 single pack

The tail of the pack was added, and its head a second time.
---
 src/algorithm/ekat_reduction_utils.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algorithm/ekat_reduction_utils.hpp b/src/algorithm/ekat_reduction_utils.hpp
index 8ed6bc1..4c6a4a5 100644
--- a/src/algorithm/ekat_reduction_utils.hpp
+++ b/src/algorithm/ekat_reduction_utils.hpp
@@ -108,6 +108,15 @@ auto view_reduction (const TeamMember& team,
     const int  pack_loop_begin   = (has_garbage_begin ? begin/N + 1 : begin/N);
     const int  pack_loop_end     = end/N;
 
+    // If the range is in the interior of a single pack, there is nothing else to add
+    if (pack_loop_begin > pack_loop_end) {
+      const auto temp_input = input(pack_loop_end);
+      for (int j=begin%N; j<end%N; ++j) {
+        result += temp_input[j];
+      }
+      return result;
+    }
+
     // If first pack has garbage, we will not include it in the below reduction,
     // so manually add the first pack (only the non-garbage part)
     if (has_garbage_begin) {
-- 
2.43.0


From d908e2892269475ab82f066af34db824fedd7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 29/50] fix: WorkspaceManager::report in debug builds

It could not be instantiated.
---
 src/kokkos/ekat_workspace_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 0fac550..8771f31 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -86,6 +86,7 @@ void WorkspaceManager<T, D>::report() const
   std::cout << "\nWS deep analysis" << std::endl;
   struct Data {
     int used, takes, releases;
+    Data () : Data(0,0,0) {}
     Data (int u, int t, int r) : used(u), takes(t), releases(r) {}
   };
   std::map<std::string, Data> ws_usage_map;
-- 
2.43.0


From 69430247c43c37478787db396982eedd63fa38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 30/50] fix: stop Workspace::print at the end of the free list

---
 src/kokkos/ekat_workspace_impl.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 8771f31..46c9998 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -508,13 +508,13 @@ void WorkspaceManager<T, D>::Workspace::print() const
     Kokkos::PerTeam(m_team), [&] () {
       std::stringstream ss;
       ss << m_ws_idx << ":";
-      auto space = m_parent.get_space_in_slot<T>(m_ws_idx, m_next_slot);
-      for (int cnt = 0, nmax = m_parent.m_max_used;
-           cnt < nmax;
-           ++cnt) {
-        ss << " (" << m_parent.get_index<T>(space) << ", "
-           << m_parent.get_next<T>(space) << ")";
-        space = m_parent.get_space_in_slot<T>(m_ws_idx, m_parent.get_next<T>(space));
+      // Read the metadata directly, since get_space_in_slot overwrites the
+      // content of the slot in debug builds.
+      for (int slot = m_next_slot; slot < m_parent.m_max_used; ) {
+        const int* const metadata = reinterpret_cast<const int*>(
+          &m_parent.m_data(m_ws_idx, slot*m_parent.m_total));
+        ss << " (" << metadata[0] << ", " << metadata[1] << ")";
+        slot = metadata[1];
       }
       ss << "\n";
       std::cout << ss.str();
-- 
2.43.0


From a7f5970cea5f534265e3b84cbdb83c6725af17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 31/50] fix: follow the free list when taking contiguous
 workspaces

---
 src/kokkos/ekat_workspace_impl.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 46c9998..38d97e1 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -313,16 +313,19 @@ void WorkspaceManager<T, D>::Workspace::take_many_contiguous_unsafe(
   }
 #endif
 
+  int next_slot = m_next_slot;
   for (int n = 0; n < static_cast<int>(N); ++n) {
     const auto space = m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot+n);
     *ptrs[n] = space;
+    // The free list does not necessarily go on with the next slot
+    next_slot = m_parent.get_next<S>(space);
   }
 
   // We need a barrier here so get_space_in_slot above returns consistent results
   // w/in the team.
   m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += N;
+    m_next_slot = next_slot;
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
       change_indv_meta<S>(*ptrs[n], names[n]);
@@ -351,13 +354,16 @@ WorkspaceManager<T, D>::Workspace::take_macro_block(
 #endif
 
   const auto space = m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot);
+  // The free list does not necessarily go on with the next slot
+  const int next_slot = m_parent.get_next<S>(
+    m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot + n_sub_blocks - 1));
 
   // We need a barrier here so get_space_in_slot above returns consistent results
   // w/in the team.
   m_team.team_barrier();
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += n_sub_blocks;
+    m_next_slot = next_slot;
 #ifndef NDEBUG
    change_indv_meta<S>(space, name);
 #endif
-- 
2.43.0


From a7676e403d8657776d761bf9001757bfa24f5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 32/50] fix: keep the free list when releasing contiguous
 workspaces

---
 src/kokkos/ekat_workspace_impl.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 38d97e1..e38524d 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -627,13 +627,14 @@ void WorkspaceManager<T, D>::Workspace::release_many_contiguous(
   change_num_used(-static_cast<int>(N));
   // Verify contiguous
   for (int n = 0; n < static_cast<int>(N) - 1; ++n) {
-    const auto& space = *ptrs[n];
-    EKAT_KERNEL_ASSERT_MSG(m_parent.get_next<S>(space) == m_parent.get_index<S>(space) + 1, m_ws_name);
+    EKAT_KERNEL_ASSERT_MSG(m_parent.get_index<S>(*ptrs[n+1]) == m_parent.get_index<S>(*ptrs[n]) + 1, m_ws_name);
   }
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot = m_parent.get_index<S>(*ptrs[0]);
+    for (int n = static_cast<int>(N) - 1; n >= 0; --n) {
+      m_next_slot = m_parent.set_next_and_get_index<S>(*ptrs[n], m_next_slot);
+    }
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
       change_indv_meta<S>(*ptrs[n], "", true);
@@ -655,19 +656,27 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
   change_num_used(-n_sub_blocks);
 #endif
 
-  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+  int next_free;
+  Kokkos::single(Kokkos::PerTeam(m_team), [&] (int& nf) {
+    nf = m_next_slot;
     m_next_slot = m_parent.get_index<S>(space);
 
 #ifndef NDEBUG
     change_indv_meta<S>(space, "", true);
 #endif
-  });
+  }, next_free);
 
   // Reset metadata
   m_team.team_barrier();
   Kokkos::parallel_for(
     Kokkos::TeamVectorRange(m_team, n_sub_blocks), [&] (int i) {
       m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+      if (i == n_sub_blocks-1) {
+        // Keep the slots that were already free in the list
+        int* const metadata = reinterpret_cast<int*>(
+          &m_parent.m_data(m_ws_idx, (i+m_next_slot)*m_parent.m_total));
+        metadata[1] = next_free;
+      }
   });
 
   // We need a barrier here so that a subsequent call to take or release
-- 
2.43.0


From 7e11570ffb126910954bcf1e92cf6c3db1efddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 33/50] fix: reset all the internals of WorkspaceManager in all
 builds

---
 src/kokkos/ekat_workspace_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index e38524d..388517d 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -162,8 +162,9 @@ void WorkspaceManager<T, D>::reset_internals()
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
   Kokkos::deep_copy(m_high_water, 0);
-  Kokkos::deep_copy(m_next_slot, 0);
+  Kokkos::deep_copy(m_num_used, 0);
 #endif
+  Kokkos::deep_copy(m_next_slot, 0);
 
   auto policy = TeamPolicyFactory<ExeSpace>::get_default_team_policy(m_max_ws_idx, m_max_used);
   Kokkos::parallel_for(
-- 
2.43.0


From 9cb425290c83e67ff3b4e065c421fc165b0461b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 34/50] fix: take_many_and_reset while spaces are in use

---
 src/kokkos/ekat_workspace_impl.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 388517d..6f30a33 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -442,6 +442,8 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
   const Kokkos::Array<const char*, N>& names,
   const view_1d_ptr_array<S, N>& ptrs) const
 {
+  // The spaces handed out may still be in use in some threads of the team
+  m_team.team_barrier();
 #ifndef NDEBUG
   change_num_used(N - m_parent.m_num_used(m_ws_idx));
 #endif
@@ -451,11 +453,15 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
     *ptrs[n] = space;
   }
 
-  // We only need to reset the metadata for spaces that are being left free
+  // Reset the metadata for all spaces, including those being taken, since
+  // the metadata inside a macro block is overwritten with data.
   Kokkos::parallel_for(
-    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used - N), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+N);
+    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
+      m_parent.init_slot_metadata(m_ws_idx, i);
     });
+#ifndef NDEBUG
+  m_team.team_barrier();
+#endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
     m_next_slot = N;
-- 
2.43.0


From 74a30b20d01a70a6c41950409aa3f853f8ed01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:00 +0000
Subject: [PATCH 35/50] fix: the type of arithmetic expressions on types
 narrower than int

BinaryExpression took the common type of its operands, so that e.g. short*short
or bool+bool was cut to short or bool, unlike the same operation on scalars.
---
 src/expression/ekat_expression_binary_op.hpp | 30 +++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/expression/ekat_expression_binary_op.hpp b/src/expression/ekat_expression_binary_op.hpp
index ffc51bc..d561593 100644
--- a/src/expression/ekat_expression_binary_op.hpp
+++ b/src/expression/ekat_expression_binary_op.hpp
@@ -12,6 +12,23 @@ enum class BinOp {
   Div
 };
 
+// Applies the operation to two values. The type of the result is the one of the operation,
+// which is not always the common type of the operands (e.g., short+short is an int).
+template<BinOp OP, typename L, typename R>
+KOKKOS_INLINE_FUNCTION
+auto apply_bin_op (const L& l, const R& r)
+{
+  if constexpr (OP==BinOp::Plus) {
+    return l+r;
+  } else if constexpr (OP==BinOp::Minus) {
+    return l-r;
+  } else if constexpr (OP==BinOp::Mult) {
+    return l*r;
+  } else {
+    return l/r;
+  }
+}
+
 template<typename ELeft, typename ERight, BinOp OP>
 class BinaryExpression : public ExpressionBase<BinaryExpression<ELeft,ERight,OP>> {
 public:
@@ -22,7 +39,8 @@ public:
   using return_left_t  = eval_return_t<ELeft>;
   using return_right_t = eval_return_t<ERight>;
 
-  using return_type = std::common_type_t<return_left_t,return_right_t>;
+  using return_type = decltype(apply_bin_op<OP>(std::declval<const return_left_t&>(),
+                                               std::declval<const return_right_t&>()));
 
   BinaryExpression (const ELeft& left,
                     const ERight& right)
@@ -66,15 +84,7 @@ protected:
 
   KOKKOS_INLINE_FUNCTION
   return_type eval_impl (const return_left_t& l, const return_right_t& r) const {
-    if constexpr (OP==BinOp::Plus) {
-      return l+r;
-    } else if constexpr (OP==BinOp::Minus) {
-      return l-r;
-    } else if constexpr (OP==BinOp::Mult) {
-      return l*r;
-    } else {
-      return l/r;
-    }
+    return apply_bin_op<OP>(l,r);
   }
 
   ELeft    m_left;
-- 
2.43.0


From d9d4aaa622f9e0794403910600afeae1e40fa5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:00 +0000
Subject: [PATCH 36/50] fix: the type of negated expressions on types narrower
 than int

NegateExpression kept the type of its operand, so that e.g. the negation of
-32768 (short) or of true (bool) differed from the same operation on scalars.
---
 src/expression/ekat_expression_binary_op.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression/ekat_expression_binary_op.hpp b/src/expression/ekat_expression_binary_op.hpp
index d561593..3af35d2 100644
--- a/src/expression/ekat_expression_binary_op.hpp
+++ b/src/expression/ekat_expression_binary_op.hpp
@@ -96,7 +96,7 @@ template<typename EInner>
 class NegateExpression : public ExpressionBase<NegateExpression<EInner>> {
 public:
 
-  using return_type = eval_return_t<EInner>;
+  using return_type = decltype(-std::declval<const eval_return_t<EInner>&>());
 
   NegateExpression (const ExpressionBase<EInner>& inner)
    : m_inner(inner.cast())
-- 
2.43.0


From 1c3160b6a0df83887102929fd03e116e79d24518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:00 +0000
Subject: [PATCH 37/50] fix: the type of pow expressions on integers

PowExpression took the common type of its arguments, which cut the result of
Kokkos::pow (a double) to an integer.
---
 src/expression/ekat_expression_math.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expression/ekat_expression_math.hpp b/src/expression/ekat_expression_math.hpp
index 6280a27..68cfb0c 100644
--- a/src/expression/ekat_expression_math.hpp
+++ b/src/expression/ekat_expression_math.hpp
@@ -17,7 +17,10 @@ namespace ekat {
                                                                                     \
     using return_arg1_t = eval_return_t<EArg1>;                                     \
     using return_arg2_t = eval_return_t<EArg2>;                                     \
-    using return_type = std::common_type_t<return_arg1_t,return_arg2_t>;            \
+    using common_arg_t = std::common_type_t<return_arg1_t,return_arg2_t>;           \
+    using return_type = std::decay_t<decltype(                                      \
+        Kokkos::impl(std::declval<const common_arg_t&>(),                           \
+                     std::declval<const common_arg_t&>()))>;                        \
                                                                                     \
     name##Expression (const EArg1& arg1, const EArg2& arg2)                         \
       : m_arg1(arg1)                                                                \
@@ -56,8 +59,8 @@ namespace ekat {
     KOKKOS_INLINE_FUNCTION                                                          \
     return_type eval_impl(const return_arg1_t& arg1,                                \
                           const return_arg2_t& arg2) const {                        \
-      return Kokkos::impl(static_cast<const return_type&>(arg1),                    \
-                          static_cast<const return_type&>(arg2));                   \
+      return Kokkos::impl(static_cast<const common_arg_t&>(arg1),                   \
+                          static_cast<const common_arg_t&>(arg2));                  \
     }                                                                               \
                                                                                     \
     EArg1   m_arg1;                                                                 \
-- 
2.43.0


From e519bd75108226262920b9039918b09bc5bc5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 38/50] fix: set_log_level on ranks that must not log

Setting the log level (usually done by all ranks) turned the console output on
also on ranks that the MPI policy keeps silent.
---
 src/logging/ekat_logger.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/logging/ekat_logger.hpp b/src/logging/ekat_logger.hpp
index 3e37bce..194fb6a 100644
--- a/src/logging/ekat_logger.hpp
+++ b/src/logging/ekat_logger.hpp
@@ -78,6 +78,9 @@ protected:
 
   std::string logfile_name;
 
+  // Whether the MPI policy allows this rank to log. If not, the log level stays off.
+  bool rank_logs = true;
+
   LoggerBase (const std::string& log_name)
    : spdlog::logger(log_name)
    , logfile_name  ("")
@@ -108,7 +111,9 @@ public:
   const std::string& get_logfile_name () const { return logfile_name; }
 
   void set_log_level(const LogLevel lev) {
-    this->set_level(lev);
+    if (rank_logs) {
+      this->set_level(lev);
+    }
   }
   void set_console_level(const LogLevel lev) {
     this->get_console_sink()->set_level(lev);
@@ -163,7 +168,8 @@ public:
     this->sinks().push_back(fsink);
 
     // Set the log level of logger as well as the sinks
-    if (not MpiOutputPolicy::should_log(comm)) {
+    rank_logs = MpiOutputPolicy::should_log(comm);
+    if (not rank_logs) {
       this->set_level(LogLevel::off);
     } else {
       this->set_level(log_level);
@@ -187,7 +193,8 @@ public:
 
     // Only set the level of the logger. Do *not* alter the sinks levels,
     // since you are "borrowing" them from another logger
-    if (not MpiOutputPolicy::should_log(comm)) {
+    rank_logs = MpiOutputPolicy::should_log(comm);
+    if (not rank_logs) {
       this->set_level(LogLevel::off);
     } else {
       this->set_level(log_level);
-- 
2.43.0


From e0dced57e3e8b56b50d913f18f154ca6bdeb4d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 39/50] fix: ScalarTraits of const volatile types is ambiguous

The partial specializations for const and volatile match equally well,
so the traits of a type with both qualifiers could not be used.
---
 src/core/ekat_scalar_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_scalar_traits.hpp b/src/core/ekat_scalar_traits.hpp
index 46db58c..8a5b383 100644
--- a/src/core/ekat_scalar_traits.hpp
+++ b/src/core/ekat_scalar_traits.hpp
@@ -56,6 +56,9 @@ struct ScalarTraits<const T> : ScalarTraits<T> {};
 template<typename T>
 struct ScalarTraits<volatile T> : ScalarTraits<T> {};
 
+template<typename T>
+struct ScalarTraits<const volatile T> : ScalarTraits<T> {};
+
 template<typename T>
 struct ScalarTraits<T&> : ScalarTraits<T> {};
 
-- 
2.43.0


From ee17bfbb6e919c5ac81e3cbd8009b49ea87e3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 40/50] fix: max_element of GPU builds gives the last maximum

Like std::max_element, which it replaces, it must give the first one.
---
 src/kokkos/ekat_math_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_math_utils.hpp b/src/kokkos/ekat_math_utils.hpp
index 28f8acc..1c77912 100644
--- a/src/kokkos/ekat_math_utils.hpp
+++ b/src/kokkos/ekat_math_utils.hpp
@@ -32,7 +32,7 @@ template <typename T> KOKKOS_INLINE_FUNCTION
 const T* max_element (const T* const begin, const T* const end) {
   const T* me = begin;
   for (const T* it = begin + 1; it < end; ++it)
-    if ( ! (*it < *me)) // use operator<
+    if (*me < *it) // use operator<
       me = it;
   return me;
 }
-- 
2.43.0


From 6de94c9e6a487ce245e94b75242f040beac1d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 41/50] fix: include cfenv where the FPE mask is defined

ekat_fpe.hpp uses FE_DIVBYZERO and friends in the default mask, but left
the include to whoever includes it.
---
 src/core/ekat_fpe.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/ekat_fpe.hpp b/src/core/ekat_fpe.hpp
index e187797..f4a33c0 100644
--- a/src/core/ekat_fpe.hpp
+++ b/src/core/ekat_fpe.hpp
@@ -1,6 +1,8 @@
 #ifndef EKAT_FPE_HPP
 #define EKAT_FPE_HPP
 
+#include <cfenv> // The masks are made of FE_XYZ macros
+
 #include <string>
 
 namespace ekat {
-- 
2.43.0


From 85e58248a63cce9508018e3096ea09407226a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 42/50] fix: EkatConfigFile honours AT_ONLY

The option was parsed but never used: ${VAR} was replaced too.
---
 cmake/EkatUtils.cmake | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmake/EkatUtils.cmake b/cmake/EkatUtils.cmake
index 59eef50..4b60bb3 100644
--- a/cmake/EkatUtils.cmake
+++ b/cmake/EkatUtils.cmake
@@ -86,7 +86,11 @@ macro (EkatConfigFile CONFIG_FILE_IN CONFIG_FILE_C)
   if (OUT_OF_DATE)
 
     # Run the configure macro
-    configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C})
+    if (EKAT_CONFIGURE_FILE_AT_ONLY)
+      configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C} @ONLY)
+    else()
+      configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C})
+    endif()
 
     if (EKAT_CONFIGURE_FILE_F90_FILE)
       # run sed to change '/*...*/' comments into '!/*...*/'
-- 
2.43.0


From 00370aa0bf57739bbfbd6eba78c672e952e5632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 43/50] fix: EkatConfigFile turns /* */ comments into Fortran
 comments

The second sed started from the original file again and overwrote the
result of the first.
---
 cmake/EkatUtils.cmake | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cmake/EkatUtils.cmake b/cmake/EkatUtils.cmake
index 4b60bb3..c6bf7ce 100644
--- a/cmake/EkatUtils.cmake
+++ b/cmake/EkatUtils.cmake
@@ -93,14 +93,9 @@ macro (EkatConfigFile CONFIG_FILE_IN CONFIG_FILE_C)
     endif()
 
     if (EKAT_CONFIGURE_FILE_F90_FILE)
-      # run sed to change '/*...*/' comments into '!/*...*/'
-      execute_process(COMMAND sed "s;^/;!/;g"
-                      WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
-                      INPUT_FILE ${CONFIG_FILE_C}
-                      OUTPUT_FILE ${EKAT_CONFIGURE_FILE_F90_FILE})
-
-      # do the same for '//...' comments (turn them into '! ...'
-      execute_process(COMMAND sed "s;^//;!;g"
+      # run sed to change '//...' comments into '! ...', and
+      # '/*...*/' comments into '!/*...*/'
+      execute_process(COMMAND sed -e "s;^//;!;g" -e "s;^/;!/;g"
                       WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
                       INPUT_FILE ${CONFIG_FILE_C}
                       OUTPUT_FILE ${EKAT_CONFIGURE_FILE_F90_FILE})
-- 
2.43.0


From fbf9d9dac2ee95d1b3b294fe7aebc71d9db20368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 44/50] fix: gen_assert_test_src.py writes its output without
 matching lines

With no line containing the keyword, the script returned before writing
anything.
---
 cmake/gen_assert_test_src.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cmake/gen_assert_test_src.py b/cmake/gen_assert_test_src.py
index 8008f6e..729ce86 100755
--- a/cmake/gen_assert_test_src.py
+++ b/cmake/gen_assert_test_src.py
@@ -32,8 +32,6 @@ def create_sources (meta_src, output_dir):
         lines = [line.rstrip() for line in f]
 
     num_asserts = len([l for l in lines if key in l])
-    if num_asserts==0:
-        return 0
 
     # First, a version of the test without *any* EKAT_EXPECT_ASSERT_FAIL line
     f_out = pathlib.Path(output_dir) / f"{f_in.stem}.cpp"
-- 
2.43.0


From 5ed7fb2f06d60da4d21cef5e45777a625d2ebb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 45/50] fix: size TeamUtils' random pool by the number of teams

On GPU spaces each team uses the random state of its own index, and there
can be more teams than states in a pool of the default size.
---
 src/kokkos/ekat_team_policy_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_team_policy_utils.hpp b/src/kokkos/ekat_team_policy_utils.hpp
index e97f440..fad14fb 100644
--- a/src/kokkos/ekat_team_policy_utils.hpp
+++ b/src/kokkos/ekat_team_policy_utils.hpp
@@ -260,7 +260,8 @@ class TeamUtils<ValueType,EkatGpuSpace> : public TeamUtilsCommonBase<ValueType,E
   {
     EKAT_REQUIRE_MSG(overprov_factor >= 1.0, "Makes no sense to have an overprov < 1");
     if (_need_ws_sharing) {
-      _rand_pool = RandomGenerator(std::chrono::high_resolution_clock::now().time_since_epoch().count());
+      // Each team uses its own state, and there can be more teams than threads
+      _rand_pool.init(std::chrono::high_resolution_clock::now().time_since_epoch().count(), this->_league_size);
     }
   }
 
-- 
2.43.0


From 5612a54fccaf62df35e8acea8c8c45915244ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 46/50] fix: serial tridiagonal solves of row-major views whose
 rows are not adjacent

---
 src/algorithm/ekat_tridiag.hpp | 52 +++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 52a0579..7ccf566 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -226,44 +226,45 @@ void thomas_a1x1 (DT* const dl, DT* d, DT* const du, XT* X, const int nrow) {
     X[i-1] = (X[i-1] - du[i-1] * X[i]) / d[i-1];
 }
 
+// ldX is the distance between rows of X, which can exceed nrhs in a subview.
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs, const int ldX) {
   for (int i = 1; i < nrow; ++i) {
     const auto dli = dl[i] / d[i-1];
     d[i] -= dli * du[i-1];
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*ldX;
+    auto* const xi = X + i*ldX;
     for (int j = 0; j < nrhs; ++j)
       xi[j] -= dli * xim1[j];
   }
   {
-    auto* const xi = X + (nrow-1)*nrhs;
+    auto* const xi = X + (nrow-1)*ldX;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= d[nrow-1];
   }
   for (int i = nrow-1; i > 0; --i) {
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*ldX;
+    auto* const xi = X + i*ldX;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - du[i-1] * xi[j]) / d[i-1];
   }
 }
 
+// ld* are the distances between rows, which can exceed nrhs in a subview.
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs, const int lddl,
+                  const int ldd, const int lddu, const int ldX) {
   for (int i = 1; i < nrow; ++i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dli = dl + ios;
-    auto* const di = d + ios;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dli = dl + i*lddl;
+    auto* const di = d + i*ldd;
+    auto* const dim1 = d + (i-1)*ldd;
+    auto* const duim1 = du + (i-1)*lddu;
+    auto* const xim1 = X + (i-1)*ldX;
+    auto* const xi = X + i*ldX;
     for (int j = 0; j < nrhs; ++j) {
       const auto dlij = dli[j] / dim1[j];
       di[j] -= dlij * duim1[j];
@@ -271,19 +272,16 @@ void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
     }
   }
   {
-    const int ios = (nrow-1)*nrhs;
-    auto* const di = d + ios;
-    auto* const xi = X + ios;
+    auto* const di = d + (nrow-1)*ldd;
+    auto* const xi = X + (nrow-1)*ldX;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= di[j];
   }
   for (int i = nrow-1; i > 0; --i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dim1 = d + (i-1)*ldd;
+    auto* const duim1 = du + (i-1)*lddu;
+    auto* const xim1 = X + (i-1)*ldX;
+    auto* const xi = X + i*ldX;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - duim1[j] * xi[j]) / dim1[j];
   }
@@ -359,7 +357,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert( X.extent_int(0) == nrow);
   assert(dl.extent_int(0) == nrow);
   assert(du.extent_int(0) == nrow);
-  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    X.stride(0));
 }
 
 template <typename TridiagDiag, typename DataArray>
@@ -377,7 +376,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert(dl.extent_int(1) == nrhs);
   assert(d .extent_int(1) == nrhs);
   assert(du.extent_int(1) == nrhs);
-  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    dl.stride(0), d.stride(0), du.stride(0), X.stride(0));
 }
 
 // Cyclic reduction at the Kokkos team level. Any (thread, vector)
-- 
2.43.0


From 727bb338052870e1730f513de18352770a059713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 47/50] fix: genRandArray writes between the entries of views
 with gaps

---
 src/kokkos/ekat_view_utils.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_view_utils.hpp b/src/kokkos/ekat_view_utils.hpp
index 443b3ad..d25dbdb 100644
--- a/src/kokkos/ekat_view_utils.hpp
+++ b/src/kokkos/ekat_view_utils.hpp
@@ -46,8 +46,21 @@ template <typename ViewType, typename rngAlg, typename PDF>
 typename std::enable_if<Kokkos::is_view<ViewType>::value, void>::type
 genRandArray(ViewType view, rngAlg &engine, PDF &&pdf) {
   auto mirror = Kokkos::create_mirror_view(view);
-  for (size_t i = 0; i < mirror.size(); ++i) {
-    mirror.data()[i] = pdf(engine);
+  if (mirror.span_is_contiguous()) {
+    for (size_t i = 0; i < mirror.size(); ++i) {
+      mirror.data()[i] = pdf(engine);
+    }
+  } else {
+    // There are gaps between the entries, which are not ours to change
+    for (size_t i = 0; i < mirror.size(); ++i) {
+      size_t idx[8] = {0};
+      size_t rem = i;
+      for (int r = static_cast<int>(ViewType::rank)-1; r >= 0; --r) {
+        idx[r] = rem % mirror.extent(r);
+        rem /= mirror.extent(r);
+      }
+      mirror.access(idx[0],idx[1],idx[2],idx[3],idx[4],idx[5],idx[6],idx[7]) = pdf(engine);
+    }
   }
   Kokkos::deep_copy(view, mirror);
 }
-- 
2.43.0


From 5d831f7915cbe43dc226c8454975a0ab8b30c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 48/50] fix: Pack::update with a zero beta does not use the old
 entries

---
 src/pack/ekat_pack.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 1f9e5e8..5a49bd9 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -350,6 +350,7 @@ struct Pack {
   // NOTES:
   //  - by default, the update uses alpha=1 and beta=0, which means it's the equivalent of operator=
   //    (or set, for the overloads with a mask).
+  //  - if beta=0, the current entries of y are not used (they may be NaN).
   //  - we return *this, so we can pipe calls: y.update(x,2,1)[2] performs the update and then
   //    extracts the 3rd entry
   template<typename T, typename CoeffT = scalar>
@@ -357,7 +358,7 @@ struct Pack {
   Pack& update (const Pack<T,n>& x, const CoeffT alpha = 1, const CoeffT beta = 0) {
     vector_simd
     for (int i=0; i<n; ++i) {
-      d[i] = beta*d[i] + alpha*x[i];
+      d[i] = (beta==0 ? 0 : beta*d[i]) + alpha*x[i];
     }
     return *this;
   }
@@ -366,7 +367,7 @@ struct Pack {
   KOKKOS_FORCEINLINE_FUNCTION
   Pack& update (const Mask<n>& m, const Pack<T,n>& x, const CoeffT alpha = 1, const CoeffT beta = 0) {
     ekat_masked_loop(m,i)
-      d[i] = beta*d[i] + alpha*x[i];
+      d[i] = (beta==0 ? 0 : beta*d[i]) + alpha*x[i];
     return *this;
   }
 
@@ -376,9 +377,9 @@ struct Pack {
     vector_simd
     for (int i=0; i<n; ++i) {
       if (m[i])
-        d[i] = beta*d[i] + alpha*x_true[i];
+        d[i] = (beta==0 ? 0 : beta*d[i]) + alpha*x_true[i];
       else
-        d[i] = beta*d[i] + alpha*x_false[i];
+        d[i] = (beta==0 ? 0 : beta*d[i]) + alpha*x_false[i];
     }
     return *this;
   }
-- 
2.43.0


From dbaf0eb651c8a77c863f5148ce10cd8b33d133e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 49/50] fix: tridiagonal cyclic reduction with no right-hand
 sides divides by zero

---
 src/algorithm/ekat_tridiag.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 7ccf566..ecbc841 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -471,7 +471,8 @@ void cr (const TeamMember& team,
   const int nrhs = X.extent_int(1);
   const int tid = impl::get_thread_id_within_team(team);
   const int nthr = impl::get_team_nthr(team);
-  const int team_size = ekat::impl::min(nrhs, nthr);
+  // There may be no right-hand sides at all
+  const int team_size = nrhs > 0 ? ekat::impl::min(nrhs, nthr) : 1;
   const int nteam = nthr / team_size;
   const int team_id = tid / team_size;
   const int team_tid = tid % team_size;
@@ -561,7 +562,8 @@ void cr (const TeamMember& team,
   assert(X. extent_int(0) == nrow);
   const int tid = impl::get_thread_id_within_team(team);
   const int nthr = impl::get_team_nthr(team);
-  const int team_size = ekat::impl::min(nrhs, nthr);
+  // There may be no right-hand sides at all
+  const int team_size = nrhs > 0 ? ekat::impl::min(nrhs, nthr) : 1;
   const int nteam = nthr / team_size;
   const int team_id = tid / team_size;
   const int team_tid = tid % team_size;
-- 
2.43.0


From c5c5e2a4879e045f8bbe71c9fc9b315975b9f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 50/50] fix: dereferencing a zip iterator dangles when its
 iterators give no references

---
 src/core/ekat_zip.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_zip.hpp b/src/core/ekat_zip.hpp
index 2f1bb41..7c67f78 100644
--- a/src/core/ekat_zip.hpp
+++ b/src/core/ekat_zip.hpp
@@ -32,8 +32,9 @@ public:
 
   // Dereference operator
   decltype(auto) operator*() {
-    return std::apply([](Iterators... its){
-      return std::forward_as_tuple(*its...);
+    // Dereferencing an iterator does not always give a reference (e.g., vector<bool>)
+    return std::apply([](auto&... its){
+      return std::tuple<decltype(*its)...>(*its...);
     },iterators);
   }
 
-- 
2.43.0

