From e4ffab5d70d650e1ca75f83502ac0ff17ef98ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 01/47] fix: do not read past the end of the mask in match()

When the name is longer than a mask without '*', match() went on comparing
with what happens to follow the mask in memory.
---
 src/utils/match.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/match.cxx b/src/utils/match.cxx
index 236f5dd..54036c2 100644
--- a/src/utils/match.cxx
+++ b/src/utils/match.cxx
@@ -18,6 +18,8 @@ bool match(char const* mask, size_t masklen, char const* name)
           return false;
       return true;
     }
+    if (masklen == 0)
+      return false;
     if (*m == '*')
       break;
     if (*n++ != *m++)
-- 
2.43.0


From 18b1cbd322146655422061c26055351c425cd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 02/47] fix: add the errno names above EDQUOT to strerrno()

ECANCELED, EOWNERDEAD and nine others were called "UNKNOWN ERROR".
---
 src/strerrno.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/strerrno.cxx b/src/strerrno.cxx
index f32a167..71f86f5 100644
--- a/src/strerrno.cxx
+++ b/src/strerrno.cxx
@@ -133,7 +133,18 @@ char const* const strerrno_table_c[] = {
     "ENAVAIL", /* No XENIX semaphores available */
     "EISNAM", /* Is a named type file */
     "EREMOTEIO", /* Remote I/O error */
-    "EDQUOT" /* Quota exceeded */
+    "EDQUOT", /* Quota exceeded */
+    "ENOMEDIUM", /* No medium found */
+    "EMEDIUMTYPE", /* Wrong medium type */
+    "ECANCELED", /* Operation canceled */
+    "ENOKEY", /* Required key not available */
+    "EKEYEXPIRED", /* Key has expired */
+    "EKEYREVOKED", /* Key has been revoked */
+    "EKEYREJECTED", /* Key was rejected by service */
+    "EOWNERDEAD", /* Owner died */
+    "ENOTRECOVERABLE", /* State not recoverable */
+    "ERFKILL", /* Operation not possible due to RF-kill */
+    "EHWPOISON" /* Memory page has hardware error */
 };
 
 } // namespace
-- 
2.43.0


From 86485b6cc9e633a24bac0bf19c45086defe3689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 03/47] fix: demangle conversion operators to pointer-to-member
 types

The class name in the target type replaced the "operator " that was
decoded so far: "A::operator int B::*()" became "A::Bint B::*()".
---
 include/cwd_demangle.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 38bbc16..b126c09 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2197,31 +2197,27 @@ bool session<Allocator>::decode_unqualified_name(string_type& output)
   }
   else if (isdigit(current()))
   {
-    bool recursive_unqualified_name = (&function_name_ == &output);
-    // This can be a recursive call when we are decoding
-    // an <operator-name> that is a cast operator for a some
-    // <unqualified-name>; for example "operator Foo()".
-    // In that case this is thus not a ctor or dtor and we
-    // are not interested in updating function_name_.
-    if (!recursive_unqualified_name)
-      function_name_.clear();
+    function_name_.clear();
     name_is_template_ = false;
     name_is_cdtor_ = false;
     name_is_conversion_operator_ = false;
     if (!decode_source_name(function_name_))
       _GLIBCXX_DEMANGLER_FAILURE;
-    if (!recursive_unqualified_name)
-      output += function_name_;
+    output += function_name_;
   }
   else if (islower(current()))
   {
-    function_name_.clear();
     name_is_template_ = false;
     name_is_cdtor_ = false;
     name_is_conversion_operator_ = false;
-    if (!decode_operator_name(function_name_))
+    // The type of a cast operator can contain names itself, for example
+    // "operator int Foo::*()", that overwrite function_name_; hence do
+    // not decode into function_name_ directly.
+    string_type operator_name;
+    if (!decode_operator_name(operator_name))
       _GLIBCXX_DEMANGLER_FAILURE;
-    output += function_name_;
+    function_name_ = operator_name;
+    output += operator_name;
   }
   else if (current() == 'C' || current() == 'D')
   {
-- 
2.43.0


From 6cad7d2bd67b7b53f107cd0151923dccbb889a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 04/47] fix: share substitutions with nested encodings, keep
 const of local class members

A <local-name> and a function literal were demangled with a substitution
table of their own, so any later S<n>_ referring into or across them named
the wrong component (or failed); and the cv-qualifiers of a member function
of a local class were printed in the middle of the declaration.
---
 include/cwd_demangle.h | 76 ++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index b126c09..fee5af9 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -369,7 +369,9 @@ class session
   bool decode_class_enum_type(string_type& output);
   bool decode_expression(string_type& output);
   bool decode_literal(string_type& output);
-  bool decode_local_name(string_type& output);
+  bool decode_encoding(string_type& output);
+  bool decode_nested_encoding(string_type& output);
+  bool decode_local_name(string_type& output, string_type& nested_name_qualifiers);
   bool decode_name(string_type& output, string_type& nested_name_qualifiers);
   bool decode_nested_name(string_type& output, string_type& qualifiers);
   bool decode_number(string_type& output);
@@ -898,7 +900,7 @@ bool session<Allocator>::decode_literal(string_type& output)
     if (next() != 'Z')
       _GLIBCXX_DEMANGLER_FAILURE;
     eat_current();
-    if ((pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+    if (!decode_nested_encoding(output))
       _GLIBCXX_DEMANGLER_FAILURE;
   }
   else
@@ -2127,13 +2129,13 @@ bool session<Allocator>::decode_nested_name(string_type& output, string_type& qu
 // <discriminator> := _ <non-negative number>
 //
 template <typename Allocator>
-bool session<Allocator>::decode_local_name(string_type& output)
+bool session<Allocator>::decode_local_name(string_type& output, string_type& nested_name_qualifiers)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_local_name");
   if (current() != 'Z' || pos_ >= maxpos_)
     _GLIBCXX_DEMANGLER_FAILURE;
-  if ((pos_ += decode_encoding(output, str_ + pos_ + 1, maxpos_ - pos_, implementation_details_) + 1) < 0 ||
-      eat_current() != 'E')
+  eat_current();
+  if (!decode_nested_encoding(output) || eat_current() != 'E')
     _GLIBCXX_DEMANGLER_FAILURE;
   output += "::";
   if (current() == 's')
@@ -2141,13 +2143,8 @@ bool session<Allocator>::decode_local_name(string_type& output)
     eat_current();
     output += "string literal";
   }
-  else
-  {
-    string_type nested_name_qualifiers;
-    if (!decode_name(output, nested_name_qualifiers))
-      _GLIBCXX_DEMANGLER_FAILURE;
-    output += nested_name_qualifiers;
-  }
+  else if (!decode_name(output, nested_name_qualifiers))
+    _GLIBCXX_DEMANGLER_FAILURE;
   string_type discriminator;
   if (current() == '_' && next() != 'n' && !decode_number(discriminator))
     _GLIBCXX_DEMANGLER_FAILURE;
@@ -2298,7 +2295,7 @@ bool session<Allocator>::decode_name(string_type& output, string_type& nested_na
   }
   else if (current() == 'Z')
   {
-    decode_local_name(output);
+    decode_local_name(output, nested_name_qualifiers);
     _GLIBCXX_DEMANGLER_RETURN;
   }
   else if (!decode_unscoped_name(output))
@@ -2467,37 +2464,60 @@ int session<Allocator>::decode_encoding(string_type& output, char const* in, int
   if (len <= 0)
     return INT_MIN;
   session<Allocator> demangler_session(in, len, id);
+  return demangler_session.decode_encoding(output) ? demangler_session.pos_ : INT_MIN;
+}
+
+// Decode an <encoding> that starts at the current position.
+template <typename Allocator>
+bool session<Allocator>::decode_encoding(string_type& output)
+{
   string_type nested_name_qualifiers;
   int saved_pos;
-  demangler_session.store(saved_pos);
-  if (demangler_session.decode_special_name(output))
-    return demangler_session.pos_;
-  demangler_session.restore(saved_pos);
+  store(saved_pos);
+  if (decode_special_name(output))
+    return true;
+  restore(saved_pos);
   string_type name;
-  if (!demangler_session.decode_name(name, nested_name_qualifiers))
-    return INT_MIN;
-  if (demangler_session.current() == 0 || demangler_session.current() == 'E')
+  if (!decode_name(name, nested_name_qualifiers))
+    return false;
+  if (current() == 0 || current() == 'E')
   {
     output += name;
     output += nested_name_qualifiers;
-    return demangler_session.pos_;
+    return true;
   }
   // Must have been a <function name>.
   string_type return_type_postfix;
-  if (demangler_session.name_is_template_ &&
-      !(demangler_session.name_is_cdtor_ || demangler_session.name_is_conversion_operator_))
+  if (name_is_template_ && !(name_is_cdtor_ || name_is_conversion_operator_))
   {
     // Return type of function
-    if (!demangler_session.decode_type_with_postfix(output, return_type_postfix))
-      return INT_MIN;
+    if (!decode_type_with_postfix(output, return_type_postfix))
+      return false;
     output += ' ';
   }
   output += name;
-  if (!demangler_session.decode_bare_function_type(output))
-    return INT_MIN;
+  if (!decode_bare_function_type(output))
+    return false;
   output += nested_name_qualifiers;
   output += return_type_postfix;
-  return demangler_session.pos_;
+  return true;
+}
+
+// Decode an <encoding> that is part of a <local-name> or of an <expr-primary>.
+//
+// Only the substitutions are shared with the enclosing symbol.
+template <typename Allocator>
+bool session<Allocator>::decode_nested_encoding(string_type& output)
+{
+  session<Allocator> nested(str_, 0, implementation_details_);
+  nested.pos_ = pos_;
+  nested.maxpos_ = maxpos_;
+  nested.inside_substitution_ = inside_substitution_;
+  nested.substitutions_pos_.swap(substitutions_pos_);
+  result_ = nested.decode_encoding(output);
+  nested.substitutions_pos_.swap(substitutions_pos_);
+  pos_ = nested.pos_;
+  return result_;
 }
 
 } // namespace demangler
-- 
2.43.0


From b573db2026da1d62c2eb4a3b686882ebd9f2c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 05/47] fix: no arithmetic on a null pointer for object files
 without a slash in their name

---
 src/dwarf.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 59d4404..4ca63ad 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1435,9 +1435,8 @@ namespace libcwd {
 ObjectFileName::ObjectFileName(char const* filepath) : no_debug_line_sections_(false)
 {
   filepath_ = strcpy((char*)malloc(strlen(filepath) + 1), filepath); // LEAK8
-  filename_ = strrchr(filepath_, '/') + 1;
-  if (filename_ == (char const*)1)
-    filename_ = filepath_;
+  char const* last_slash = strrchr(filepath_, '/');
+  filename_ = last_slash ? last_slash + 1 : filepath_;
 }
 
 /** @addtogroup source-file-line-number-information */
-- 
2.43.0


From 7953ef5f11672b2b9ad27d2ed2999e0590c6f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 06/47] fix: do not read past the end of a mangled name

---
 include/cwd_demangle.h | 20 +++++++++++++++-----
 src/demangle.cxx       |  4 ++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index fee5af9..fe246e4 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -347,7 +347,12 @@ class session
 
   char next_peek() const { return (pos_ >= maxpos_) ? 0 : str_[pos_ + 1]; }
 
-  char next() { return (pos_ >= maxpos_) ? 0 : str_[++pos_]; }
+  char next()
+  {
+    if (pos_ <= maxpos_)
+      ++pos_;
+    return current();
+  }
 
   char eat_current() { return (pos_ > maxpos_) ? 0 : str_[pos_++]; }
 
@@ -2161,13 +2166,18 @@ bool session<Allocator>::decode_source_name(string_type& output)
   if (length < 1 || length > 9)
     _GLIBCXX_DEMANGLER_FAILURE;
   while (isdigit(next()))
+  {
     length = 10 * length + current() - '0';
+    if (length > maxpos_)
+      _GLIBCXX_DEMANGLER_FAILURE;
+  }
+  if (length > maxpos_ - pos_ + 1)
+    _GLIBCXX_DEMANGLER_FAILURE;
   char const* ptr = &str_[pos_];
   if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
     output += "(anonymous namespace)";
-    if ((pos_ += length) > maxpos_ + 1)
-      _GLIBCXX_DEMANGLER_FAILURE;
+    pos_ += length;
   }
   else
     while (length--)
@@ -2565,7 +2575,7 @@ typename demangle<Allocator>::string_type demangle<Allocator>::symbol(char const
     }
     else if (input[1] == 'Z')
     {
-      int cnt = demangler_type::decode_encoding(result, input + 2, INT_MAX, id);
+      int cnt = demangler_type::decode_encoding(result, input + 2, strlen(input + 2), id);
       if (cnt < 0 || input[cnt + 2] != 0)
         failure = true;
     }
@@ -2592,7 +2602,7 @@ typename demangle<Allocator>::string_type demangle<Allocator>::type(char const*
     result = "(null)";
   else
   {
-    demangler::session<Allocator> demangler_session(input, INT_MAX, id);
+    demangler::session<Allocator> demangler_session(input, strlen(input), id);
     if (!demangler_session.decode_type(result) || demangler_session.remaining_input_characters())
     {
       // Failure to demangle, return the mangled name.
diff --git a/src/demangle.cxx b/src/demangle.cxx
index d44ec52..2367535 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -717,7 +717,7 @@ void demangle_symbol(char const* input, std::string& output)
     {
       // C++ name?
       implementation_details id(0);
-      int cnt = session_type::decode_encoding(output, input + 2, INT_MAX, id);
+      int cnt = session_type::decode_encoding(output, input + 2, strlen(input + 2), id);
       if (cnt < 0 || input[cnt + 2] != 0)
         failure = true;
     }
@@ -773,7 +773,7 @@ void demangle_type(char const* input, std::string& output)
     return;
   }
   implementation_details id(0);
-  session_type demangler_session(input, INT_MAX, id);
+  session_type demangler_session(input, strlen(input), id);
   if (!demangler_session.decode_type(output) || demangler_session.remaining_input_characters())
     output.assign(input, strlen(input)); // Failure to demangle, return the mangled type name.
 #ifdef STANDALONE
-- 
2.43.0


From cb483ff25271f7d704623479de2d401bcd322e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 07/47] fix: bound recursion and output of the demangler on
 malformed symbols

A template argument that refers to itself (_Z1fIXT_EEvv), deeply nested
template arguments, local names or thunks overflowed the stack, and repeated
substitutions gave output of exponential size. The depth of recursion and the
amount of text that is read again for substitutions are now limited; that
replaces the check on the nesting of types, which refused valid symbols.
---
 include/cwd_demangle.h | 63 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index fe246e4..4426115 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -290,6 +290,8 @@ class session
   int inside_template_args_;
   int inside_type_;
   int inside_substitution_;
+  int depth_;   // The current depth of recursion.
+  int reread_;  // The number of characters that were read again because of a substitution.
   bool saw_destructor_;
   bool name_is_cdtor_;
   bool name_is_template_;
@@ -315,6 +317,8 @@ class session
       inside_template_args_(0),
       inside_type_(0),
       inside_substitution_(0),
+      depth_(0),
+      reread_(0),
       saw_destructor_(false),
       name_is_cdtor_(false),
       name_is_template_(false),
@@ -343,18 +347,42 @@ class session
   bool remaining_input_characters() const { return current() != 0; }
 
  private:
-  char current() const { return (pos_ > maxpos_) ? 0 : str_[pos_]; }
+  // Limits that no sane symbol reaches, but without which a short malicious
+  // one could cause infinite recursion or output of exponential length.
+  static constexpr int max_depth_c = 500;
+  static constexpr int max_reread_c = 1000000;
 
-  char next_peek() const { return (pos_ >= maxpos_) ? 0 : str_[pos_ + 1]; }
+  struct recursion_guard
+  {
+    int& depth_;
+    recursion_guard(int& depth) : depth_(depth) { ++depth_; }
+    ~recursion_guard() { --depth_; }
+    bool too_deep() const { return depth_ > max_depth_c; }
+  };
+
+  bool exhausted() const { return reread_ > max_reread_c; }
+
+  char current() const { return (pos_ > maxpos_ || exhausted()) ? 0 : str_[pos_]; }
+
+  char next_peek() const { return (pos_ >= maxpos_ || exhausted()) ? 0 : str_[pos_ + 1]; }
 
   char next()
   {
-    if (pos_ <= maxpos_)
-      ++pos_;
+    eat_current();
     return current();
   }
 
-  char eat_current() { return (pos_ > maxpos_) ? 0 : str_[pos_++]; }
+  char eat_current()
+  {
+    char c = current();
+    if (pos_ <= maxpos_)
+    {
+      ++pos_;
+      if (inside_substitution_)
+        ++reread_;
+    }
+    return c;
+  }
 
   void store(int& saved_pos) { saved_pos = pos_; }
 
@@ -739,7 +767,7 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
     }
   }
   eat_current();
-  if (value >= substitutions_pos_.size() || inside_type_ > 20) // Rather than core dump.
+  if (value >= substitutions_pos_.size())
     _GLIBCXX_DEMANGLER_FAILURE;
   ++inside_substitution_;
   int saved_pos = pos_;
@@ -789,6 +817,8 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
   }
   pos_ = saved_pos;
   --inside_substitution_;
+  if (exhausted())
+    _GLIBCXX_DEMANGLER_FAILURE;
   _GLIBCXX_DEMANGLER_RETURN;
 }
 
@@ -819,8 +849,6 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
     _GLIBCXX_DEMANGLER_FAILURE;
   int saved_pos = pos_;
   pos_ = template_arg_pos_[value];
-  if (inside_type_ > 20) // Rather than core dump.
-    _GLIBCXX_DEMANGLER_FAILURE;
   ++inside_substitution_;
   if (current() == 'X')
   {
@@ -833,6 +861,8 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
     decode_type(output, qualifiers);
   --inside_substitution_;
   pos_ = saved_pos;
+  if (exhausted())
+    _GLIBCXX_DEMANGLER_FAILURE;
   _GLIBCXX_DEMANGLER_RETURN;
 }
 
@@ -1180,6 +1210,9 @@ template <typename Allocator>
 bool session<Allocator>::decode_expression(string_type& output)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_expression");
+  recursion_guard guard(depth_);
+  if (guard.too_deep())
+    _GLIBCXX_DEMANGLER_FAILURE;
   if (current() == 'T')
   {
     if (!decode_template_param(output))
@@ -1715,6 +1748,9 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
                                                   qualifier_list<Allocator>* qualifiers)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING2("decode_type");
+  recursion_guard guard(depth_);
+  if (guard.too_deep())
+    _GLIBCXX_DEMANGLER_FAILURE;
   ++inside_type_;
   bool recursive_template_param_or_substitution_call;
   if (!(recursive_template_param_or_substitution_call = qualifiers))
@@ -2425,7 +2461,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
     case 'c':
       output += "covariant return thunk to ";
       if (!decode_call_offset(output) || !decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+          !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
     case 'C': // GNU extension?
@@ -2451,7 +2487,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
       else
         output += "non-virtual thunk to ";
       if (!decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+          !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
   }
@@ -2513,7 +2549,7 @@ bool session<Allocator>::decode_encoding(string_type& output)
   return true;
 }
 
-// Decode an <encoding> that is part of a <local-name> or of an <expr-primary>.
+// Decode an <encoding> that is part of a <local-name>, an <expr-primary> or a thunk.
 //
 // Only the substitutions are shared with the enclosing symbol.
 template <typename Allocator>
@@ -2523,9 +2559,12 @@ bool session<Allocator>::decode_nested_encoding(string_type& output)
   nested.pos_ = pos_;
   nested.maxpos_ = maxpos_;
   nested.inside_substitution_ = inside_substitution_;
+  nested.depth_ = depth_ + 1;
+  nested.reread_ = reread_;
   nested.substitutions_pos_.swap(substitutions_pos_);
-  result_ = nested.decode_encoding(output);
+  result_ = nested.depth_ <= max_depth_c && nested.decode_encoding(output);
   nested.substitutions_pos_.swap(substitutions_pos_);
+  reread_ = nested.reread_;
   pos_ = nested.pos_;
   return result_;
 }
-- 
2.43.0


From 0036159f2e9cfa59e7b2eff93d2b9e337db7726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 08/47] fix: make the buffer for floating point literals large
 enough

A negative double with 17 digits and an exponent of three digits needs
25 bytes.
---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 4426115..44a032d 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -903,7 +903,7 @@ bool session<Allocator>::decode_real(string_type& output, size_t size_of_real)
     }
     ++word;
   }
-  char buf[24];
+  char buf[32]; // At most a sign, 20 digits, a dot, "e-308" and the trailing NUL.
   if (implementation_details_.decode_real(buf, words, size_of_real))
   {
     output += buf;
-- 
2.43.0


From 99549b45218d23f23bc003649b7dcc7dd21ef5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 09/47] fix: demangle covariant return thunks

---
 include/cwd_demangle.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 44a032d..65d323e 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2460,6 +2460,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
       _GLIBCXX_DEMANGLER_RETURN;
     case 'c':
       output += "covariant return thunk to ";
+      eat_current();
       if (!decode_call_offset(output) || !decode_call_offset(output) ||
           !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
-- 
2.43.0


From 993b4bfa0e81f403f28c5a1b6d2385b9e86cf355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 10/47] fix: return from decode_KVrA at the end of the
 qualifier series

The return was only part of the debug version of the macro, so that a pointer
to array inside a pointer to array had its outer array printed twice.
---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 65d323e..ea64112 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -20,7 +20,7 @@
 #define _GLIBCXX_DEMANGLER_DOUT_ENTERING3(...)
 #define _GLIBCXX_DEMANGLER_RETURN return result_
 #define _GLIBCXX_DEMANGLER_RETURN2 return result_
-#define _GLIBCXX_DEMANGLER_RETURN3
+#define _GLIBCXX_DEMANGLER_RETURN3 return
 #define _GLIBCXX_DEMANGLER_FAILURE \
   do                               \
   {                                \
-- 
2.43.0


From 9251c106c9c9172f76877f5b860db0ddf8079bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 11/47] fix: demangle pointers to const and volatile data
 members

---
 include/cwd_demangle.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index ea64112..5339d0f 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1832,15 +1832,18 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           failure = true;
           break;
         }
-        char c = current();
-        if (c == 'F' || c == 'K' || c == 'V' || c == 'r')
-        // Must be CV-qualifiers and a member function pointer.
+        int member_pos = pos_;
+        while (member_pos <= maxpos_ && (str_[member_pos] == 'K' || str_[member_pos] == 'V' || str_[member_pos] == 'r'))
+          ++member_pos;
+        if (member_pos <= maxpos_ && str_[member_pos] == 'F')
+        // Must be (optional) CV-qualifiers and a member function pointer.
         {
           // <Q>M<C><Q2>F<R><B>E	==> R (C::*Q)B Q2
           //     substitutions: "<C>", "F<R><B>E" (<R> and <B>
           //                    recursive), "M<C><Q2>F<R><B>E".
           int count = 0;
           int Q2_start_pos = pos_;
+          char c = current();
           while (c == 'K' || c == 'V' || c == 'r') // Decode <Q2>.
           {
             ++count;
-- 
2.43.0


From c0f0c2b81f0243089d04054399e53bad33212bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 12/47] fix: count a template parameter that stands for a
 function pointer as substitution

Its substitution was left out, so later substitutions named the wrong type.
---
 include/cwd_demangle.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5339d0f..e31abf9 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1966,6 +1966,15 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         break;
       }
       case 'T':
+      {
+        // A function type prints, and adds the substitutions of, all qualifiers itself;
+        // the substitution for the <template-param> has to come before those.
+        int end_pos = pos_ + 1;
+        while (end_pos <= maxpos_ && isdigit(str_[end_pos]))
+          ++end_pos;
+        bool is_template_template_param = end_pos < maxpos_ && str_[end_pos + 1] == 'I';
+        if (!recursive_template_param_or_substitution_call && !is_template_template_param)
+          add_substitution(start_pos, type);
         if (!decode_template_param(prefix, qualifiers))
         {
           failure = true;
@@ -1983,13 +1992,15 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (!recursive_template_param_or_substitution_call && qualifiers->suppressed())
         {
-          add_substitution(start_pos, type);
-          // substitution: "<template-param>" or
+          if (is_template_template_param)
+            add_substitution(start_pos, type);
+          // substitution: "<template-param>" (see above) or
           // "<template-template-param> <template-args>".
           qualifiers->decode_qualifiers(prefix, postfix);
           // substitution: all qualified types, if any.
         }
         break;
+      }
       case 'S':
         if (pos_ >= maxpos_)
         {
-- 
2.43.0


From 278c26b4dfa3bab65c7f8e79fcad48e7e96809e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 13/47] fix: nest function types that come from a substitution
 in the declarator

A return type or parameter that named a function (pointer) through a template
parameter or substitution was printed in front instead of around the rest of
the declaration.
---
 include/cwd_demangle.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index e31abf9..432a7a3 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -410,9 +410,11 @@ class session
   bool decode_number(string_type& output);
   bool decode_operator_name(string_type& output);
   bool decode_source_name(string_type& output);
-  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL,
+                           string_type* postfix = NULL);
   bool decode_template_args(string_type& output);
-  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL,
+                             string_type* postfix = NULL);
   bool decode_unqualified_name(string_type& output);
   bool decode_unscoped_name(string_type& output);
   bool decode_non_negative_decimal_integer(string_type& output);
@@ -653,7 +655,8 @@ bool session<Allocator>::decode_class_enum_type(string_type& output)
 //       [<seq-id>]	# Base 36 number
 //
 template <typename Allocator>
-bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers,
+                                             string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_substitution");
   unsigned int value = 0;
@@ -776,10 +779,13 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
   switch (substitution.type)
   {
     case type:
-      decode_type(output, qualifiers);
+      if (postfix)
+        decode_type_with_postfix(output, *postfix, qualifiers);
+      else
+        decode_type(output, qualifiers);
       break;
     case template_template_param:
-      decode_template_param(output, qualifiers);
+      decode_template_param(output, qualifiers, postfix);
       break;
     case nested_name_prefix:
     case nested_name_template_prefix:
@@ -826,7 +832,8 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
 //                  ::= T <parameter-2 non-negative number> _
 //
 template <typename Allocator>
-bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers,
+                                               string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_template_parameter");
   if (current() != 'T')
@@ -857,6 +864,8 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
   }
   else if (current() == 'L')
     decode_literal(output);
+  else if (postfix)
+    decode_type_with_postfix(output, *postfix, qualifiers);
   else
     decode_type(output, qualifiers);
   --inside_substitution_;
@@ -1975,7 +1984,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         bool is_template_template_param = end_pos < maxpos_ && str_[end_pos + 1] == 'I';
         if (!recursive_template_param_or_substitution_call && !is_template_template_param)
           add_substitution(start_pos, type);
-        if (!decode_template_param(prefix, qualifiers))
+        if (!decode_template_param(prefix, qualifiers, &postfix))
         {
           failure = true;
           break;
@@ -2009,7 +2018,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (str_[pos_ + 1] != 't')
         {
-          if (!decode_substitution(prefix, qualifiers))
+          if (!decode_substitution(prefix, qualifiers, &postfix))
           {
             failure = true;
             break;
-- 
2.43.0


From 34f3f5ffcf971ef2bc2726d4316591555a32a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:26 +0000
Subject: [PATCH 14/47] fix: scale denormalized floating point literals
 correctly

---
 src/demangle.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/demangle.cxx b/src/demangle.cxx
index 2367535..520d38d 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -176,6 +176,7 @@ class decimal_float
   void set_zero();
   void divide_by_two(bool decrement_exponent);
   bool decrement_exponent();
+  unsigned long most_significant() const { return data_.mantissa[mantissa_size_c - 1]; }
   decimal_float& operator+=(decimal_float const& term);
   decimal_float& operator*=(decimal_float const& factor);
   void print_to_with_precision(char* buf, int precision) const;
@@ -616,7 +617,9 @@ void print_IEEE_fp(char* buf, unsigned long* words, int nbits_exponent, int nbit
   {
     if ((*words & mask))
       result += bit;
-    bool success = result.decrement_exponent();
+    // A denormalized result can be (much) smaller than bit; only decrement the exponents when
+    // neither of them, nor the sum of result and all bits that are still to come, can overflow.
+    bool success = bit.most_significant() < 1000 && result.most_significant() < 500 && result.decrement_exponent();
     bit.divide_by_two(success); // Keep exponents equal for easy addition.
     if (!(mask >>= 1))
     {
-- 
2.43.0


From f75caa2e7d56c2f67f4140070b4170e7667d7ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 15/47] fix: keep embedded NUL characters in margins, markers
 and color strings

---
 src/debug.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index ce7ed2a..1195cc8 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -20,6 +20,7 @@
 #include <atomic>
 #include <cerrno>
 #include <cstdlib> // Needed for _Exit() (C99)
+#include <cstring>
 #include <iostream>
 #include <new>
 #ifdef HAVE_SYS_RESOURCE_H
@@ -721,7 +722,7 @@ void DebugString::NS_internal_init(char const* str, size_t len)
   default_capacity_ = min_capacity;
   str_ = (char*)malloc((default_capacity_ = capacity_ = calculate_capacity(len)) +
                        1); // Add one for the terminating zero. LEAK46
-  strncpy(str_, str, len);
+  memcpy(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -748,7 +749,7 @@ void DebugString::internal_assign(char const* str, size_t len)
 {
   if (len > capacity_ || (capacity_ > default_capacity_ && len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(len)) + 1);
-  strncpy(str_, str, len);
+  memcpy(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -757,7 +758,7 @@ void DebugString::internal_append(char const* str, size_t len)
 {
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
-  strncpy(str_ + size_, str, len);
+  memcpy(str_ + size_, str, len);
   size_ += len;
   str_[size_] = 0;
 }
@@ -767,7 +768,7 @@ void DebugString::internal_prepend(char const* str, size_t len)
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
   memmove(str_ + len, str_, size_ + 1);
-  strncpy(str_, str, len);
+  memcpy(str_, str, len);
   size_ += len;
 }
 
-- 
2.43.0


From 3b115c3bfacbf3454759dcd2b797c3f44c821817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 16/47] fix: write every part of a cerr_cf line, and what
 interrupts it, to cerr

---
 src/debug.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 1195cc8..a0fc481 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -923,7 +923,7 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 #endif
     int saved_errno = errno; // The writeto below changes errno.
     // And write out what is in the buffer till now.
-    std::ostream* target_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
+    std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
         target_os, LIBCWD_TSD, debug_object,
         true, // This thread requests an <unfinished> because of previous, unfinished 'continued' output.
@@ -960,12 +960,13 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 
     // Indent nested debug output with 4 extra spaces.
     indent += 4;
-
-    // If the previous target was written to cerr, then
-    // write this interrupting output to cerr too.
-    channel_set.mask |= (current->mask & cerr_cf);
   }
 
+  // If the previous target was written to cerr, then
+  // write this interrupting output to cerr too.
+  // MT: if current == _private_::WST_dummy_output_state then current->mask is zero.
+  channel_set.mask |= (current->mask & cerr_cf);
+
   // Create a new output state.
   DEBUGDEBUG_CERR("creating new OutputState");
   current = new OutputState(channel_set.mask, channel_set.label, errno); // LEAK5: This allocation + Location.
-- 
2.43.0


From 496d80a9f6d99987c39a779f076281ed0afd93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 17/47] fix: do not print a character of the text in front of
 <continued> when there is no prefix

---
 src/debug.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index a0fc481..9a8327b 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -59,10 +59,9 @@ class Buffer : public std::stringbuf
   {
     streampos_t old_in_pos = this->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
     this->pubseekpos(0, std::ios_base::in);
-    os->put(this->sgetc());
     int size = position_ - std::streampos(0);
-    for (int c = 1; c < size; ++c)
-      os->put(this->snextc());
+    for (int c = 0; c < size; ++c)
+      os->put(this->sbumpc());
     this->pubseekpos(old_in_pos, std::ios_base::in);
   }
 };
-- 
2.43.0


From ba6ce6b87c9c098f3f5839cd7943f9dc78969c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 18/47] fix: do not wait forever for a return at the end of
 standard input

---
 src/debug.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 9a8327b..abca080 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1125,7 +1125,8 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
       if (debug_object.interactive_)
       {
         *locked_os << std::flush;
-        while (std::cin.get() != '\n')
+        int c;
+        while ((c = std::cin.get()) != '\n' && c != std::char_traits<char>::eof())
           ;
       }
       if (locked_mutex)
-- 
2.43.0


From c5997439572e6a8d71a915ca355d6160eb5e6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 19/47] fix: do not use the debug state of a thread that exited
 after leaving an incomplete line

---
 include/libcwd/DebugObject.h                |  3 ++-
 include/libcwd/private/ThreadSpecificData.h |  1 +
 src/debug.cxx                               | 18 +++++++++---------
 src/threading.cxx                           |  2 ++
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 913b9cc..b966906 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -130,7 +130,8 @@ class DebugObject
   // Ostream destination and matching external lock, protected as one unit.
 
   Buffer* unfinished_oss_;
-  void const* newlineless_tsd_;
+  unsigned long newlineless_thread_id_; // The thread that wrote the last, incomplete, line; zero if there is none.
+  std::string* newlineless_color_off_; // The color_off string of that thread, or null when that is empty.
 
  private:
   //-------------------------------------------------------------------------------------------------
diff --git a/include/libcwd/private/ThreadSpecificData.h b/include/libcwd/private/ThreadSpecificData.h
index a1afdde..afe5166 100644
--- a/include/libcwd/private/ThreadSpecificData.h
+++ b/include/libcwd/private/ThreadSpecificData.h
@@ -78,6 +78,7 @@ struct ThreadSpecificData
   bool lock_interface_is_locked =
       false; // Set while writing debugout to the final ostream if OstreamState::mutex_ was locked.
   bool recursive_fatal = false; // Detect loop involving dc::fatal or dc::core.
+  unsigned long thread_id = 0; // A unique, never reused, number of this thread.
 #if CWDEBUG_DEBUG
   bool recursive_assert = false; // Detect loop involving LIBCWD_ASSERT.
 #endif
diff --git a/src/debug.cxx b/src/debug.cxx
index abca080..de6d112 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -115,14 +115,11 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
                 "documentation/group__group__destination.html).");
     }
   }
-  if (debug_object.newlineless_tsd_ && debug_object.newlineless_tsd_ != &__libcwd_tsd)
+  if (debug_object.newlineless_thread_id_ && debug_object.newlineless_thread_id_ != __libcwd_tsd.thread_id)
   {
-    _private_::ThreadSpecificData const* newlineless_tsd =
-        static_cast<_private_::ThreadSpecificData const*>(debug_object.newlineless_tsd_);
-    DebugString const& color_off = newlineless_tsd->debug_object_array[debug_object.index_]->color_off;
-    size_t color_off_size = color_off.size();
-    if (color_off_size > 0)
-      locked_os->write(color_off.c_str(), color_off_size);
+    // That thread might not exist anymore.
+    if (debug_object.newlineless_color_off_)
+      locked_os->write(debug_object.newlineless_color_off_->data(), debug_object.newlineless_color_off_->size());
     if (debug_object.unfinished_oss_)
     {
       if (debug_object.unfinished_oss_ != this)
@@ -168,11 +165,14 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
   if (ends_on_newline)
   {
     debug_object.unfinished_oss_ = NULL;
-    debug_object.newlineless_tsd_ = NULL;
+    debug_object.newlineless_thread_id_ = 0;
   }
   else if (curlen > 0)
   {
-    debug_object.newlineless_tsd_ = &__libcwd_tsd;
+    debug_object.newlineless_thread_id_ = __libcwd_tsd.thread_id;
+    delete debug_object.newlineless_color_off_;
+    debug_object.newlineless_color_off_ =
+        color_off_size > 0 ? new std::string(color_off.c_str(), color_off_size) : NULL;
     if (possible_nonewline_cf)
       debug_object.unfinished_oss_ = NULL;
     else
diff --git a/src/threading.cxx b/src/threading.cxx
index eb005ce..6c684ee 100644
--- a/src/threading.cxx
+++ b/src/threading.cxx
@@ -81,6 +81,8 @@ ThreadSpecificData& ThreadSpecificData::instance()
 ThreadSpecificData& ThreadSpecificData::S_create(ThreadSpecificData& real_tsd)
 {
   real_tsd.initialized_ = true;
+  static std::atomic<unsigned long> s_last_thread_id{0};
+  real_tsd.thread_id = ++s_last_thread_id;
 
   if (!main_thread_tsd)
     main_thread_tsd = &real_tsd;
-- 
2.43.0


From 5741165f5b219272f9e3338db6fc6a85004849b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 20/47] fix: close an incomplete line of another thread only
 once

---
 src/debug.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index de6d112..5b0ace2 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -131,6 +131,9 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
     }
     else
       locked_os->write("<no newline>\n", 13);
+    // That line is complete now; don't do this again.
+    debug_object.unfinished_oss_ = NULL;
+    debug_object.newlineless_thread_id_ = 0;
   }
   DebugString const& color_off = LIBCWD_DO_TSD_MEMBER(debug_object, color_off);
   size_t color_off_size = color_off.size();
-- 
2.43.0


From 68b3e52358771c00cd0672049178881ce114c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 21/47] fix: do not keep a pointer to a continued line that was
 finished with nonewline_cf and no text

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 5b0ace2..82290f7 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -170,7 +170,7 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
     debug_object.unfinished_oss_ = NULL;
     debug_object.newlineless_thread_id_ = 0;
   }
-  else if (curlen > 0)
+  else if (curlen > 0 || debug_object.unfinished_oss_ == this) // The latter if this buffer is finished with nonewline_cf.
   {
     debug_object.newlineless_thread_id_ = __libcwd_tsd.thread_id;
     delete debug_object.newlineless_color_off_;
-- 
2.43.0


From 0c24e034645edf0ae11e0080736a937b436d31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 22/47] fix: Extract the exact type name without guessing where
 substitutions are

type_info_of<FooS (*)(FooS)>(), where the class name ends on an S, and
type_info_of<int const[3]>() failed an assertion (or returned a wrong name).
---
 src/type_info.cxx | 68 +++++++++++++----------------------------------
 1 file changed, 19 insertions(+), 49 deletions(-)

diff --git a/src/type_info.cxx b/src/type_info.cxx
index 35fc28a..250c941 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -32,62 +32,32 @@ char const* extract_exact_name(char const* encap_mangled_name)
   return exact_name;
 }
 #else
-char const* skip_substitution(char const* const ptr, char const* const begin)
-{
-  char const* S_ptr = ptr;
-  // S_ptr now points to a trailing '_'.
-  for (int digits = 0; S_ptr > begin && digits < 3; ++digits)
-  {
-    --S_ptr;
-    // All legal substitution patterns have the form "S[0-9A-Z]*_" where we
-    // limit the number of base-36 digits to two (because it seems extremely
-    // unlikely that there are more than 1296 substitutions).
-    //
-    // We allow "SS_" where the second S is a digit; but not "SSS_" because
-    // it's already unlikely to have 841 substitutions, too.
-    if (*S_ptr == 'S' && (digits > 0 || S_ptr[-1] != 'S'))
-      return S_ptr;
-    // Substitutions use base-36 with 'digits' [0-9A-Z].
-    if (!('0' <= *S_ptr && *S_ptr <= '9') && !('A' <= *S_ptr && *S_ptr <= 'Z'))
-      break;
-  }
-  return ptr;
-}
-
-// As an example, the input could be:
-//
-// encap_mangled_name =
-// 22libcwd_type_info_exactIRKN4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS0_12OutputStreamEEEE
-// stripped_mangled_name =                         N4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS _12OutputStreamEEE
-// where the space in the latter is not really there (just added for alignment)               -------^
 char const* extract_exact_name(char const* encap_mangled_name, char const* stripped_mangled_name)
 {
-  encap_mangled_name += 25; // Strip "22libcwd_type_info_exactI" from the beginning.
-  // encap_mangled_name now points to the qualifiers string (if any) "RK".
-  char const* encap_ptr = encap_mangled_name + strlen(encap_mangled_name) - 1;
-  // encap_ptr now points to the last E of encap_mangled_name.
+  char const* encap_ptr = encap_mangled_name + 25; // Strip "22libcwd_type_info_exactI" from the beginning.
+  // encap_ptr now points to the reference and/or qualifiers string (if any) "RK".
   size_t len = strlen(stripped_mangled_name);
-  char const* ptr = stripped_mangled_name + len;
-  // ptr now points to the terminating zero of stripped_mangled_name.
-  while (ptr > stripped_mangled_name)
+  char* exact_name = new char[strlen(encap_ptr) + len + 1]; // LEAK58
+  char* out        = exact_name;
+  // Add the reference to the mangled name.
+  if (*encap_ptr == 'R' || *encap_ptr == 'O')
+    *out++ = *encap_ptr++;
+  // The qualifiers of (the elements of) an array are mangled after its dimension(s).
+  while (*encap_ptr == 'A')
   {
-    --ptr;
-    --encap_ptr;
-    LIBCWD_ASSERT(*ptr == *encap_ptr); // This is how we assume the encapsulation works!
-    if (*ptr == '_')
+    do
     {
-      // Now we want to put both pointers on the 'S',
-      // but only if this could be a substitution.
-      ptr = skip_substitution(ptr, stripped_mangled_name);
-      encap_ptr = skip_substitution(encap_ptr, encap_mangled_name);
+      LIBCWD_ASSERT(*stripped_mangled_name == *encap_ptr); // This is how we assume the encapsulation works!
+      *out++ = *encap_ptr;
+      ++stripped_mangled_name;
     }
+    while (*encap_ptr++ != '_');
   }
-  // ptr is now equal to stripped_mangled_name, and encap_ptr points to the first character after the qualifiers.
-  size_t qlen = encap_ptr - encap_mangled_name;
-  char* exact_name = new char[qlen + len + 1]; // LEAK58
-  // Add the qualifiers to the mangled name:
-  strncpy(exact_name, encap_mangled_name, qlen);
-  strcpy(exact_name + qlen, stripped_mangled_name);
+  // Add the qualifiers to the mangled name.
+  while (*encap_ptr == 'r' || *encap_ptr == 'V' || *encap_ptr == 'K')
+    *out++ = *encap_ptr++;
+  // Substitutions in the remainder of the encapsulated name are numbered differently; use the stripped name instead.
+  strcpy(out, stripped_mangled_name);
   return exact_name;
 }
 #endif
-- 
2.43.0


From 70cfdca943dd6e4ef166bd69278a7527b808f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 23/47] fix: type_info_of<T* const>().ref_size() is the size of
 what is pointed to

---
 include/libcwd/type_info.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 92021cc..5a796e9 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -44,6 +44,28 @@ struct sizeof_ref
 template <typename T>
 size_t sizeof_ref_v = sizeof_ref<T>::value;
 
+// The size of what a (const and/or volatile) pointer type T points to; 0 if T is not a pointer.
+template <typename T>
+struct dereferenced_size
+{
+  static constexpr size_t value = 0;
+};
+
+template <typename T>
+struct dereferenced_size<T*>
+{
+  static constexpr size_t value = sizeof_ref<T>::value;
+};
+
+template <typename T>
+struct dereferenced_size<T* const> : dereferenced_size<T*> { };
+
+template <typename T>
+struct dereferenced_size<T* volatile> : dereferenced_size<T*> { };
+
+template <typename T>
+struct dereferenced_size<T* const volatile> : dereferenced_size<T*> { };
+
 } // namespace _private_
 
 /**
@@ -232,7 +254,7 @@ template <typename T>
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
-        0);
+        ::libcwd::_private_::dereferenced_size<T>::value);
     s_initialized_ = true;
   }
   return s_value_;
-- 
2.43.0


From 549f2e90d30ffae449e5acd932f92a8b90655a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:25 +0000
Subject: [PATCH 24/47] fix: Make the first use of type_info_of thread-safe

---
 include/libcwd/type_info.h | 111 +++++++++----------------------------
 src/type_info.cxx          |  36 ++++--------
 2 files changed, 37 insertions(+), 110 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 5a796e9..8117bd1 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -92,7 +92,12 @@ class TypeInfo
    */
   TypeInfo(int) : type_size_(0), dereferenced_type_size_(0), name_(NULL), demangled_name_("<unknown type>") { }
   /**
-   * @brief Construct a TypeInfo object for a type (T) with encoding @p type_encoding, size @p s and size of reference
+   * @brief Construct a TypeInfo object for a type (T); see init.
+   * @internal
+   */
+  TypeInfo(char const* type_encoding, size_t s, size_t rs) { init(type_encoding, s, rs); }
+  /**
+   * @brief Initialize a TypeInfo object for a type (T) with encoding @p type_encoding, size @p s and size of reference
    * @p rs.
    * @internal
    */
@@ -124,10 +129,6 @@ extern char const* extract_exact_name(char const*, char const*);
 template <typename T>
 struct type_info
 {
- private:
-  static TypeInfo s_value_;
-  static bool s_initialized_;
-
  public:
   static TypeInfo const& value();
 };
@@ -137,10 +138,6 @@ struct type_info
 template <typename T>
 struct type_info<T*>
 {
- private:
-  static TypeInfo s_value_;
-  static bool s_initialized_;
-
  public:
   static TypeInfo const& value();
 };
@@ -150,52 +147,26 @@ struct type_info<T*>
 template <>
 struct type_info<void*>
 {
- private:
-  static TypeInfo s_value_;
-  static bool s_initialized_;
-
  public:
   static TypeInfo const& value();
 };
 
-// _private_::
-template <typename T>
-TypeInfo type_info<T>::s_value_;
-
-// _private_::
-template <typename T>
-bool type_info<T>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T).name(), sizeof(T), 0);
-    s_initialized_ = true;
-  }
-  return s_value_;
+  // Thread-safe, and done exactly once, on first use.
+  static TypeInfo const s_value(typeid(T).name(), sizeof(T), 0);
+  return s_value;
 }
 
-// _private_::
-template <typename T>
-TypeInfo type_info<T*>::s_value_;
-
-// _private_::
-template <typename T>
-bool type_info<T*>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
-  return s_value_;
+  // Thread-safe, and done exactly once, on first use.
+  static TypeInfo const s_value(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>);
+  return s_value;
 }
 
 } // namespace _private_
@@ -207,10 +178,6 @@ TypeInfo const& type_info<T*>::value()
 template <typename T>
 struct libcwd_type_info_exact
 {
- private:
-  static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
-
  public:
   static ::libcwd::TypeInfo const& value();
 };
@@ -219,10 +186,6 @@ struct libcwd_type_info_exact
 template <typename T>
 struct libcwd_type_info_exact<T*>
 {
- private:
-  static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
-
  public:
   static ::libcwd::TypeInfo const& value();
 };
@@ -231,54 +194,32 @@ struct libcwd_type_info_exact<T*>
 template <>
 struct libcwd_type_info_exact<void*>
 {
- private:
-  static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
-
  public:
   static ::libcwd::TypeInfo const& value();
 };
 
-template <typename T>
-::libcwd::TypeInfo libcwd_type_info_exact<T>::s_value_;
-
-template <typename T>
-bool libcwd_type_info_exact<T>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(::libcwd::_private_::extract_exact_name(
-          typeid(libcwd_type_info_exact<T>).name(),
-          typeid(T).name()),
-        sizeof(T),
-        ::libcwd::_private_::dereferenced_size<T>::value);
-    s_initialized_ = true;
-  }
-  return s_value_;
+  // Thread-safe, and done exactly once, on first use.
+  static ::libcwd::TypeInfo const s_value(::libcwd::_private_::extract_exact_name(
+        typeid(libcwd_type_info_exact<T>).name(),
+        typeid(T).name()),
+      sizeof(T),
+      ::libcwd::_private_::dereferenced_size<T>::value);
+  return s_value;
 }
 
-template <typename T>
-::libcwd::TypeInfo libcwd_type_info_exact<T*>::s_value_;
-
-template <typename T>
-bool libcwd_type_info_exact<T*>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(::libcwd::_private_::extract_exact_name(
-          typeid(libcwd_type_info_exact<T*>).name(),
-          typeid(T*).name()),
-        sizeof(T*),
-        ::libcwd::_private_::sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
-  return s_value_;
+  // Thread-safe, and done exactly once, on first use.
+  static ::libcwd::TypeInfo const s_value(::libcwd::_private_::extract_exact_name(
+        typeid(libcwd_type_info_exact<T*>).name(),
+        typeid(T*).name()),
+      sizeof(T*),
+      ::libcwd::_private_::sizeof_ref_v<T>);
+  return s_value;
 }
 
 namespace libcwd {
diff --git a/src/type_info.cxx b/src/type_info.cxx
index 250c941..2574e4c 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -71,42 +71,28 @@ char const* make_label(char const* mangled_name)
   return strcpy(new char[out.size() + 1], out.c_str()); // LEAK44
 }
 
-TypeInfo type_info<void*>::s_value_;
-
-bool type_info<void*>::s_initialized_;
-
 TypeInfo const& type_info<void*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
-    s_initialized_ = true;
-  }
-  return s_value_;
+  // Thread-safe, and done exactly once, on first use.
+  static TypeInfo const s_value(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
+  return s_value;
 }
 
 } // namespace _private_
 
 } // namespace libcwd
 
-libcwd::TypeInfo libcwd_type_info_exact<void*>::s_value_;
-
-bool libcwd_type_info_exact<void*>::s_initialized_;
-
 libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
 {
-  if (!s_initialized_)
-  {
+  // Thread-safe, and done exactly once, on first use.
 #if __GXX_ABI_VERSION == 0
-    s_value_.init(
-        ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name()),
-        sizeof(void*), 0 /* unknown */);
+  static libcwd::TypeInfo const s_value(
+      ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name()),
+      sizeof(void*), 0 /* unknown */);
 #else
-    s_value_.init(::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name(),
-                                                          typeid(void*).name()),
-                  sizeof(void*), 0 /* unknown */);
+  static libcwd::TypeInfo const s_value(
+      ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name(), typeid(void*).name()),
+      sizeof(void*), 0 /* unknown */);
 #endif
-    s_initialized_ = true;
-  }
-  return s_value_;
+  return s_value;
 }
-- 
2.43.0


From 2d8dd18ab0af3163a9134eea7e052dd9a05567e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 25/47] fix: ref_size() of the type of a volatile pointer
 object

---
 include/libcwd/type_info.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 8117bd1..97d06f7 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -156,7 +156,7 @@ template <typename T>
 TypeInfo const& type_info<T>::value()
 {
   // Thread-safe, and done exactly once, on first use.
-  static TypeInfo const s_value(typeid(T).name(), sizeof(T), 0);
+  static TypeInfo const s_value(typeid(T).name(), sizeof(T), dereferenced_size<T>::value);
   return s_value;
 }
 
-- 
2.43.0


From c8fba430e274b36137b198a9d227f7c7d7bf0f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 26/47] fix: Only the channel "WARNING" is on by default, not
 those with a prefix of that as label

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 82290f7..9ada412 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -517,7 +517,7 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   channel.initialize(channels_w, label, label_len);
 
   // Turn debug channel "WARNING" on by default.
-  __libcwd_tsd.off_cnt_array[channel.index()] = strncmp(channel.get_label(), "WARNING", label_len) == 0 ? -1 : 0;
+  __libcwd_tsd.off_cnt_array[channel.index()] = strcmp(label, "WARNING") == 0 ? -1 : 0;
 
   if (add_to_channel_list)
   {
-- 
2.43.0


From 5485464ecaa48be09494a13d54b4b759e4b9eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 27/47] fix: Refuse more debug channels or debug objects than
 there is room for

---
 src/debug.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 9ada412..8dadccd 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -486,6 +486,9 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
 
   Impl::channel_sets_ts::wat channels_w(impl->channel_sets);
 
+  if (channels_w->next_index_ + 1 >= LIBCWD_DC_MAX) // Index 0 is not used, see Channel::initialize.
+    DoutFatal(dc::core, "Too many debug channels; LIBCWD_DC_MAX is " << LIBCWD_DC_MAX);
+
   const_cast<char*>(channels::dc::core.get_label())[WST_max_len] = ' ';
   const_cast<char*>(channels::dc::fatal.get_label())[WST_max_len] = ' ';
   for (Channel* debug_channel : channels_w->visible_)
@@ -1218,6 +1221,9 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
   DEBUGDEBUG_CERR("Setting initialized_ to true");
 #endif
 
+  if (s_index_count_ >= LIBCWD_DO_MAX)
+    DoutFatal(dc::core, "Too many debug objects; LIBCWD_DO_MAX is " << LIBCWD_DO_MAX);
+
   _private_::DebugObjects::instance().add_if_missing(this);
   new (_private_::WST_dummy_output_state)
       OutputState(0, channels::dc::debug.get_label(), 0); // Leaks 24 bytes of memory
-- 
2.43.0


From ba70bb6b1fdb57830c4b06eaf9743e0be3b31845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:27 +0000
Subject: [PATCH 28/47] fix: Turning ELFUTILS off again in the rcfile left it
 off more than once

---
 src/utils/rcfile.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index cfa1335..89c85be 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -138,7 +138,8 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
       else if (elfutils_on_ && (action == off || action == toggle))
       {
         elfutils_on_ = false;
-        debugChannel.off();
+        if (debugChannel.is_on()) // It is only really turned on at the end of read().
+          debugChannel.off();
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
-- 
2.43.0


From 0ab8ad4879a34b329e3db338de0f6e6f45326ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:14 +0000
Subject: [PATCH 29/47] fix: A second RcFile::read() thought that
 LIBCWD_RCFILE_NAME is set after an empty override file

---
 src/utils/rcfile.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 89c85be..9b80c7f 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -42,6 +42,7 @@ void RcFile::print_delayed_msg(int env_var, std::string const& value) const
 std::string RcFile::determine_rcfile_name()
 {
   // Can be overridden with the environment variable LIBCWD_RCFILE_NAME
+  env_set_ = false;
   if (!(rcname_ = getenv("LIBCWD_RCFILE_NAME")))
     rcname_ = ".libcwdrc"; // Default rcfile name.
   else
-- 
2.43.0


From cdc6af6e31eb79019c50defd186570a529865092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 30/47] fix: Free the margins and markers that are still pushed
 when a thread exits

---
 src/debug.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 8dadccd..8e48a70 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1308,6 +1308,15 @@ DebugObject_ThreadSpecificData::~DebugObject_ThreadSpecificData()
   color_off.deinitialize();
   margin.deinitialize();
   marker.deinitialize();
+  // Free what was pushed but not popped.
+  for (DebugStringStackElement* stack : {margin_stack, marker_stack})
+    while (stack)
+    {
+      DebugStringStackElement* next = stack->next;
+      stack->debug_string.deinitialize();
+      free(stack);
+      stack = next;
+    }
   if (!tsd_initialized) // Skip the rest when it wasn't initialized.
     return;
   // Sanity checks:
-- 
2.43.0


From 5ecbe7198b2fec2dd85b353ad514d98e5325f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 31/47] fix: Do not write without the lock when try_lock of the
 stream mutex fails

---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index b74f8a9..3c7fd0b 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -190,7 +190,7 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && mutex_->try_lock())
+  if (mutex_ && !mutex_->try_lock())
     return false;
   *locked_os_out = os ? os : real_os_;
   *locked_mutex_out = mutex_;
-- 
2.43.0


From 599e84377dc936b64c46a54201b232e20d56f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 32/47] fix: Diagnose dc::finish in the arguments of
 dc::continued of the same line

---
 src/debug.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 8e48a70..c5c7aa1 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -910,8 +910,8 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
     LIBCWD_ASSERT(current != reinterpret_cast<OutputState*>(_private_::WST_dummy_output_state));
 #endif
     current->mask = channel_set.mask; // New bits might have been added
-    if ((current->mask & finish_maskbit))
-      current->mask &= ~continued_expected_maskbit;
+    // Neither dc::continued nor dc::finish may be used for this line while the arguments of this statement are evaluated.
+    current->mask &= ~continued_expected_maskbit;
     return;
   }
 
-- 
2.43.0


From 43e1ffded7a57938dc38c6a594cf0bbdac694e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 33/47] fix: Data race between threads that call init_thread

---
 src/init_functions.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index 4c5a344..f8a108c 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -152,7 +152,7 @@ void init_thread(std::string thread_name, thread_init_t thread_init)
   if (!libcwd::libcw_do.has_mutex())
     libcwd::libcw_do.set_ostream(libcwd::libcw_do.get_ostream(), &libcwd::cout_mutex);
 
-  static bool first_thread = true;
+  static std::atomic_bool first_thread = true;
   if (!thread_name.empty())
   {
     std::string margin = thread_name.substr(0, 15) + std::string(16 - std::min(15UL, thread_name.length()), ' ');
-- 
2.43.0


From c3c2ce296b26654fb5baa69298afffe3c0eaa3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 34/47] fix: init_thread() lost the rcfile state of all
 channels when a longer label was added after init()

---
 src/init_functions.cxx | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index f8a108c..a1f2cc3 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -38,6 +38,20 @@ using rcfile_dc_states_type = std::map<std::string, bool>;
  */
 rcfile_dc_states_type rcfile_dc_states;
 
+/**
+ * Returns @a dc_label without the spaces with which it is padded.
+ *
+ * @internal
+ *
+ * The padding changes when a debug channel with a longer label is created.
+ */
+std::string strip_padding(char const* dc_label)
+{
+  std::string label(dc_label);
+  label.erase(label.find_last_not_of(' ') + 1);
+  return label;
+}
+
 /**
  * Set the default state of debug channel @a dc_label.
  *
@@ -48,7 +62,7 @@ rcfile_dc_states_type rcfile_dc_states;
 void set_state(char const* dc_label, bool is_on)
 {
   std::pair<rcfile_dc_states_type::iterator, bool> res =
-      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(std::string(dc_label), is_on));
+      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(strip_padding(dc_label), is_on));
   if (!res.second)
     __Dout(dc::warning, "Calling set_state() more than once for the same label!");
   return;
@@ -94,7 +108,7 @@ void save_dc_states()
  */
 bool is_on_in_rcfile(char const* dc_label)
 {
-  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(std::string(dc_label));
+  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(strip_padding(dc_label));
   if (iter == rcfile_dc_states.end())
   {
     __Dout(dc::warning, "is_on_in_rcfile(\"" << dc_label << "\"): \"" << dc_label << "\" is an unknown label!");
-- 
2.43.0


From bad289edece0d1ba09f0e6f8ed1ab40caca10155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 35/47] fix: A variable named `on' was shadowed in the
 arguments of Dout

---
 include/libcwd/macro_Libcwd_macros.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcwd/macro_Libcwd_macros.h b/include/libcwd/macro_Libcwd_macros.h
index 98788e2..098be06 100644
--- a/include/libcwd/macro_Libcwd_macros.h
+++ b/include/libcwd/macro_Libcwd_macros.h
@@ -89,12 +89,12 @@ extern "C" ssize_t write(int fd, void const* buf, size_t count);
     {                                                                                                           \
       using namespace ::libcwd;                                                                                 \
       ::libcwd::ChannelSetBootstrap __libcwd_channel_set(LIBCWD_DO_TSD(debug_obj), LIBCWD_TSD);                 \
-      bool on;                                                                                                  \
+      bool __libcwd_on;                                                                                         \
       {                                                                                                         \
         using namespace ::dc_namespace;                                                                         \
-        on = (__libcwd_channel_set | cntrl).on;                                                                 \
+        __libcwd_on = (__libcwd_channel_set | cntrl).on;                                                        \
       }                                                                                                         \
-      if (on)                                                                                                   \
+      if (__libcwd_on)                                                                                          \
       {                                                                                                         \
         ::libcwd::DebugObject& __libcwd_debug_object(debug_obj);                                                \
         LIBCWD_DO_TSD(__libcwd_debug_object).start(__libcwd_debug_object, __libcwd_channel_set, LIBCWD_TSD);    \
-- 
2.43.0


From b3559bc39b0d1dbb3be1a68b83df102a99b6e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 36/47] fix: Define DoutEntering when CWDEBUG is not defined

---
 nodebug.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nodebug.h b/nodebug.h
index 3e2e6c4..1aa9120 100644
--- a/nodebug.h
+++ b/nodebug.h
@@ -1,5 +1,6 @@
 #define Debug(/*STATEMENTS*/...)
 #define Dout(cntrl, ...)
+#define DoutEntering(cntrl, ...)
 #define DoutFatal(cntrl, ...) LibcwDoutFatal(, , cntrl, __VA_ARGS__)
 #define ForAllDebugChannels(/*STATEMENT*/...)
 #define ForAllDebugObjects(/*STATEMENT*/...)
-- 
2.43.0


From dc4f434638823533d0ad4c5cef6fd0e1963b8e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 37/47] fix: init() did not detect that it was called with
 other header files than those of the library

---
 include/libcwd/init_functions.h | 17 ++++++++++++++++-
 src/init_functions.cxx          | 12 ++----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/libcwd/init_functions.h b/include/libcwd/init_functions.h
index eec40cf..0aad911 100644
--- a/include/libcwd/init_functions.h
+++ b/include/libcwd/init_functions.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "libcwd/config.h"
 #include <string>
 
 // This file declares the debug::init and debug::init_thread functions
@@ -15,9 +16,23 @@ enum thread_init_t
   debug_off
 };
 
-void init();
+void init_library();
 void init_thread(std::string thread_name = "", thread_init_t thread_init = thread_init_default);
 
+/**
+ * Initialize debugging code from main.
+ *
+ * This function initializes the debug code.
+ *
+ * It must be inline: main_reached() compares the header files that the caller of init()
+ * was compiled with, with the shared libcwd object that it is linked with.
+ */
+inline void init()
+{
+  main_reached();
+  init_library();
+}
+
 } // libcwd::init_functions
 
 namespace libcwd {
diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index a1f2cc3..3cd6349 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -191,12 +191,8 @@ void init_thread(std::string thread_name, thread_init_t thread_init)
   first_thread = false;
 }
 
-/**
- * Initialize debugging code from main.
- *
- * This function initializes the debug code.
- */
-void init()
+// The part of init() that lives in the library.
+void init_library()
 {
 #ifdef DEBUGGLOBAL
   // This has to be done at the very start of main().
@@ -220,10 +216,6 @@ void init()
   std::ios::sync_with_stdio(false);
 #endif
 
-  // This will warn you when you are using header files that do not belong to the
-  // shared libcwd object that you linked with.
-  __Debug(main_reached());
-
   __Debug(
     libcw_do.on();		// Show which rcfile we are reading!
     ForAllDebugChannels(
-- 
2.43.0


From c86a36aa67669ebe330df6e4d40875bb7f0410d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 38/47] fix: A debug object that was used before it was
 constructed lost its stream

---
 include/libcwd/DebugObject.h     | 11 +++++++----
 include/libcwd/DebugObject.inl.h |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index b966906..6f77269 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -30,13 +30,15 @@ namespace _private_ {
 
 // Store the ostream destination together with the lock that protects writes to it.
 //
+// This is part of DebugObject and may be used before that is constructed (see below): it relies on being zero-initialized
+// and the members must not have an initializer.
 struct OstreamState
 {
  private:
   mutable std::mutex state_mutex_; // Protects real_os_ and mutex_ as one pair.
   std::ostream*
-      real_os_{}; // The destination selected with DebugObject::set_ostream. mutex points at the user-provided lock
-  LockInterfaceBase* mutex_{}; // User-provided lock adapter for that stream, or null while the debug object is still
+      real_os_; // The destination selected with DebugObject::set_ostream. mutex points at the user-provided lock
+  LockInterfaceBase* mutex_; // User-provided lock adapter for that stream, or null while the debug object is still
                                // limited to single-threaded output.
 
  public:
@@ -154,8 +156,9 @@ class DebugObject
   bool interactive_;
   // Set true if the last or current debug output is to cerr
 
-  std::atomic<int> always_flush_{0};
-  // Application-wide flush on/off counter for Debug Objects.
+  mutable int always_flush_;
+  // Application-wide flush on/off counter for Debug Objects. Accessed through a std::atomic_ref, because
+  // a std::atomic would reset the counter when this object is constructed.
 
  public:
   /** @addtogroup format-of-the-debug-output */
diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index 3c7fd0b..669d285 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -286,7 +286,7 @@ inline bool DebugObject::is_on(LIBCWD_TSD_PARAM) const
  */
 inline void DebugObject::always_flush_on()
 {
-  ++always_flush_;
+  ++std::atomic_ref<int>(always_flush_);
 }
 
 /**
@@ -306,15 +306,15 @@ inline void DebugObject::always_flush_on()
 inline void DebugObject::always_flush_off()
 {
 #if CWDEBUG_DEBUG
-  if (always_flush_ <= 0)
+  if (std::atomic_ref<int>(always_flush_) <= 0)
     core_dump();
 #endif
-  --always_flush_;
+  --std::atomic_ref<int>(always_flush_);
 }
 
 inline bool DebugObject::always_flush_is_on() const
 {
-  return always_flush_ > 0; // 0 means off.
+  return std::atomic_ref<int>(always_flush_) > 0; // 0 means off.
 }
 
 inline ChannelSet& ChannelSetBootstrap::operator|(Channel const& dc)
-- 
2.43.0


From c11d57be29c6b9e877f1a97b50f196f6a977f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 39/47] fix: Compile the library with CWDEBUG_DEBUG but without
 CWDEBUG_DEBUGT

---
 include/raw_write.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/raw_write.h b/include/raw_write.h
index 2b2a249..151e22e 100644
--- a/include/raw_write.h
+++ b/include/raw_write.h
@@ -16,13 +16,11 @@
 #endif
 extern "C" ssize_t write(int fd, void const* buf, size_t count);
 
-#if CWDEBUG_DEBUGT
 #include <mutex>
 #include <thread>
 namespace libcwd::_private_ {
 extern std::mutex raw_write_mutex;
 } // namespace libcwd::_private_
-#endif
 
 // The difference between DEBUGDEBUG_CERR and FATALDEBUGDEBUG_CERR is that the latter is not suppressed
 // when --disable-debug-output is used because a fatal error occurred anyway, so this can't
-- 
2.43.0


From 6d38ea32dc539c59ae3e99dfe20983e26d9ae563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 40/47] fix: Compile the library without location support

---
 include/libcwd/private/BufferStream.h | 1 +
 src/demangle.cxx                      | 1 +
 src/init_functions.cxx                | 2 ++
 src/location.cxx                      | 6 ++++++
 src/type_info.cxx                     | 2 ++
 src/utils/rcfile.cxx                  | 3 ++-
 6 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/libcwd/private/BufferStream.h b/include/libcwd/private/BufferStream.h
index 5735c2b..b7d2f1b 100644
--- a/include/libcwd/private/BufferStream.h
+++ b/include/libcwd/private/BufferStream.h
@@ -11,6 +11,7 @@
 #define LIBCWD_PRIVATE_BUFFERSTREAM_H
 
 #include "libcwd/config.h"
+#include <sstream>
 
 #ifndef HIDE_FROM_DOXYGEN
 namespace libcwd::_private_ {
diff --git a/src/demangle.cxx b/src/demangle.cxx
index 520d38d..d69f65a 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -39,6 +39,7 @@ The direct use of these functions should be avoided, instead use the function ty
 #include "libcwd/demangle.h"
 #include "libcwd/LIBCWD_ASSERT.h"
 
+#include <cstring>
 #include <limits>
 
 #ifdef STANDALONE
diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index 3cd6349..0d05502 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -2,8 +2,10 @@
 #include <libcwd/init_functions.h>
 #include <libcwd/debug.h>
 #include <utils/macros.h>
+#include <iomanip>
 #include <map>
 #include <mutex>
+#include <sstream>
 
 namespace libcwd {
 std::mutex cout_mutex;
diff --git a/src/location.cxx b/src/location.cxx
index 1614c73..57a5e5a 100644
--- a/src/location.cxx
+++ b/src/location.cxx
@@ -2,6 +2,10 @@
 // SPDX-License-Identifier: MIT
 
 #include "cwd_sys.h"
+#include <libcwd/config.h>
+
+#if CWDEBUG_LOCATION
+
 #include "cwd_dwarf.h"
 #include "libcwd/Location.h"
 #include "libcwd/debug.h"
@@ -223,3 +227,5 @@ void Location::print_filename_on(std::ostream& os) const
 }
 
 } // namespace libcwd
+
+#endif // CWDEBUG_LOCATION
diff --git a/src/type_info.cxx b/src/type_info.cxx
index 2574e4c..313af1e 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -7,6 +7,8 @@
 #include "libcwd/demangle.h"
 #include "libcwd/type_info.h"
 
+#include <cstring>
+
 namespace libcwd {
 
 /**
diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 9b80c7f..53d3d00 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -144,8 +144,9 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
+    else
 #endif
-    else if (!debugChannel.is_on() && (action == on || action == toggle))
+    if (!debugChannel.is_on() && (action == on || action == toggle))
     {
       do
       {
-- 
2.43.0


From 84b724c522897e54f17056193f56693e6c53034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 41/47] fix: Symbols of a library that was found through a
 relative path were lost after chdir

The dynamic loader keeps the relative path in its link map while the symbols
are only loaded when the first location is looked up. Use the full path.
---
 src/dwarf.cxx | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 4ca63ad..9a913db 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -557,6 +557,20 @@ std::string current_executable_path()
   }
 }
 
+// Return the full path of the object file that the dynamic loader knows as name.
+//
+// The dynamic loader uses a relative path when the library was found through a relative path. That path is only valid
+// until the process changes its current working directory, while the symbols are loaded later.
+// A name without slash, like that of the vdso, is not a path.
+std::string full_path(char const* name)
+{
+  std::error_code error_code;
+  if (!std::strchr(name, '/'))
+    return name;
+  std::filesystem::path const result = std::filesystem::absolute(name, error_code);
+  return error_code ? name : result.string();
+}
+
 // Return a compact textual representation of ELF program-header permission flags.
 // The result is used only for diagnostics while building the dwarf object/segment cache.
 // Output character positions correspond to respectively PF_R, PF_W, PF_X; a dash is
@@ -768,8 +782,8 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   // dl_iterate_phdr reports an empty name for the main executable.
   // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
   // useful for diagnostics and later public location data.
-  char const* object_filename =
-      (info->dlpi_name && info->dlpi_name[0] != '\0') ? info->dlpi_name : data->executable_path_.c_str();
+  std::string const object_filename =
+      (info->dlpi_name && info->dlpi_name[0] != '\0') ? full_path(info->dlpi_name) : data->executable_path_;
 
   // A DSO can be discovered through a delayed dlopen registration while an
   // outer dl_iterate_phdr pass is still running.  Avoid constructing and
@@ -789,7 +803,7 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   // ObjectFile payload address, is stored in every PTLoadSegment so all future
   // users are forced through threadsafe access objects before touching mutable
   // per-object DWARF state.
-  ObjectFile const* object_file = new ObjectFile(lbase, object_filename);
+  ObjectFile const* object_file = new ObjectFile(lbase, object_filename.c_str());
 
   __Dout(dc::elfutils, "Adding PT_LOAD segments for \"" << object_filename << "\" at 0x" << std::hex << lbase
                                                       << " pointing to ObjectFile at " << object_file);
-- 
2.43.0


From b6e7f73f3d50815a824d243f1e1de29bdd3270a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 42/47] fix: Looking up a location could change errno

---
 src/dwarf.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 9a913db..624eb05 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1118,6 +1118,8 @@ bool ObjectFileData::add_function_symbol_range(Dwarf_Addr start_pc, Dwarf_Addr e
 // pointers and the Elf handle is closed before location lookups use the cache.
 void ObjectFileData::load_elf_function_symbols(uintptr_t lbase, std::string const& object_file_path)
 {
+  ScopedPreserveErrno scoped_(errno);
+
   // Only attempt this once.
   elf_symbols_loaded_ = true;
 
-- 
2.43.0


From 348484d90f8e1b597b28f60b6f9469541864d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 43/47] fix: Use after free when assigning a Location to the
 Location that owns the same path

---
 src/location.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/location.cxx b/src/location.cxx
index 57a5e5a..ebaa4d1 100644
--- a/src/location.cxx
+++ b/src/location.cxx
@@ -197,7 +197,10 @@ Location::Location(Location const& prototype)
 
 Location& Location::operator=(Location const& prototype)
 {
-  if (this != &prototype)
+  // If both share a path that we own then we are already equivalent to prototype and should not free that path.
+  bool const shares_owned_path =
+      known_ && prototype.known_ && filepath_.is_owner() && filepath_.get() == prototype.filepath_.get();
+  if (this != &prototype && !shares_owned_path)
   {
     clear();
     if ((known_ = prototype.known_))
-- 
2.43.0


From 5d9aac5bbc4c600e1ae5172d0cbaf787135d70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 44/47] fix: Locations were lost or wrong after dlopen and
 dlclose

What is loaded was derived from the arguments of dlopen and dlclose, which fails for dependencies of a library,
RTLD_NOLOAD, libraries that were linked or that are needed by other libraries, and calls by several threads.
Ask the dynamic loader instead.
---
 src/dwarf.cxx | 323 +++++++++++++++++++-------------------------------
 1 file changed, 120 insertions(+), 203 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 624eb05..af0b681 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -21,7 +21,10 @@
 #include <filesystem>
 #include <limits>
 #include <map>
+#include <mutex>
+#include <set>
 #include <string>
+#include <vector>
 #include <dlfcn.h>
 #include <dwarf.h>
 #include <elf.h>
@@ -29,9 +32,6 @@
 #include <elfutils/libdwfl.h>
 #include <fcntl.h>
 #include <link.h>
-#ifdef HAVE_DLOPEN
-#include <mutex>
-#endif
 
 namespace libcwd {
 namespace _private_ {
@@ -175,30 +175,27 @@ class ObjectFileRegistry
   // Accessor.
   libcwd::ObjectFileName const& object_file_name() const { return object_file_name_; }
 
-  // Information passed to the cb_dl_iterate_phdr call back function.
-  struct CallBackData
+  // A copy of one entry in the list of loaded object files of the dynamic loader.
+  struct LoadedObjectFile
   {
-    std::string executable_path_; // The full path to the current executable.
-    // Used for targeted dlopen-driven object discovery:
-    uintptr_t target_lbase_; // When non-zero, create an ObjectFile only for the DSO with this load base.
-    mutable ObjectFile const* object_file_{}; // Set to the ObjectFile aggregate for target_lbase_.
-
-    CallBackData(std::string const& executable_path, uintptr_t target_lbase = 0) :
-        executable_path_(executable_path), target_lbase_(target_lbase)
-    {
-    }
+    uintptr_t lbase_;
+    std::string link_name_; // The name used by the dynamic loader; empty for the main executable.
+    std::vector<ElfW(Phdr)> segments_; // The non-empty PT_LOAD segments.
   };
 
   friend bool ensure_initialization(LIBCWD_TSD_PARAM);
   static void register_initial_object_files();
-  static ObjectFile const* iterate_program_headers(CallBackData const& data);
-  static int cb_dl_iterate_phdr(dl_phdr_info* info, size_t size, void* call_back_data);
-  static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
+  static int cb_dl_iterate_phdr(dl_phdr_info* info, size_t size, void* loaded_object_files);
+  static bool object_files_initialized() { return s_object_files_initialized_.load(std::memory_order_relaxed); }
 
-  // Called from dlopen.
-  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase);
+  // Called from dlopen and dlclose.
+  static void synchronize_object_files();
   // Needed for Location.
   static ObjectFile const* find_object_file(uintptr_t addr);
+
+ private:
+  static std::set<ObjectFile const*> registered_object_files();
+  static void register_object_file(LoadedObjectFile const& loaded_object_file);
 };
 
 //static
@@ -442,9 +439,15 @@ class ObjectFile final : public ObjectFileInterface
  private:
   using object_file_data_ts = threadsafe::Unlocked<ObjectFileData, threadsafe::policy::ReadWrite<AIReadWriteMutex>>;
   mutable object_file_data_ts object_file_data_; // Thread-safe storage wrapper for ObjectFile instances.
+  std::string const link_name_; // The name by which the dynamic loader knows this object file.
 
  public:
-  ObjectFile(uintptr_t lbase, char const* filename) : ObjectFileInterface(lbase), object_file_data_(filename, lbase) { }
+  ObjectFile(uintptr_t lbase, char const* filename, std::string const& link_name) :
+      ObjectFileInterface(lbase), object_file_data_(filename, lbase), link_name_(link_name)
+  {
+  }
+
+  std::string const& link_name() const { return link_name_; }
 
   ObjectFile(ObjectFile const&) = delete;
   ObjectFile& operator=(ObjectFile const&) = delete;
@@ -733,8 +736,6 @@ void ObjectFileRegistry::register_initial_object_files()
   //
   // Start a new scope for the write lock.
   {
-    CallBackData const data{current_executable_path()};
-
     // This is the initial population pass for the dwarf object/segment cache.
     // Even if dlopen is called first, that still will first call this function.
     LIBCWD_ASSERT(object_files_ts::rat{object_files_map()}->empty());
@@ -743,7 +744,7 @@ void ObjectFileRegistry::register_initial_object_files()
     if (!statically_linked)
     {
       // Iterate over all currently loaded object files and create new ObjectFile's for them.
-      iterate_program_headers(data);
+      synchronize_object_files();
     }
 
     // Relaxed is OK: we get here from the main thread before any other thread (that
@@ -753,75 +754,117 @@ void ObjectFileRegistry::register_initial_object_files()
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
+int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/, void* loaded_object_files)
 {
-  // From https://man7.org/linux/man-pages/man3/dl_iterate_phdr.3.html:
-  //
-  // The dl_iterate_phdr() function walks through the list of an application's shared objects and
-  // calls the function cb_dl_iterate_phdr once for each object, until either all shared objects
-  // have been processed or cb_dl_iterate_phdr returns a nonzero value.
-  //
-  // A non-zero data.target_lbase_ makes the callback stop after the matching object;
-  // zero means enumerate all currently loaded objects.
-  //
-  dl_iterate_phdr(cb_dl_iterate_phdr, const_cast<CallBackData*>(&data));
-  return data.object_file_;
+  LoadedObjectFile loaded_object_file{static_cast<uintptr_t>(info->dlpi_addr), info->dlpi_name ? info->dlpi_name : "", {}};
+  for (ElfW(Half) phdr_index = 0; phdr_index < info->dlpi_phnum; ++phdr_index)
+  {
+    ElfW(Phdr) const& phdr = info->dlpi_phdr[phdr_index];
+    // The Elf-64 Object File Format specifies that p_memsz may be zero
+    // (https://man7.org/linux/man-pages/man5/elf.5.html)
+    if (phdr.p_type == PT_LOAD && phdr.p_memsz != 0)
+      loaded_object_file.segments_.push_back(phdr);
+  }
+  // If there is no segment then we want to ignore this object file.
+  if (!loaded_object_file.segments_.empty())
+    static_cast<std::vector<LoadedObjectFile>*>(loaded_object_files)->push_back(std::move(loaded_object_file));
+  return 0;
 }
 
+// ObjectFileRegistry::synchronize_object_files
+//
+// Make object_files_map() agree with the dynamic loader: add what was loaded since the previous call
+// and remove what was unloaded.
+//
+// Only the dynamic loader knows which object files are loaded: one call to dlopen can load any number of
+// dependencies, and whether or not dlclose unloads anything depends on other libraries that need the same object
+// file, on RTLD_NODELETE and on all handles that were returned before.
+//
 //static
-int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/, void* call_back_data)
+void ObjectFileRegistry::synchronize_object_files()
 {
-  CallBackData const* data = static_cast<CallBackData const*>(call_back_data);
-  uintptr_t const lbase = static_cast<uintptr_t>(info->dlpi_addr);
-  bool const target_lbase_only = data->target_lbase_ != 0;
+  // Serializes taking the snapshot and processing it: the result of an old snapshot may not overwrite that of a new one.
+  static std::recursive_mutex synchronize_mutex;
+  static bool active = false;
+  static bool again = false;
 
-  // If this is not the target object; advance to the next.
-  if (target_lbase_only && lbase != data->target_lbase_)
-    return 0;
+  std::lock_guard<std::recursive_mutex> lock(synchronize_mutex);
 
-  // dl_iterate_phdr reports an empty name for the main executable.
-  // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
-  // useful for diagnostics and later public location data.
-  std::string const object_filename =
-      (info->dlpi_name && info->dlpi_name[0] != '\0') ? full_path(info->dlpi_name) : data->executable_path_;
+  // This can be called recursively when writing debug output causes a library to be loaded.
+  again = true;
+  if (active)
+    return;
+  ScopedTracker scoped_{active};
 
-  // A DSO can be discovered through a delayed dlopen registration while an
-  // outer dl_iterate_phdr pass is still running.  Avoid constructing and
-  // inserting a duplicate ObjectFile when the iterator later reaches the same
-  // link-map entry.
+  while (again)
   {
-    object_files_ts::wat object_files_w(object_files_map());
-    ScopedTracker scoped_{s_object_files_is_locked_};
-    if (ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_w))
+    again = false;
+
+    std::vector<LoadedObjectFile> loaded_object_files;
+    dl_iterate_phdr(cb_dl_iterate_phdr, &loaded_object_files);
+
+    // Remove what was unloaded first, because the address range could have been reused already.
+    std::set<uintptr_t> registered_lbases;
+    for (ObjectFile const* object_file : registered_object_files())
     {
-      data->object_file_ = existing_object_file;
-      return target_lbase_only;
+      bool const still_loaded = std::any_of(
+          loaded_object_files.begin(), loaded_object_files.end(), [object_file](LoadedObjectFile const& loaded_object_file) {
+            return loaded_object_file.lbase_ == object_file->get_lbase() && loaded_object_file.link_name_ == object_file->link_name();
+          });
+      if (still_loaded)
+        registered_lbases.insert(object_file->get_lbase());
+      else
+      {
+        ObjectFile const* obsolete_object_file =
+            object_file->write_locked_data()->unregister_object_file_ranges(object_file);
+        // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
+        // in use.
+        delete obsolete_object_file;
+      }
     }
+
+    for (LoadedObjectFile const& loaded_object_file : loaded_object_files)
+      if (registered_lbases.find(loaded_object_file.lbase_) == registered_lbases.end())
+        register_object_file(loaded_object_file);
   }
+}
+
+//static
+std::set<ObjectFile const*> ObjectFileRegistry::registered_object_files()
+{
+  std::set<ObjectFile const*> result;
+  object_files_ts::rat object_files_r(object_files_map());
+  ScopedTracker scoped_{s_object_files_is_locked_};
+  for (auto const& [segment_end, segment] : *object_files_r)
+    result.insert(segment.object_file());
+  return result;
+}
+
+//static
+void ObjectFileRegistry::register_object_file(LoadedObjectFile const& loaded_object_file)
+{
+  uintptr_t const lbase = loaded_object_file.lbase_;
+
+  // The dynamic loader uses an empty name for the main executable.
+  // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
+  // useful for diagnostics and later public location data.
+  std::string const object_filename =
+      loaded_object_file.link_name_.empty() ? current_executable_path() : full_path(loaded_object_file.link_name_.c_str());
 
   // Create a new ObjectFileData wrapper.  The wrapper address, not the protected
   // ObjectFile payload address, is stored in every PTLoadSegment so all future
   // users are forced through threadsafe access objects before touching mutable
   // per-object DWARF state.
-  ObjectFile const* object_file = new ObjectFile(lbase, object_filename.c_str());
+  ObjectFile const* object_file = new ObjectFile(lbase, object_filename.c_str(), loaded_object_file.link_name_);
 
   __Dout(dc::elfutils, "Adding PT_LOAD segments for \"" << object_filename << "\" at 0x" << std::hex << lbase
                                                       << " pointing to ObjectFile at " << object_file);
 
   // Insert one immutable PTLoadSegment per loadable segment into the end-keyed map.
-  // The map owns the discoverable active address ranges; the pointed-to objects are intentionally kept stable
-  // for the process lifetime until later dlclose/tombstone semantics are designed.
-  bool have_pt_load_segment = false;
-  for (ElfW(Half) phdr_index = 0; phdr_index < info->dlpi_phnum; ++phdr_index)
+  // The map owns the discoverable active address ranges.
+  for (ElfW(Phdr) const& phdr : loaded_object_file.segments_)
   {
-    ElfW(Phdr) const& phdr = info->dlpi_phdr[phdr_index];
-    if (phdr.p_type != PT_LOAD ||
-        // The Elf-64 Object File Format specifies that p_memsz may be zero
-        // (https://man7.org/linux/man-pages/man5/elf.5.html)
-        phdr.p_memsz == 0)
-      continue;
-
-    uintptr_t const segment_start = static_cast<uintptr_t>(info->dlpi_addr + phdr.p_vaddr);
+    uintptr_t const segment_start = lbase + static_cast<uintptr_t>(phdr.p_vaddr);
     uintptr_t const segment_end = segment_start + static_cast<uintptr_t>(phdr.p_memsz);
     LIBCWD_ASSERT(segment_end > segment_start);
 
@@ -836,51 +879,7 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
     __Dout(dc::elfutils, "    map[" << (void*)segment_end << "] = PTLoadSegment " << ibp.first->second << " ["
                                   << (void*)segment_start << '-' << (void*)segment_end
                                   << ") flags=" << flags_to_string(phdr.p_flags));
-
-    // Set data->object_file_ to point to the ObjectFile member of the first PTLoadSegment element of
-    // object_files_map().
-    have_pt_load_segment = true;
-  }
-
-  // If no PTLoadSegment was inserted, then we want to ignore this object file.
-  if (have_pt_load_segment)
-    data->object_file_ = object_file;
-  else
-    delete object_file;
-
-  // Stop iterating iff there was only one target.
-  return target_lbase_only;
-}
-
-//static
-ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t lbase,
-                                                                  object_files_ts::wat const& object_files_w)
-{
-  // The writable map is keyed by PT_LOAD end address and can contain multiple
-  // segments for the same object file.  Treat any segment whose owning
-  // ObjectFile has the requested load base as proof that the object was already
-  // registered; this prevents duplicate ObjectFile creation when loader
-  // enumeration reports a DSO that was discovered through an earlier path.
-  for (auto const& [segment_end, segment] : *object_files_w)
-  {
-    if (segment.object_file()->get_lbase() == lbase)
-      return segment.object_file();
   }
-  return nullptr;
-}
-
-//static
-ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase)
-{
-  // Locks object_files_map().
-  CallBackData const data{current_executable_path(), lbase};
-
-  // If this object file was already loaded before, then return that instead of creating a new ObjectFile.
-  ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_ts::wat{object_files_map()});
-
-  // Otherwise iterate over all currently loaded object files to find the just dynamically
-  // opened object file, loaded at data.target_lbase_, and create a new ObjectFile for it.
-  return existing_object_file ? existing_object_file : iterate_program_headers(data);
 }
 
 //static
@@ -1283,10 +1282,6 @@ void ObjectFileData::close_dwarf()
 
 #ifdef HAVE_DLOPEN
 namespace {
-
-// Real dynamic-loader entry points used by the exported wrappers below.  The
-// wrappers are responsible for keeping dwarf's loaded-segment map synchronized
-// with libraries added by dlopen and, eventually, removed by dlclose.
 extern "C" {
 static union
 {
@@ -1302,26 +1297,6 @@ static union
 std::once_flag initialize_real_dlopen;
 std::once_flag initialize_real_dlclose;
 
-struct DynamicLoaderRecord
-{
-  int refcount_;
-  int flags_;
-  ObjectFile const* object_file_;
-
-  DynamicLoaderRecord(ObjectFile const* object_file, int flags) : refcount_(1), flags_(flags), object_file_(object_file)
-  {
-  }
-};
-
-using dynamic_loader_records_ts = threadsafe::Unlocked<std::map<void*, DynamicLoaderRecord, std::less<void*>>,
-                                                       threadsafe::policy::Primitive<std::mutex>>;
-
-dynamic_loader_records_ts& dlopen_map()
-{
-  static dynamic_loader_records_ts* map = new dynamic_loader_records_ts; // Intentionally leaked for late DSO teardown.
-  return *map;
-}
-
 } // namespace
 #endif // HAVE_DLOPEN
 
@@ -1339,8 +1314,7 @@ void* dlopen(char const* name, int flags)
   bool const need_register_object_file = name && *name;
 
   // Ensure the initial dwarf object/segment cache exists before the new DSO is mapped.
-  // That makes the following post-dlopen pass responsible only for the just-loaded link_map entry, and avoids duplicate
-  // startup registration.
+  // That makes the following post-dlopen pass responsible only for what is loaded by this call.
   if (need_register_object_file)
     libcwd::initialize();
 
@@ -1355,49 +1329,13 @@ void* dlopen(char const* name, int flags)
          "libcwd too or when it allocates any memory!");
     return handle;
   }
-  if (handle == nullptr)
-    return handle;
-#ifdef RTLD_NOLOAD
-  if ((flags & RTLD_NOLOAD))
-    return handle;
-#endif
-
-  // If the record already exist, increment DynamicLoaderRecord::refcount_ and return.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-    {
-      auto iter = dynamic_loader_records_w->find(handle);
-      if (iter != dynamic_loader_records_w->end())
-      {
-        ++iter->second.refcount_;
-        iter->second.flags_ |= flags;
-        return handle;
-      }
-    }
-  }
-
-  if (need_register_object_file)
+  if (handle && need_register_object_file)
   {
-    struct link_map* link_map;
-    if (::dlinfo(handle, RTLD_DI_LINKMAP, &link_map) == 0)
-    {
-      uintptr_t const lbase = static_cast<uintptr_t>(link_map->l_addr);
-      ObjectFile const* object_file = nullptr;
-      bool skip_dlopen_map = false;
-      ForceLoadingDebugOutput scoped_;
-      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase);
-      // NULL would mean that there is no DSO at the `l_addr` that `dlinfo` just returned.
-      // That shouldn't be possible because no thread can have dlclose-d it without already haven gotten the handle that
-      // we didn't even return yet. However, in theory it can also mean that this DSO didn't have any non-empty PT_LOAD
-      // segments, in which case we just want to ignore the DSO.
-      if (!object_file)
-        skip_dlopen_map = true;
-      if (!skip_dlopen_map)
-        dynamic_loader_records_ts::wat(dlopen_map())->emplace(handle, DynamicLoaderRecord{object_file, flags});
-    }
+    ScopedPreserveErrno preserve_errno(errno);
+    ForceLoadingDebugOutput scoped_;
+    ObjectFileRegistry::synchronize_object_files();
   }
 
-  // Unlock dlopen_map and return handle.
   return handle;
 }
 
@@ -1412,34 +1350,13 @@ int dlclose(void* handle)
   if (error != 0 || statically_linked)
     return error;
 
-  ObjectFile const* object_file_to_unregister = nullptr;
-
-  // Remove the corresponding DynamicLoaderRecord from the dlopen_map if this was the last reference.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-
-    auto iter = dynamic_loader_records_w->find(handle);
-    if (iter != dynamic_loader_records_w->end() && --iter->second.refcount_ == 0)
-    {
-#ifdef RTLD_NODELETE
-      if (!(iter->second.flags_ & RTLD_NODELETE))
-#endif
-        object_file_to_unregister = iter->second.object_file_;
-      dynamic_loader_records_w->erase(iter);
-    }
-  }
-
-  if (object_file_to_unregister)
+  if (ObjectFileRegistry::object_files_initialized())
   {
+    ScopedPreserveErrno preserve_errno(errno);
     ForceLoadingDebugOutput scoped_;
-    ObjectFile const* obsolete_object_file =
-        object_file_to_unregister->write_locked_data()->unregister_object_file_ranges(object_file_to_unregister);
-    // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
-    // in use.
-    delete obsolete_object_file;
+    ObjectFileRegistry::synchronize_object_files();
   }
 
-  // Unlock dlopen_map and return success.
   return 0;
 }
 
-- 
2.43.0


From be5ca052a1341aa97621c7fbaaf53695e49ad02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 45/47] fix: Threads that looked up a location at the same time
 used the same Dwarf handle of libdw

---
 src/dwarf.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index af0b681..5282459 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -334,6 +334,10 @@ LocationLookupResult SymbolRange::lookup_location(uintptr_t addr, uintptr_t lbas
   LocationLookupResult result;
   result.physical_function_name = name_;
 
+  // libdw does not allow that several threads use the same Dwarf handle, and reads the debug information lazily.
+  static std::mutex libdw_mutex;
+  std::lock_guard<std::mutex> lock(libdw_mutex);
+
   Dwarf_Die cu_die;
   if (!die_.addr || dwarf_diecu(const_cast<Dwarf_Die*>(&die_), &cu_die, NULL, NULL) == nullptr)
     return result;
-- 
2.43.0


From 51c128a3bc0b591c8e4c2ba7b18c46aee060cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 46/47] fix: Deadlock when a constructor of a library uses
 dlclose while another thread does that for the first time

---
 src/dwarf.cxx | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 5282459..d3dc639 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1286,20 +1286,25 @@ void ObjectFileData::close_dwarf()
 
 #ifdef HAVE_DLOPEN
 namespace {
-extern "C" {
-static union
-{
-  void* symptr;
-  void* (*func)(char const*, int);
-} real_dlopen;
-static union
+std::atomic<void* (*)(char const*, int)> real_dlopen;
+std::atomic<int (*)(void*)> real_dlclose;
+
+// Initialize real_function if that wasn't done yet, and return its value.
+//
+// This is not using std::call_once because that leads to a deadlock: a constructor of a library that is being loaded
+// can get here, and would wait for the thread that is initializing real_function, while the latter has to wait in dlsym
+// until the loading of that library is finished. There is no problem in calling dlsym more than once.
+template <typename FUNCTION_POINTER>
+FUNCTION_POINTER get_real(std::atomic<FUNCTION_POINTER>& real_function, char const* name)
 {
-  void* symptr;
-  int (*func)(void*);
-} real_dlclose;
+  FUNCTION_POINTER result = real_function.load(std::memory_order_relaxed);
+  if (!result)
+  {
+    result = reinterpret_cast<FUNCTION_POINTER>(dlsym(RTLD_NEXT, name));
+    real_function.store(result, std::memory_order_relaxed);
+  }
+  return result;
 }
-std::once_flag initialize_real_dlopen;
-std::once_flag initialize_real_dlclose;
 
 } // namespace
 #endif // HAVE_DLOPEN
@@ -1322,10 +1327,7 @@ void* dlopen(char const* name, int flags)
   if (need_register_object_file)
     libcwd::initialize();
 
-  // Initialize real_dlopen if that wasn't done yet.
-  std::call_once(initialize_real_dlopen, []() { real_dlopen.symptr = dlsym(RTLD_NEXT, "dlopen"); });
-
-  void* handle = real_dlopen.func(name, flags);
+  void* handle = get_real(real_dlopen, "dlopen")(name, flags);
   if (statically_linked)
   {
     __Dout(dc::warning,
@@ -1347,10 +1349,7 @@ int dlclose(void* handle)
 {
   using namespace libcwd::dwarf;
 
-  // Initialize real_dlclose if that wasn't done yet.
-  std::call_once(initialize_real_dlclose, []() { real_dlclose.symptr = dlsym(RTLD_NEXT, "dlclose"); });
-
-  int error = real_dlclose.func(handle);
+  int error = get_real(real_dlclose, "dlclose")(handle);
   if (error != 0 || statically_linked)
     return error;
 
-- 
2.43.0


From bf4d81efdee2ffc3c20900263ff23595831df763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 47/47] fix: attach_gdb: don't use the status of a child that
 can't be waited for

---
 src/utils/attach_gdb.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index f81f711..b019c05 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -83,7 +83,9 @@ void attach_gdb()
           if (pid3 == pid2 || ((int)pid3 == -1 && errno == ECHILD))
           {
             libcwd_attach_gdb_hook = 0;
-            if (WIFEXITED(status))
+            if (pid3 != pid2) // The status is unknown (for example, because SIGCHLD is ignored).
+              __DoutFatal(dc::core, "Failed to start gdb: 'xterm' terminated before attaching to the process.");
+            else if (WIFEXITED(status))
               __DoutFatal(dc::core,
                         "Failed to start gdb: 'xterm' terminated with exit code "
                             << WEXITSTATUS(status)
-- 
2.43.0

