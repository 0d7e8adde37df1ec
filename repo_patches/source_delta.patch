From 738a8ebb5d24bfd251a86512285b3e732c52056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 01/29] fix: do not read before the start of an empty section
 name in config files

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index d586523..a3c01cd 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -97,7 +97,7 @@ namespace boost { namespace program_options { namespace detail {
                 // Handle section name
                 if (*s.begin() == '[' && *s.rbegin() == ']') {
                     m_prefix = s.substr(1, s.size()-2);
-                    if (*m_prefix.rbegin() != '.')
+                    if (m_prefix.empty() || *m_prefix.rbegin() != '.')
                         m_prefix += '.';
                 }
                 else if ((n = s.find('=')) != string::npos) {
-- 
2.43.0


From 3f692251ab36aec680b2e6a56adea3fa2747ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 02/29] fix: do not access a missing original token when
 reporting an ambiguous option

---
 src/cmdline.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 8f4ae64..56a926a 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -310,8 +310,12 @@ namespace boost { namespace program_options { namespace detail {
             } 
             catch(error_with_option_name& e)
             {
-                // add context and rethrow
-                e.add_context(opt.string_key, opt.original_tokens[0], get_canonical_option_prefix());
+                // add context and rethrow; options made by a custom parser or
+                // from a group of short options may have no original token
+                e.add_context(opt.string_key,
+                              opt.original_tokens.empty() ? opt.string_key
+                                                          : opt.original_tokens[0],
+                              get_canonical_option_prefix());
                 throw;
             }
 
-- 
2.43.0


From cd3d099b396ad4132ee5465306e877cc8c4470c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 03/29] fix: do not offer an already consumed lookahead token
 to further style parsers

---
 src/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 56a926a..9e0920d 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -475,7 +475,7 @@ namespace boost { namespace program_options { namespace detail {
                     // additionally we check if an option_description exists
                     vector<option> followed_option;  
                     vector<string> next_token(1, other_tokens[0]);      
-                    for (unsigned i = 0; followed_option.empty() && i < style_parsers.size(); ++i)
+                    for (unsigned i = 0; followed_option.empty() && !next_token.empty() && i < style_parsers.size(); ++i)
                     {
                         followed_option = style_parsers[i](next_token);
                     }
-- 
2.43.0


From a844903730c27a93528dba7d4f703310164cede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 04/29] fix: record the token as given for disguised long
 options

---
 src/cmdline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 9e0920d..19cb787 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -652,10 +652,15 @@ namespace boost { namespace program_options { namespace detail {
                                          is_style_active(long_case_insensitive),
                                          is_style_active(short_case_insensitive)))
                 {
+                    const string original_token = tok;
                     args[0].insert(0, "-");
                     if (args[0][1] == '/')
                         args[0][1] = '-';
-                    return parse_long_option(args);
+                    vector<option> result = parse_long_option(args);
+                    // the user's token is the one without the added dash
+                    for (unsigned i = 0; i < result.size(); ++i)
+                        result[i].original_tokens.assign(1, original_token);
+                    return result;
                 }
             } 
             catch(error_with_option_name& e)
-- 
2.43.0


From ae2b1c37802c5850d4530a96a1909436124292f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 05/29] fix: substitute error message placeholders in a single
 pass

Text given by the user that looks like a placeholder made what() loop
forever or was itself replaced.
---
 src/value_semantic.cpp | 50 ++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index de7b2ac..fdec662 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -270,13 +270,16 @@ namespace boost { namespace program_options {
 
     void error_with_option_name::replace_token(const string& from, const string& to) const
     {
+        std::size_t pos = 0;
         for (;;)
         {
-            std::size_t pos = m_message.find(from.c_str(), 0, from.length());
+            pos = m_message.find(from.c_str(), pos, from.length());
             // not found: all replaced
             if (pos == std::string::npos)
                 return;
             m_message.replace(pos, from.length(), to);
+            // never look for 'from' inside the replacement
+            pos += to.length();
         }
     }
 
@@ -347,10 +350,27 @@ namespace boost { namespace program_options {
         //
         //  replace placeholder with values
         //  placeholder are denoted by surrounding '%'
+        //  All are replaced in one pass, so that text provided by the
+        //  user is never itself taken for a placeholder.
         // 
-        for (map<string, string>::iterator iter = substitutions.begin();
-              iter != substitutions.end(); ++iter)
-            replace_token('%' + iter->first + '%', iter->second);
+        std::string::size_type pos = 0;
+        while ((pos = m_message.find('%', pos)) != std::string::npos)
+        {
+            std::string::size_type end = m_message.find('%', pos + 1);
+            if (end == std::string::npos)
+                break;
+
+            map<string, string>::const_iterator iter =
+                substitutions.find(m_message.substr(pos + 1, end - pos - 1));
+            if (iter == substitutions.end())
+            {
+                // not a placeholder, but its end may start one
+                pos = end;
+                continue;
+            }
+            m_message.replace(pos, end - pos + 1, iter->second);
+            pos += iter->second.length();
+        }
     }
 
 
@@ -367,29 +387,31 @@ namespace boost { namespace program_options {
         }
 
 
-        string error_template  = original_error_template;
+        // use inherited logic
+        error_with_option_name::substitute_placeholders(original_error_template);
+
+        // The alternatives can contain text provided by the user, so they
+        // are not passed through the substitution.
+        const string prefix = get_canonical_option_prefix();
+
         // remove duplicates using std::set
         std::set<std::string>   alternatives_set (m_alternatives.begin(), m_alternatives.end());
         std::vector<std::string> alternatives_vec (alternatives_set.begin(), alternatives_set.end());
 
-        error_template += " and matches ";
+        m_message += " and matches ";
         // Being very cautious: should be > 1 alternative!
         if (alternatives_vec.size() > 1)
         {
             for (unsigned i = 0; i < alternatives_vec.size() - 1; ++i)
-                error_template += "'%prefix%" + alternatives_vec[i] + "', ";
-            error_template += "and ";
+                m_message += "'" + prefix + alternatives_vec[i] + "', ";
+            m_message += "and ";
         }
 
         // there is a programming error if multiple options have the same name...
         if (m_alternatives.size() > 1 && alternatives_vec.size() == 1)
-            error_template += "different versions of ";
-
-        error_template += "'%prefix%" + alternatives_vec.back() + "'";
+            m_message += "different versions of ";
 
-
-        // use inherited logic
-        error_with_option_name::substitute_placeholders(error_template);
+        m_message += "'" + prefix + alternatives_vec.back() + "'";
     }
 
 
-- 
2.43.0


From c014188e9f4de54f937f4e65400f1032043099a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 06/29] fix: accept a null environment and skip malformed
 environment entries

---
 .../program_options/environment_iterator.hpp     | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/boost/program_options/environment_iterator.hpp b/include/boost/program_options/environment_iterator.hpp
index 933919d..d9801e8 100644
--- a/include/boost/program_options/environment_iterator.hpp
+++ b/include/boost/program_options/environment_iterator.hpp
@@ -32,17 +32,21 @@ namespace boost {
         
         void get()
         {
-            if (*m_environment == 0)
-                found_eof();
-            else {
+            // 'environ' is null after clearenv(), and the block may hold
+            // entries without '=', which do not define a variable.
+            while (m_environment != 0 && *m_environment != 0) {
                 std::string s(*m_environment);
+                ++m_environment;
+
                 std::string::size_type n = s.find('=');
-                assert(n != s.npos);
+                if (n == s.npos)
+                    continue;
+
                 value().first = s.substr(0, n);
                 value().second = s.substr(n+1);
-                
-                ++m_environment;
+                return;
             }
+            found_eof();
         }
         
     private:
-- 
2.43.0


From a2776f931a2abd5f37204b7dcca3c134374883e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 07/29] fix: do not assert on a tab behind the first line, it
 is documented to be ignored

---
 src/options_description.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 0efdc33..3bb3e44 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -464,10 +464,6 @@ namespace boost { namespace program_options {
                 // erase tab from string
                 par.erase(par_indent, 1);
 
-                // this assert may fail due to user error or 
-                // environment conditions!
-                assert(par_indent < line_length);
-
                 // ignore tab if not on first line
                 if (par_indent >= line_length)
                 {
-- 
2.43.0


From 27942fce811565c7056f2e57cb03f687173ef166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 08/29] fix: let a wildcard match its bare prefix in config
 files, as on the command line

---
 src/config_file.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index a3c01cd..512d7a5 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -135,11 +135,11 @@ namespace boost { namespace program_options { namespace detail {
         set<string>::const_iterator i = allowed_options.find(s);
         if (i != allowed_options.end())
             return true;        
-        // If s is "pa" where "p" is allowed prefix then
-        // lower_bound should find the element after "p". 
+        // If s is "p" or "pa" where "p" is allowed prefix then
+        // upper_bound should find the element after "p". 
         // This depends on 'allowed_prefixes' invariant.
-        i = allowed_prefixes.lower_bound(s);
-        if (i != allowed_prefixes.begin() && s.find(*--i) == 0)
+        i = allowed_prefixes.upper_bound(s);
+        if (!s.empty() && i != allowed_prefixes.begin() && s.find(*--i) == 0)
             return true;
         return false;
     }
-- 
2.43.0


From d0876eabb6b738ce7409c6eba2200d47f69f6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 09/29] fix: keep the case_insensitive flag in wide parsed
 options

---
 src/parsers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 4dac608..675643a 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -75,6 +75,7 @@ namespace boost { namespace program_options {
             result.string_key = opt.string_key;
             result.position_key = opt.position_key;
             result.unregistered = opt.unregistered;
+            result.case_insensitive = opt.case_insensitive;
             
             std::transform(opt.value.begin(), opt.value.end(),
                            back_inserter(result.value),
-- 
2.43.0


From db8ba967a3cd89ca13a9a10dfb226560154a91bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 10/29] fix: record the original token of options recognised by
 the additional parser

---
 src/cmdline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 19cb787..0bdd00d 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -703,6 +703,7 @@ namespace boost { namespace program_options { namespace detail {
             next.string_key = r.first;
             if (!r.second.empty())
                 next.value.push_back(r.second);
+            next.original_tokens.push_back(args[0]);
             result.push_back(next);
             args.erase(args.begin());
         }
-- 
2.43.0


From c23540ba7d5a5349c477759bda9cb44c75c90abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 11/29] fix: do not pass values outside of their domain to
 tolower

---
 src/options_description.cpp | 11 ++++++-----
 src/parsers.cpp             |  2 +-
 src/value_semantic.cpp      |  5 +++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 3bb3e44..d35e1cb 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -31,13 +31,14 @@ namespace boost { namespace program_options {
 
    namespace {
 
-       template< class charT >
-       std::basic_string< charT >  tolower_(const std::basic_string< charT >& str)
+       std::string tolower_(const std::string& str)
        {
-           std::basic_string< charT > result;
-           for (typename std::basic_string< charT >::size_type i = 0; i < str.size(); ++i)
+           std::string result;
+           for (std::string::size_type i = 0; i < str.size(); ++i)
            {
-               result.append(1, static_cast< charT >(std::tolower(str[i])));
+               // 'tolower' accepts only values of 'unsigned char'
+               result.append(1, static_cast<char>(
+                   std::tolower(static_cast<unsigned char>(str[i]))));
            }   
            return result;
        }
diff --git a/src/parsers.cpp b/src/parsers.cpp
index 675643a..3d1ccfb 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -233,7 +233,7 @@ namespace boost { namespace program_options {
                     {   
                         // Intel-Win-7.1 does not understand
             // push_back on string.         
-                        result += static_cast<char>(tolower(s[n]));
+                        result += static_cast<char>(tolower(static_cast<unsigned char>(s[n])));
                     }
                 }
                 return result;
diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index fdec662..57f98e1 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -13,6 +13,7 @@
 #include <set>
 
 #include <cctype>
+#include <cwctype>
 
 namespace boost { namespace program_options {
 
@@ -152,7 +153,7 @@ namespace boost { namespace program_options {
         string s(get_single_string(xs, true));
 
         for (size_t i = 0; i < s.size(); ++i)
-            s[i] = char(tolower(s[i]));
+            s[i] = char(tolower(static_cast<unsigned char>(s[i])));
 
         if (s.empty() || s == "on" || s == "yes" || s == "1" || s == "true")
             v = any(true);
@@ -174,7 +175,7 @@ namespace boost { namespace program_options {
         wstring s(get_single_string(xs, true));
 
         for (size_t i = 0; i < s.size(); ++i)
-            s[i] = wchar_t(tolower(s[i]));
+            s[i] = wchar_t(towlower(s[i]));
 
         if (s.empty() || s == L"on" || s == L"yes" || s == L"1" || s == L"true")
             v = any(true);
-- 
2.43.0


From 6ca12ec6b99e514864e7b61d7f12809fe777342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 12/29] fix: do not take a token without an option name for an
 option

"--=value" silently became a positional option with value "value", and an
empty name matched every option without a short name.
---
 src/cmdline.cpp             | 5 +++--
 src/options_description.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 0bdd00d..745e28a 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -518,7 +518,8 @@ namespace boost { namespace program_options { namespace detail {
     {
         vector<option> result;
         const string& tok = args[0];
-        if (tok.size() >= 3 && tok[0] == '-' && tok[1] == '-')
+        // without a name, as in "--=value", this is not an option
+        if (tok.size() >= 3 && tok[0] == '-' && tok[1] == '-' && tok[2] != '=')
         {   
             string name, adjacent;
 
@@ -641,7 +642,7 @@ namespace boost { namespace program_options { namespace detail {
     cmdline::parse_disguised_long_option(vector<string>& args)
     {
         const string& tok = args[0];
-        if (tok.size() >= 2 && 
+        if (tok.size() >= 2 && tok[1] != '=' &&
             ((tok[0] == '-' && tok[1] != '-') ||
              ((m_style & allow_slash_for_short) && tok[0] == '/')))            
         {
diff --git a/src/options_description.cpp b/src/options_description.cpp
index d35e1cb..892d217 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -117,7 +117,7 @@ namespace boost { namespace program_options {
         {
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
 
-            if (local_short_name == local_option)
+            if (!local_short_name.empty() && local_short_name == local_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From 56e78055347871bd98427807a01a146044d93832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 13/29] fix: accept all long names of an option in config files
 and store under its key

Aliases were rejected in config files, and from the environment were
stored under the alias instead of the option's key.
---
 src/parsers.cpp       | 5 ++++-
 src/variables_map.cpp | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 3d1ccfb..29bb132 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -117,7 +117,10 @@ namespace boost { namespace program_options {
                 boost::throw_exception(
                     error("abbreviated option names are not permitted in options configuration files"));
 
-            allowed_options.insert(d.long_name());
+            const std::pair<const string*, size_t> names = d.long_names();
+            for (size_t j = 0; j < names.second; ++j)
+                if (!names.first[j].empty())
+                    allowed_options.insert(names.first[j]);
         }
 
         // Parser return char strings
diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index 94ac614..577f3e7 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -73,6 +73,12 @@ namespace boost { namespace program_options {
                 const option_description& d = desc.find(option_name, false,
                                                         false, false);
 
+                // Sources other than the command line may use any of the
+                // option's names, the value is stored under its key
+                option_name = d.key(option_name);
+                if (xm.m_final.count(option_name))
+                    continue;
+
                 variable_value& v = m[option_name];
                 if (v.defaulted()) {
                     // Explicit assignment here erases defaulted value
-- 
2.43.0


From 45164a08b5094d06352cdb6c129bb59ec2a11b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 14/29] fix: store wildcard options whose name differs in case
 when case is ignored

---
 src/variables_map.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index 577f3e7..be4e591 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -70,8 +70,14 @@ namespace boost { namespace program_options {
 
                 original_token = options.options[i].original_tokens.size() ?
                                         options.options[i].original_tokens[0]     : "";
-                const option_description& d = desc.find(option_name, false,
-                                                        false, false);
+                // The names of wildcard options are not canonised, so they
+                // can differ in case from the declared name if the parser
+                // ignores case
+                const option_description* xd =
+                    desc.find_nothrow(option_name, false, false, false);
+                const bool ignore_case = options.options[i].case_insensitive;
+                const option_description& d = xd ? *xd :
+                    desc.find(option_name, false, ignore_case, ignore_case);
 
                 // Sources other than the command line may use any of the
                 // option's names, the value is stored under its key
-- 
2.43.0


From c49388a16a687db127fa8cfe2f638a02760dad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 15/29] fix: leave the variables map unchanged when store fails

A failed store left empty elements and values from before the error, and
erased defaults, so that a retry reported values as specified twice.
---
 src/variables_map.cpp | 81 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 12 deletions(-)

diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index be4e591..aedb09f 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -18,6 +18,41 @@ namespace boost { namespace program_options {
 
     using namespace std;
 
+    namespace {
+        // Adds empty elements to a map, and removes them again when
+        // destroyed unless 'keep' was called.
+        class new_elements {
+        public:
+            typedef std::map<std::string, variable_value> map_type;
+
+            // At most 'max_count' elements will be added
+            new_elements(map_type& m, size_t max_count) : m_map(m)
+            {
+                m_added.reserve(max_count);
+            }
+
+            ~new_elements()
+            {
+                for (size_t i = 0; i < m_added.size(); ++i)
+                    m_map.erase(m_added[i]);
+            }
+
+            void add(const std::string& key)
+            {
+                const std::pair<map_type::iterator, bool> r =
+                    m_map.insert(std::make_pair(key, variable_value()));
+                if (r.second)
+                    m_added.push_back(r.first);
+            }
+
+            void keep() { m_added.clear(); }
+
+        private:
+            map_type& m_map;
+            std::vector<map_type::iterator> m_added;
+        };
+    }
+
     // First, performs semantic actions for 'oa'.
     // Then, stores in 'm' all options that are defined in 'desc'.
     BOOST_PROGRAM_OPTIONS_DECL
@@ -34,7 +69,13 @@ namespace boost { namespace program_options {
         // variables_map. Ehmm.. messy.
         std::map<std::string, variable_value>& m = xm;
 
-        std::set<std::string> new_final;
+        std::set<std::string> new_final(xm.m_final);
+        std::map<std::string, std::string> new_required(xm.m_required);
+
+        // All changes are collected here and applied to the map only when
+        // nothing can fail any more, so that a failed call has no effect.
+        std::map<std::string, variable_value> staged;
+        typedef std::map<std::string, variable_value>::iterator iterator;
 
         // Declared once, to please Intel in VC++ mode;
         unsigned i;
@@ -85,10 +126,13 @@ namespace boost { namespace program_options {
                 if (xm.m_final.count(option_name))
                     continue;
 
-                variable_value& v = m[option_name];
-                if (v.defaulted()) {
+                const bool first = staged.count(option_name) == 0;
+                variable_value& v = staged[option_name];
+                if (first) {
                     // Explicit assignment here erases defaulted value
-                    v = variable_value();
+                    const iterator old = m.find(option_name);
+                    if (old != m.end() && !old->second.defaulted())
+                        v = old->second;
                 }
 
                 d.semantic()->parse(v.value(), options.options[i].value, utf8);
@@ -112,9 +156,6 @@ namespace boost { namespace program_options {
             throw;
         }
 #endif
-        xm.m_final.insert(new_final.begin(), new_final.end());
-
-
 
         // Second, apply default values and store required options.
         const vector<shared_ptr<option_description> >& all = desc.options();
@@ -131,12 +172,13 @@ namespace boost { namespace program_options {
             {
                 continue;
             }
-            if (m.count(key) == 0) {
+            if (m.count(key) == 0 && staged.count(key) == 0) {
 
                 boost::any def;
                 if (d.semantic()->apply_default(def)) {
-                    m[key] = variable_value(def, true);
-                    m[key].m_value_semantic = d.semantic();
+                    variable_value& v = staged[key];
+                    v = variable_value(def, true);
+                    v.m_value_semantic = d.semantic();
                 }
             }
 
@@ -148,10 +190,25 @@ namespace boost { namespace program_options {
                 //  "--"  >  ("-" or "/")  >  ""
                 //  Precedence is set conveniently by a single call to length()
                 string canonical_name = d.canonical_display_name(options.m_options_prefix);
-                if (canonical_name.length() > xm.m_required[key].length())
-                    xm.m_required[key] = canonical_name;
+                if (canonical_name.length() > new_required[key].length())
+                    new_required[key] = canonical_name;
             }
         }
+
+        // Finally, apply the changes. Only adding the new elements can fail.
+        new_elements added(m, staged.size());
+        for (iterator s = staged.begin(); s != staged.end(); ++s)
+            added.add(s->first);
+        added.keep();
+
+        for (iterator s = staged.begin(); s != staged.end(); ++s) {
+            variable_value& v = m.find(s->first)->second;
+            v.v.swap(s->second.v);
+            v.m_defaulted = s->second.m_defaulted;
+            v.m_value_semantic.swap(s->second.m_value_semantic);
+        }
+        xm.m_final.swap(new_final);
+        xm.m_required.swap(new_required);
     }
 
     BOOST_PROGRAM_OPTIONS_DECL
-- 
2.43.0


From 6a0e12508960a330926ea6e0e12dee38b365f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 16/29] fix: do not terminate when an error message can not be
 composed

---
 src/value_semantic.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 57f98e1..3f37edb 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -263,8 +263,20 @@ namespace boost { namespace program_options {
 
     const char* error_with_option_name::what() const BOOST_NOEXCEPT_OR_NOTHROW
     {
-        // will substitute tokens each time what is run()
-        substitute_placeholders(m_error_template);
+#ifndef BOOST_NO_EXCEPTIONS
+        try
+#endif
+        {
+            // will substitute tokens each time what is run()
+            substitute_placeholders(m_error_template);
+        }
+#ifndef BOOST_NO_EXCEPTIONS
+        catch(...)
+        {
+            // 'what' must not throw, for example when out of memory
+            return error::what();
+        }
+#endif
 
         return m_message.c_str();
     }
-- 
2.43.0


From a6d21cd0f0cc3af1354cb116c1a23f36342f798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 17/29] fix: name the right option when the argument of another
 one is missing

When the next argument is an option or malformed, the message named the
wrong one of the two.
---
 src/cmdline.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 745e28a..4d5786d 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -416,6 +416,9 @@ namespace boost { namespace program_options { namespace detail {
         if (opt.original_tokens.size())
             original_token_for_exceptions = opt.original_tokens[0];
 
+        // errors of the style parsers already refer to the right token
+        bool in_style_parser = false;
+
         try
         {
             // First check that the option is valid, and get its description.
@@ -477,15 +480,20 @@ namespace boost { namespace program_options { namespace detail {
                     vector<string> next_token(1, other_tokens[0]);      
                     for (unsigned i = 0; followed_option.empty() && !next_token.empty() && i < style_parsers.size(); ++i)
                     {
+                        in_style_parser = true;
                         followed_option = style_parsers[i](next_token);
+                        in_style_parser = false;
                     }
                     if (!followed_option.empty()) 
                     {
+                        // while looking up the next token, errors are about it
+                        const string original_token = original_token_for_exceptions;
                         original_token_for_exceptions = other_tokens[0];
                         const option_description* od = m_desc->find_nothrow(other_tokens[0], 
                                   is_style_active(allow_guessing),
                                   is_style_active(long_case_insensitive),
                                   is_style_active(short_case_insensitive));
+                        original_token_for_exceptions = original_token;
                         if (od) 
                             boost::throw_exception(
                                 invalid_command_line_syntax(invalid_command_line_syntax::missing_parameter));
@@ -507,7 +515,8 @@ namespace boost { namespace program_options { namespace detail {
         catch(error_with_option_name& e)
         {
             // add context and rethrow
-            e.add_context(opt.string_key, original_token_for_exceptions, get_canonical_option_prefix());
+            if (!in_style_parser)
+                e.add_context(opt.string_key, original_token_for_exceptions, get_canonical_option_prefix());
             throw;
         }
 
-- 
2.43.0


From b177e9e64b5ed4b808fb5363988e73d4f814ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 18/29] fix: make case sensitivity of short and long option
 names independent

With only one of the two styles active, short names were compared with
different case conversions on both sides.
---
 src/options_description.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 892d217..7b38a74 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -116,8 +116,10 @@ namespace boost { namespace program_options {
         if (result != full_match)
         {
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
+            // whether the case of short names matters is independent of long ones
+            std::string local_short_option(short_ignore_case ? tolower_(option) : option);
 
-            if (!local_short_name.empty() && local_short_name == local_option)
+            if (!local_short_name.empty() && local_short_name == local_short_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From 82febf52db2c6a0e89787d338a63b853209f994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 19/29] fix: initialise all members of default constructed end
 iterators

---
 include/boost/program_options/detail/config_file.hpp   | 5 ++++-
 include/boost/program_options/environment_iterator.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/program_options/detail/config_file.hpp b/include/boost/program_options/detail/config_file.hpp
index 808bec7..3f27b3a 100644
--- a/include/boost/program_options/detail/config_file.hpp
+++ b/include/boost/program_options/detail/config_file.hpp
@@ -71,7 +71,10 @@ namespace boost { namespace program_options { namespace detail {
         : public eof_iterator<common_config_file_iterator, option>
     {
     public:
-        common_config_file_iterator() { found_eof(); }
+        common_config_file_iterator() : m_allow_unregistered(false)
+        {
+            found_eof();
+        }
         common_config_file_iterator(
             const std::set<std::string>& allowed_options,
             bool allow_unregistered = false);
diff --git a/include/boost/program_options/environment_iterator.hpp b/include/boost/program_options/environment_iterator.hpp
index d9801e8..5bb90ed 100644
--- a/include/boost/program_options/environment_iterator.hpp
+++ b/include/boost/program_options/environment_iterator.hpp
@@ -26,6 +26,7 @@ namespace boost {
         }
         
         environment_iterator()
+        : m_environment(0)
         {
             found_eof();
         }
-- 
2.43.0


From dbc53107438360697c99842abeac2190aa84694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:04 +0000
Subject: [PATCH 20/29] fix: do not take undecodable bytes in a wide
 configuration file for its end

A wide file stream may treat bytes which the locale's codecvt rejects as end
of file without setting badbit (libstdc++ does so in the last buffer), so the
rest of the file was silently ignored. Read the bytes first and decode them
with the strict converter.
---
 src/parsers.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 29bb132..58e551d 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -23,6 +23,7 @@
 
 #include <cctype>
 #include <fstream>
+#include <sstream>
 
 #if !defined(__GNUC__) || __GNUC__ < 3
 #include <iostream>
@@ -147,6 +148,48 @@ namespace boost { namespace program_options {
                       bool allow_unregistered);
 #endif
 
+    namespace {
+        parsed_options
+        parse_config_bytes(std::ifstream& strm, const char*,
+                           const options_description& desc,
+                           bool allow_unregistered, const parsed_options*)
+        {
+            return parse_config_file(strm, desc, allow_unregistered);
+        }
+
+#ifndef BOOST_NO_STD_WSTRING
+        // The bytes are decoded only after all of them were read: a wide
+        // file stream may take a sequence which it can't decode for the end
+        // of file, so that the rest of the file would be silently ignored.
+        wparsed_options
+        parse_config_bytes(std::ifstream& strm, const char* filename,
+                           const options_description& desc,
+                           bool allow_unregistered, const wparsed_options*)
+        {
+            std::string bytes;
+            char buffer[1024];
+            while (strm.read(buffer, sizeof(buffer)), strm.gcount() > 0)
+                bytes.append(buffer, static_cast<std::size_t>(strm.gcount()));
+            if (strm.bad())
+            {
+                boost::throw_exception(reading_file(filename));
+            }
+
+            std::wstring text;
+            try
+            {
+                text = from_local_8_bit(bytes);
+            }
+            catch (const std::logic_error&)
+            {
+                boost::throw_exception(reading_file(filename));
+            }
+            std::wistringstream wide(text);
+            return parse_config_file(wide, desc, allow_unregistered);
+        }
+#endif
+    }
+
     template<class charT>
     basic_parsed_options<charT>
     parse_config_file(const char* filename, 
@@ -154,14 +197,15 @@ namespace boost { namespace program_options {
                       bool allow_unregistered)
     { 
         // Parser return char strings
-        std::basic_ifstream< charT > strm(filename);
+        std::ifstream strm(filename);
         if (!strm) 
         {
             boost::throw_exception(reading_file(filename));
         }
 
         basic_parsed_options<charT> result
-                = parse_config_file(strm, desc, allow_unregistered);
+                = parse_config_bytes(strm, filename, desc, allow_unregistered,
+                                     static_cast<basic_parsed_options<charT>*>(0));
 
         if (strm.bad())
         {
-- 
2.43.0


From c953a2ce729e29d992238aa015dfbd8faef3112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 21/29] fix: reject text which ends within a multibyte
 character

The locale's codecvt may consume the incomplete character into the conversion
state and return ok; from_8_bit then silently dropped it.
---
 src/convert.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/convert.cpp b/src/convert.cpp
index fbe2758..b97a7fb 100644
--- a/src/convert.cpp
+++ b/src/convert.cpp
@@ -10,6 +10,7 @@
 #include <string>
 #include <locale>
 #include <stdexcept>
+#include <cwchar>
 
 #include <boost/config.hpp>
 
@@ -41,12 +42,11 @@ namespace boost { namespace detail {
     */
     template<class ToChar, class FromChar, class Fun>
     std::basic_string<ToChar>
-    convert(const std::basic_string<FromChar>& s, Fun fun)
+    convert(const std::basic_string<FromChar>& s, std::mbstate_t& state,
+            Fun fun)
         
     {
         std::basic_string<ToChar> result;
-        
-        std::mbstate_t state = std::mbstate_t();
 
         const FromChar* from = s.data();
         const FromChar* from_end = s.data() + s.size();
@@ -92,19 +92,27 @@ namespace boost {
     from_8_bit(const std::string& s, 
                const std::codecvt<wchar_t, char, std::mbstate_t>& cvt)
     {
-        return detail::convert<wchar_t>(
-            s,                 
+        std::mbstate_t state = std::mbstate_t();
+        std::wstring result = detail::convert<wchar_t>(
+            s, state,
             boost::bind(&std::codecvt<wchar_t, char, mbstate_t>::in,
                         &cvt,
                         _1, _2, _3, _4, _5, _6, _7));
+        // A facet may consume an incomplete character at the end of the
+        // source, remembering it in 'state', and report success.
+        if (!std::mbsinit(&state))
+            boost::throw_exception(
+                std::logic_error("character conversion failed"));
+        return result;
     }
 
     BOOST_PROGRAM_OPTIONS_DECL std::string 
     to_8_bit(const std::wstring& s, 
              const std::codecvt<wchar_t, char, std::mbstate_t>& cvt)
     {
+        std::mbstate_t state = std::mbstate_t();
         return detail::convert<char>(
-            s,                 
+            s, state,
             boost::bind(&codecvt<wchar_t, char, mbstate_t>::out,
                         &cvt,
                         _1, _2, _3, _4, _5, _6, _7));
-- 
2.43.0


From 737dd79bef366091690294651da0de48f24d1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:55 +0000
Subject: [PATCH 22/29] fix: quote an invalid boolean value as the user wrote
 it

The message quoted the lower-cased text.
---
 src/value_semantic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 3f37edb..ab1ee6f 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -160,7 +160,7 @@ namespace boost { namespace program_options {
         else if (s == "off" || s == "no" || s == "0" || s == "false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(s));
+            boost::throw_exception(invalid_bool_value(get_single_string(xs, true)));
     }
 
     // This is blatant copy-paste. However, templating this will cause a problem,
@@ -182,7 +182,8 @@ namespace boost { namespace program_options {
         else if (s == L"off" || s == L"no" || s == L"0" || s == L"false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(convert_value(s)));
+            boost::throw_exception(invalid_bool_value(
+                convert_value(get_single_string(xs, true))));
     }
 #endif
     BOOST_PROGRAM_OPTIONS_DECL 
-- 
2.43.0


From ca0271f26c0803773ed131f4dcb8289c7e5592ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 23/29] fix: do not add the prefix of long options to the name
 of a short one

Messages about an option which has only a short name, or is one of several
alternatives, called it '--v' or '---v' where long options are enabled.
---
 src/value_semantic.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index ab1ee6f..c13a01e 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -318,6 +318,14 @@ namespace boost { namespace program_options {
     }
 
 
+    namespace {
+        // the key of an option without long name has its own prefix
+        bool has_prefix(const string& key)
+        {
+            return key.length() == 2 && key[0] == '-';
+        }
+    }
+
     string error_with_option_name::get_canonical_option_name() const
     {
         if (!m_substitutions.find("option")->second.length())
@@ -329,7 +337,11 @@ namespace boost { namespace program_options {
         //  For long options, use option name
         if (m_option_style == command_line_style::allow_long        || 
              m_option_style == command_line_style::allow_long_disguise)
-            return get_canonical_option_prefix() + option_name;
+        {
+            const string& key = m_substitutions.find("option")->second;
+            return has_prefix(key) ? key
+                                   : get_canonical_option_prefix() + option_name;
+        }
 
         //  For short options use first letter of original_token
         if (m_option_style && original_token.length())
@@ -417,7 +429,8 @@ namespace boost { namespace program_options {
         if (alternatives_vec.size() > 1)
         {
             for (unsigned i = 0; i < alternatives_vec.size() - 1; ++i)
-                m_message += "'" + prefix + alternatives_vec[i] + "', ";
+                m_message += "'" + (has_prefix(alternatives_vec[i]) ? "" : prefix)
+                             + alternatives_vec[i] + "', ";
             m_message += "and ";
         }
 
@@ -425,7 +438,8 @@ namespace boost { namespace program_options {
         if (m_alternatives.size() > 1 && alternatives_vec.size() == 1)
             m_message += "different versions of ";
 
-        m_message += "'" + prefix + alternatives_vec.back() + "'";
+        m_message += "'" + (has_prefix(alternatives_vec.back()) ? "" : prefix)
+                     + alternatives_vec.back() + "'";
     }
 
 
-- 
2.43.0


From 0b2917a180d93c3193cf6c56ce790d358c02d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 24/29] fix: name the option, not its token, when a disguised
 long option has an empty argument

---
 src/cmdline.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 4d5786d..b43c6b2 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -655,23 +655,13 @@ namespace boost { namespace program_options { namespace detail {
             ((tok[0] == '-' && tok[1] != '-') ||
              ((m_style & allow_slash_for_short) && tok[0] == '/')))            
         {
+            const option_description* d;
             try
             {
-                if (m_desc->find_nothrow(tok.substr(1, tok.find('=')-1), 
+                d = m_desc->find_nothrow(tok.substr(1, tok.find('=')-1), 
                                          is_style_active(allow_guessing),
                                          is_style_active(long_case_insensitive),
-                                         is_style_active(short_case_insensitive)))
-                {
-                    const string original_token = tok;
-                    args[0].insert(0, "-");
-                    if (args[0][1] == '/')
-                        args[0][1] = '-';
-                    vector<option> result = parse_long_option(args);
-                    // the user's token is the one without the added dash
-                    for (unsigned i = 0; i < result.size(); ++i)
-                        result[i].original_tokens.assign(1, original_token);
-                    return result;
-                }
+                                         is_style_active(short_case_insensitive));
             } 
             catch(error_with_option_name& e)
             {
@@ -679,6 +669,19 @@ namespace boost { namespace program_options { namespace detail {
                 e.add_context(tok, tok, get_canonical_option_prefix());
                 throw;
             }
+            if (d)
+            {
+                const string original_token = tok;
+                args[0].insert(0, "-");
+                if (args[0][1] == '/')
+                    args[0][1] = '-';
+                // errors name the option themselves
+                vector<option> result = parse_long_option(args);
+                // the user's token is the one without the added dash
+                for (unsigned i = 0; i < result.size(); ++i)
+                    result[i].original_tokens.assign(1, original_token);
+                return result;
+            }
         }
         return vector<option>();
     }
-- 
2.43.0


From 6969af72ad6cf9b451fba8ece91c2da3d119dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:24 +0000
Subject: [PATCH 25/29] fix: leave room for descriptions when the minimum
 description length is 0 or 1

---
 src/options_description.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 7b38a74..5d5755f 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -658,8 +658,9 @@ namespace boost { namespace program_options {
             width = max(width, groups[j]->get_option_column_width());
 
         /* this is the column were description should start, if first
-           column is longer, we go to a new line */
-        const unsigned start_of_description_column = m_line_length - m_min_description_length;
+           column is longer, we go to a new line. One character is needed
+           for the description and one is left free at the end of the line */
+        const unsigned start_of_description_column = m_line_length - (max)(m_min_description_length, 2u);
 
         width = (min)(width, start_of_description_column-1);
         
-- 
2.43.0


From 8027be3c14b6ade1ae59ce61bd957c54c0892d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 26/29] fix: report a configuration stream which could not be
 read to its end

---
 src/parsers.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 58e551d..5910a2b 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -130,6 +130,9 @@ namespace boost { namespace program_options {
                  is, allowed_options, allow_unregistered), 
              detail::basic_config_file_iterator<charT>(), 
              back_inserter(result.options));
+        // The stream also goes bad if there's no memory to hold a line
+        if (is.bad())
+            boost::throw_exception(error("can not read options configuration"));
         // Convert char strings into desired type.
         return basic_parsed_options<charT>(result);
     }
@@ -150,11 +153,22 @@ namespace boost { namespace program_options {
 
     namespace {
         parsed_options
-        parse_config_bytes(std::ifstream& strm, const char*,
+        parse_config_bytes(std::ifstream& strm, const char* filename,
                            const options_description& desc,
                            bool allow_unregistered, const parsed_options*)
         {
-            return parse_config_file(strm, desc, allow_unregistered);
+            try
+            {
+                return parse_config_file(strm, desc, allow_unregistered);
+            }
+            catch (const error&)
+            {
+                if (strm.bad())
+                {
+                    boost::throw_exception(reading_file(filename));
+                }
+                throw;
+            }
         }
 
 #ifndef BOOST_NO_STD_WSTRING
-- 
2.43.0


From b75820adbfde1ef64325eced2e0951eae1fc96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 27/29] fix: name the two overlapping patterns in the error
 about ambiguous configuration wildcards

If the new pattern was a prefix of an existing one that had a
predecessor, the message named the predecessor instead.
---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index 512d7a5..0a8b872 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -52,7 +52,7 @@ namespace boost { namespace program_options { namespace detail {
                 if (i->find(s) == 0)
                     bad_prefixes = true;                    
             }
-            if (i != allowed_prefixes.begin()) {
+            if (!bad_prefixes && i != allowed_prefixes.begin()) {
                 --i;
                 if (s.find(*i) == 0)
                     bad_prefixes = true;
-- 
2.43.0


From b37d66f80090c3ccad6b2038ce0535c535f87507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 28/29] fix: convert a text in pieces of bounded size

A codecvt facet may scan all of the input it is given before it converts
any of it, as the one of libstdc++ for wchar_t does. Since the buffer takes
32 characters a call, converting a text took time quadratic in its length.
---
 src/convert.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/convert.cpp b/src/convert.cpp
index b97a7fb..a78c52e 100644
--- a/src/convert.cpp
+++ b/src/convert.cpp
@@ -62,8 +62,12 @@ namespace boost { namespace detail {
             ToChar* to_next = buffer;
             // Need variable because boost::bind doesn't work with rvalues.
             ToChar* to_end = buffer + 32;
+            // A facet may look at all of its input before it converts any, so
+            // it is given not much more than what fills the buffer.
+            const FromChar* piece_end =
+                from_end - from > 256 ? from + 256 : from_end;
             std::codecvt_base::result r = 
-                fun(state, from, from_end, from, buffer, to_end, to_next);
+                fun(state, from, piece_end, from, buffer, to_end, to_next);
             
             if (r == std::codecvt_base::error)
                 boost::throw_exception(
-- 
2.43.0


From 6cc7bb3f01d0aeee26f5ff2ab820b0c992c43d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 29/29] fix: ignore the case of one-letter long names of
 wildcard options when storing

The name of a wildcard option stays as it was spelled. One letter of it
was taken for a short name, so that the option was found when parsing
but not when storing.
---
 src/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index b43c6b2..2a2aa25 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -386,7 +386,7 @@ namespace boost { namespace program_options { namespace detail {
         // set case sensitive flag
         for (unsigned i = 0; i < result.size(); ++i) {
             if (result[i].string_key.size() > 2 ||
-                        (result[i].string_key.size() > 1 && result[i].string_key[0] != '-'))
+                        (result[i].string_key.size() > 0 && result[i].string_key[0] != '-'))
             {
                 // it is a long option
                 result[i].case_insensitive = is_style_active(long_case_insensitive);
-- 
2.43.0

