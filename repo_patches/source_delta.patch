From 3faf6a145cae02248c979ca400df6e0cfc9599d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 01/39] fix: merging elements must not terminate when memory
 runs out

InfoMerge and ElementMerge clone elements, so they can throw std::bad_alloc,
but were declared noexcept: running out of memory while merging an extend
element called std::terminate.
---
 packages/drafter/src/refract/dsd/Extend.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index b6949aa..18b6a27 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -44,7 +44,7 @@ namespace
 {
     template <typename Skip>
     struct InfoMerge : private Skip {
-        InfoElements& operator()(InfoElements& target, const InfoElements& source) const noexcept
+        InfoElements& operator()(InfoElements& target, const InfoElements& source) const
         {
             for (const auto& entry : source) {
                 assert(entry.second);
@@ -172,7 +172,7 @@ namespace
 
     template <typename T>
     struct ElementMerge {
-        void operator()(IElement& target, const IElement& append) const noexcept
+        void operator()(IElement& target, const IElement& append) const
         {
             assert(TypeQueryVisitor::as<const T>(&target));
             assert(TypeQueryVisitor::as<const T>(&append));
@@ -203,7 +203,7 @@ namespace
 
     template <>
     struct ElementMerge<EnumElement> {
-        void operator()(IElement& target, const IElement& append) const noexcept
+        void operator()(IElement& target, const IElement& append) const
         {
             assert(TypeQueryVisitor::as<const EnumElement>(&target));
             assert(TypeQueryVisitor::as<const EnumElement>(&append));
-- 
2.43.0


From 28a865c49e13101b1e4eecde7f51859cdafe877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 02/39] fix: number values must not terminate when memory runs
 out

The noexcept constructor copied its string argument instead of moving it,
and the conversions to and from integers allocate (and std::stoi throws for
a value that is no integer) in spite of their noexcept.
---
 packages/drafter/src/refract/dsd/Number.cc | 4 ++--
 packages/drafter/src/refract/dsd/Number.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Number.cc b/packages/drafter/src/refract/dsd/Number.cc
index d20e7df..f2127a0 100644
--- a/packages/drafter/src/refract/dsd/Number.cc
+++ b/packages/drafter/src/refract/dsd/Number.cc
@@ -31,14 +31,14 @@ static_assert(!supports_merge<Number>::value, "");
 static_assert(!is_iterable<Number>::value, "");
 static_assert(!is_pair<Number>::value, "");
 
-Number::Number(std::string v) noexcept : value_(v) {}
+Number::Number(std::string v) noexcept : value_(std::move(v)) {}
 
 const std::string& Number::get() const noexcept
 {
     return value_;
 }
 
-Number::operator std::int64_t() const noexcept
+Number::operator std::int64_t() const
 {
     std::string::size_type idx;
     std::int64_t result = std::stoi(value_, &idx);
diff --git a/packages/drafter/src/refract/dsd/Number.h b/packages/drafter/src/refract/dsd/Number.h
index 1aa5327..1901564 100644
--- a/packages/drafter/src/refract/dsd/Number.h
+++ b/packages/drafter/src/refract/dsd/Number.h
@@ -44,7 +44,7 @@ namespace refract
             explicit Number(std::string v) noexcept;
 
             template <typename N, typename = typename std::enable_if<std::is_integral<N>::value>::type>
-            explicit Number(N v) noexcept : value_(std::to_string(v))
+            explicit Number(N v) : value_(std::to_string(v))
             {
             }
 
@@ -58,7 +58,7 @@ namespace refract
             ///
             /// Parse this Number DSD as an integer
             ///
-            explicit operator std::int64_t() const noexcept;
+            explicit operator std::int64_t() const;
         };
 
         bool operator==(const Number&, const Number&) noexcept;
-- 
2.43.0


From f6acbdd262e74faba85444dd67fa97228bd309c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 03/39] fix: iterating children must survive a callback that
 throws

An exception from a callback left the nesting level of the strategy raised,
so every later use of the same iterator visited the wrong elements.
---
 packages/drafter/src/refract/Iterate.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/Iterate.h b/packages/drafter/src/refract/Iterate.h
index b2c41c9..7294756 100644
--- a/packages/drafter/src/refract/Iterate.h
+++ b/packages/drafter/src/refract/Iterate.h
@@ -69,6 +69,23 @@ namespace refract
 
     struct Children {
 
+        struct LevelGuard { //< restores the level even if a callback throws
+            int& level;
+
+            explicit LevelGuard(int& l) : level(l)
+            {
+                ++level;
+            }
+
+            ~LevelGuard()
+            {
+                --level;
+            }
+
+            LevelGuard(const LevelGuard&) = delete;
+            LevelGuard& operator=(const LevelGuard&) = delete;
+        };
+
         template <typename T, typename V = typename T::ValueType>
         struct Iterate {
 
@@ -85,13 +102,12 @@ namespace refract
                         return;
                     }
 
-                    strategy->level++;
+                    LevelGuard guard(strategy->level);
                     for (const auto& el : e) {
                         if (!el) // decide whether this is an assert
                             continue;
                         el->content(v);
                     }
-                    strategy->level--;
                 }
             };
 
-- 
2.43.0


From 32824a157a005d5b8f7205923abd68501dd2a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 04/39] fix: a failed Element::set must leave the element as it
 was

The element was marked as having a value before the value was copied, so
running out of memory left an empty element non-empty.
---
 packages/drafter/src/refract/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/Element.h b/packages/drafter/src/refract/Element.h
index c7a01e8..1a94820 100644
--- a/packages/drafter/src/refract/Element.h
+++ b/packages/drafter/src/refract/Element.h
@@ -84,8 +84,8 @@ namespace refract
 
         void set(DataType data = {})
         {
+            data_ = std::move(data);
             hasValue_ = true;
-            data_ = data;
         }
 
     public: // IElement
-- 
2.43.0


From 3e4e5066e702ad30e0a2c19bfdd71214b4370245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 05/39] fix: adding a member to an object must not lose the one
 it replaces

The member of the same name was erased before the memory for the new one was
allocated: when that failed, the object had neither.
---
 packages/drafter/src/refract/dsd/Object.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/dsd/Object.cc b/packages/drafter/src/refract/dsd/Object.cc
index 1f03790..521cd2d 100644
--- a/packages/drafter/src/refract/dsd/Object.cc
+++ b/packages/drafter/src/refract/dsd/Object.cc
@@ -63,6 +63,10 @@ void Object::push_back(std::unique_ptr<IElement> el)
 {
     assert(el);
 
+    // reserve before anything is erased: must not fail halfway
+    if (elements_.size() == elements_.capacity())
+        elements_.reserve(2 * elements_.size() + 1);
+
     if (!empty())
         if (auto mbr = TypeQueryVisitor::as<const MemberElement>(el.get()))
             if (!mbr->empty() && mbr->get().key())
@@ -105,10 +109,16 @@ Object::iterator Object::find(const std::string& name)
 
 Object::iterator Object::addMember(std::string name, std::unique_ptr<IElement> value)
 {
+    auto member = make_element<MemberElement>(name, std::move(value));
+
+    // reserve before anything is erased: must not fail halfway
+    if (elements_.size() == elements_.capacity())
+        elements_.reserve(2 * elements_.size() + 1);
+
     auto it = find(name);
     if (it != end())
         erase(it);
-    return insert(end(), make_element<MemberElement>(name, std::move(value)));
+    return insert(end(), std::move(member));
 }
 
 bool dsd::operator==(const Object& lhs, const Object& rhs) noexcept
-- 
2.43.0


From 1834f90d7cf6bb0815e3ecb2ff567360ecc983f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 06/39] fix: cloning info elements must be all or nothing

When memory ran out on the way, InfoElements::clone left some of the cloned
elements behind.
---
 packages/drafter/src/refract/InfoElements.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/InfoElements.cc b/packages/drafter/src/refract/InfoElements.cc
index c3fea90..702f871 100644
--- a/packages/drafter/src/refract/InfoElements.cc
+++ b/packages/drafter/src/refract/InfoElements.cc
@@ -81,11 +81,10 @@ namespace refract
 
     void InfoElements::clone(const InfoElements& other)
     {
-        std::transform(
-            other.begin(), other.end(), std::back_inserter(elements), [](const InfoElements::value_type& el) {
-                assert(el.second);
-                return std::make_pair(el.first, refract::clone(*el.second));
-            });
+        InfoElements copy(other); // all or nothing: copy first, append afterwards
+
+        elements.reserve(elements.size() + copy.size());
+        std::move(copy.elements.begin(), copy.elements.end(), std::back_inserter(elements));
     }
 
     void InfoElements::erase(const std::string& key)
-- 
2.43.0


From 17b4dbb4f3e5fed62961b2186f9bd5a91d6151ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 07/39] fix: looking for a root ancestor must terminate

FindRootAncestor noticed a type that inherits from itself, but looped forever
if two or more registered types inherit from each other.
---
 packages/drafter/src/refract/Registry.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/Registry.cc b/packages/drafter/src/refract/Registry.cc
index d7a268e..2c9aa63 100644
--- a/packages/drafter/src/refract/Registry.cc
+++ b/packages/drafter/src/refract/Registry.cc
@@ -36,15 +36,22 @@ Registry::Registry() : types_{baseTypeMap()} {}
 const IElement* refract::FindRootAncestor(const std::string& name, const Registry& registry)
 {
     const IElement* parent = registry.find(name);
+    const IElement* checkpoint = parent; // trails behind, to notice types that inherit from each other
 
-    while (parent && !isReserved(parent->element())) {
+    for (std::size_t steps = 1, limit = 1; parent && !isReserved(parent->element()); ++steps) {
         const IElement* next = registry.find(parent->element());
 
-        if (!next || (next == parent)) {
+        if (!next || (next == parent) || (next == checkpoint)) {
             return parent;
         }
 
         parent = next;
+
+        if (steps == limit) {
+            checkpoint = parent;
+            steps = 0;
+            limit *= 2;
+        }
     }
 
     return parent;
-- 
2.43.0


From dee4de61f9d18a99c70263b3aaf746d160aec708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 08/39] fix: regular expressions must not leak or lie when
 memory runs out

RegexCapture leaked the compiled expression and the match array when copying
the groups failed, and both functions reported a lack of memory as 'no match'.
---
 .../src/snowcrash/posix/RegexMatch.cc         | 108 +++++++++---------
 1 file changed, 56 insertions(+), 52 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc b/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
index 15ae29e..02a4f94 100644
--- a/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
+++ b/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
@@ -7,9 +7,44 @@
 //
 
 #include <regex.h>
-#include <cstring>
+#include <new>
+#include <vector>
 #include "../RegexMatch.h"
 
+namespace
+{
+    // Owner of a compiled regular expression
+    struct Regex {
+        regex_t regex;
+        bool valid;
+
+        Regex(const std::string& expression, int flags)
+        {
+            int reti = ::regcomp(&regex, expression.c_str(), flags);
+            if (reti == REG_ESPACE)
+                throw std::bad_alloc();
+            valid = (reti == 0);
+        }
+
+        ~Regex()
+        {
+            if (valid)
+                ::regfree(&regex);
+        }
+
+        Regex(const Regex&) = delete;
+        Regex& operator=(const Regex&) = delete;
+
+        bool match(const std::string& target, size_t groupSize, regmatch_t* groups) const
+        {
+            int reti = ::regexec(&regex, target.c_str(), groupSize, groups, 0);
+            if (reti == REG_ESPACE)
+                throw std::bad_alloc();
+            return reti == 0;
+        }
+    };
+}
+
 // FIXME: Migrate to C++11.
 // Naive implementation of regex matching using POSIX regex
 bool snowcrash::RegexMatch(const std::string& target, const std::string& expression)
@@ -17,29 +52,9 @@ bool snowcrash::RegexMatch(const std::string& target, const std::string& express
     if (target.empty() || expression.empty())
         return false;
 
-    regex_t regex;
-    int reti = ::regcomp(&regex, expression.c_str(), REG_EXTENDED | REG_NOSUB);
-    if (reti) {
-        // Unable to compile regex
-        return false;
-    }
+    Regex regex(expression, REG_EXTENDED | REG_NOSUB);
 
-    // Execute regular expression
-    reti = ::regexec(&regex, target.c_str(), 0, NULL, 0);
-    if (!reti) {
-        ::regfree(&regex);
-        return true;
-    } else if (reti == REG_NOMATCH) {
-        ::regfree(&regex);
-        return false;
-    } else {
-        char msgbuf[1024];
-        regerror(reti, &regex, msgbuf, sizeof(msgbuf));
-        ::regfree(&regex);
-        return false;
-    }
-
-    return false;
+    return regex.valid && regex.match(target, 0, NULL);
 }
 
 std::string snowcrash::RegexCaptureFirst(const std::string& target, const std::string& expression)
@@ -59,35 +74,24 @@ bool snowcrash::RegexCapture(
 
     captureGroups.clear();
 
-    try {
-        regex_t regex;
-        int reti = ::regcomp(&regex, expression.c_str(), REG_EXTENDED);
-        if (reti)
-            return false;
-
-        regmatch_t* pmatch = ::new regmatch_t[groupSize];
-        ::memset(pmatch, 0, sizeof(regmatch_t) * groupSize);
-
-        reti = ::regexec(&regex, target.c_str(), groupSize, pmatch, 0);
-        if (!reti) {
-            ::regfree(&regex);
-
-            for (size_t i = 0; i < groupSize; ++i) {
-                if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1)
-                    captureGroups.push_back(std::string());
-                else
-                    captureGroups.push_back(std::string(target, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so));
-            }
-
-            delete[] pmatch;
-            return true;
-        } else {
-            ::regfree(&regex);
-            delete[] pmatch;
-            return false;
-        }
-    } catch (...) {
+    Regex regex(expression, REG_EXTENDED);
+    if (!regex.valid)
+        return false;
+
+    std::vector<regmatch_t> pmatch(groupSize);
+    if (!regex.match(target, groupSize, pmatch.data()))
+        return false;
+
+    CaptureGroups groups;
+    groups.reserve(groupSize);
+
+    for (size_t i = 0; i < groupSize; ++i) {
+        if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1)
+            groups.push_back(std::string());
+        else
+            groups.push_back(std::string(target, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so));
     }
 
-    return false;
+    captureGroups.swap(groups);
+    return true;
 }
-- 
2.43.0


From d4986716e170236bee4f7113f4f1e9c4e87531df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 09/39] fix: mapping byte ranges must not drop bytes when
 memory runs out

A string stream swallows std::bad_alloc: MapBytesRangeSet silently returned a
truncated buffer.
---
 packages/apib-parser/src/markdown-parser/ByteBuffer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index a2b275d..9b61f36 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -160,22 +160,22 @@ ByteBuffer mdp::MapBytesRangeSet(const BytesRangeSet& rangeSet, const ByteBuffer
         return ByteBuffer();
 
     size_t length = byteBuffer.length();
-    ByteBufferStream s;
+    ByteBuffer s; // not a stream: it would drop data silently if memory runs out
     for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
 
         if (it->location + it->length > length) {
             // Sundown adds an extra newline on the source input if needed.
             if (it->location + it->length - length == 1) {
-                s << byteBuffer.substr(it->location, length - it->location);
-                return s.str();
+                s.append(byteBuffer, it->location, length - it->location);
+                return s;
             } else {
                 // Wrong map
                 return ByteBuffer();
             }
         }
 
-        s << byteBuffer.substr(it->location, it->length);
+        s.append(byteBuffer, it->location, it->length);
     }
 
-    return s.str();
+    return s;
 }
-- 
2.43.0


From 7618695d77681c478599ec974f0ad8092f1cfce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 10/39] fix: serialize must not return a part of its output
 when memory runs out

A string stream swallows std::bad_alloc and stops writing.
---
 packages/drafter/src/backend/Backend.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/drafter/src/backend/Backend.h b/packages/drafter/src/backend/Backend.h
index b01157a..dcd9c43 100644
--- a/packages/drafter/src/backend/Backend.h
+++ b/packages/drafter/src/backend/Backend.h
@@ -19,6 +19,7 @@ namespace apib
         std::string serialize(const T& obj)
         {
             std::ostringstream s;
+            s.exceptions(std::ios_base::badbit); // do not return half of it if memory runs out
             s << obj;
             return s.str();
         }
-- 
2.43.0


From f24e4b221cdfe760a59f8617cb190abb331dedaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 11/39] fix: reports must not lose a part of an annotation when
 memory runs out

A string stream swallows std::bad_alloc and stops writing.
---
 packages/drafter/src/reporting.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/drafter/src/reporting.cc b/packages/drafter/src/reporting.cc
index 619fee3..a77933a 100644
--- a/packages/drafter/src/reporting.cc
+++ b/packages/drafter/src/reporting.cc
@@ -100,6 +100,7 @@ namespace
         const std::string location(const IElement* sourceMap)
         {
             std::stringstream output;
+            output.exceptions(std::ios_base::badbit); // do not return half of it if memory runs out
             auto map = TypeQueryVisitor::as<const ArrayElement>(sourceMap);
             if (map && map->get().size() == 2) {
 
@@ -126,6 +127,7 @@ namespace
         const std::string operator()(const IElement* annotation)
         {
             std::stringstream output;
+            output.exceptions(std::ios_base::badbit); // do not return half of it if memory runs out
 
             if (!annotation || annotation->element() != "annotation") {
                 return output.str();
-- 
2.43.0


From eebc071ae782cc2b8334b97a4761fe07d9a0942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 12/39] fix: the circular reference message must not lose its
 end when memory runs out

A string stream swallows std::bad_alloc and stops writing.
---
 packages/drafter/src/refract/ExpandVisitor.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 561bea4..3e72e72 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -247,12 +247,8 @@ namespace refract
 
             if (std::find(members.begin(), members.end(), symbol) != members.end()) {
 
-                std::stringstream msg;
-                msg << "named type '";
-                msg << symbol;
-                msg << "' is circularly referencing itself by mixin";
-
-                throw snowcrash::Error(msg.str(), snowcrash::MSONError);
+                throw snowcrash::Error(
+                    "named type '" + symbol + "' is circularly referencing itself by mixin", snowcrash::MSONError);
             }
 
             members.push_back(symbol);
-- 
2.43.0


From 769f2bdc529da16b99bbb46a00fb8dc43f8f7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 13/39] fix: expanding an unregistered type that contains
 itself must not crash

There is no root ancestor to clone for a named type that is not registered.
---
 packages/drafter/src/refract/ExpandVisitor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 3e72e72..9fd0663 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -208,8 +208,9 @@ namespace refract
                 // To avoid unfinised recursion just clone
                 const IElement* root = FindRootAncestor(e.element(), registry);
 
-                // FIXME: if not found root
-                assert(root);
+                // nothing is known about the named type: there is nothing to refer to
+                if (!root)
+                    return e.clone();
 
                 auto result = clone(*root, IElement::cMeta | IElement::cAttributes | IElement::cNoMetaId);
 
-- 
2.43.0


From dc6c04e1549cc700f095d78340b99d71fa229c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 14/39] fix: an expansion that throws must not spoil the next
 one

The names of the types being expanded stayed listed in the visitor when memory
ran out or a circular mixin was found, so expanding with the same visitor again
reported or cut off a recursion that was not there.
---
 packages/drafter/src/refract/ExpandVisitor.cc | 41 ++++++++++++++-----
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 9fd0663..dc236f6 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -160,6 +160,23 @@ namespace refract
         ExpandVisitor* expand;
         std::deque<std::string> members;
 
+        struct MemberGuard { //< a named type being expanded; leaves even if expanding it throws
+            std::deque<std::string>& members;
+
+            MemberGuard(std::deque<std::string>& m, const std::string& name) : members(m)
+            {
+                members.push_back(name);
+            }
+
+            ~MemberGuard()
+            {
+                members.pop_back();
+            }
+
+            MemberGuard(const MemberGuard&) = delete;
+            MemberGuard& operator=(const MemberGuard&) = delete;
+        };
+
         Context(const Registry& registry, ExpandVisitor* expand) : registry(registry), expand(expand) {}
 
         std::unique_ptr<IElement> ExpandOrClone(const IElement* e) const
@@ -199,6 +216,18 @@ namespace refract
             return o;
         }
 
+        template <typename T>
+        std::unique_ptr<ExtendElement> ExpandInheritanceTree(const T& e)
+        {
+            MemberGuard guard(members, e.element());
+
+            auto extend = ExpandMembers(*GetInheritanceTree(e.element(), registry));
+
+            CopyMetaId(*extend, e);
+
+            return extend;
+        }
+
         template <typename T>
         std::unique_ptr<IElement> ExpandNamedType(const T& e)
         {
@@ -219,13 +248,7 @@ namespace refract
                 return result;
             }
 
-            members.push_back(e.element());
-
-            auto extend = ExpandMembers(*GetInheritanceTree(e.element(), registry));
-
-            CopyMetaId(*extend, e);
-
-            members.pop_back();
+            auto extend = ExpandInheritanceTree(e);
 
             auto origin = ExpandMembers(e);
             origin->meta().erase("id");
@@ -252,7 +275,7 @@ namespace refract
                     "named type '" + symbol + "' is circularly referencing itself by mixin", snowcrash::MSONError);
             }
 
-            members.push_back(symbol);
+            MemberGuard guard(members, symbol);
 
             if (auto referenced = registry.find(symbol)) {
                 auto expanded = ExpandOrClone(std::move(referenced));
@@ -260,8 +283,6 @@ namespace refract
                 ref->attributes().set("resolved", std::move(expanded));
             }
 
-            members.pop_back();
-
             return ref;
         }
     };
-- 
2.43.0


From c770d1aa3678d1fc4340b574726d87baa48bfb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 15/39] fix: mapping bytes to characters must stay within the
 source

A source that ends inside a character made the character index write beyond its
end, ranges beyond the end of the source were read from beyond it, and a zero
byte left the rest of the index at zero (lengths underflowed).
---
 .../src/markdown-parser/ByteBuffer.cc         | 42 ++++++++++---------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index 9b61f36..cd6bb76 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -8,10 +8,12 @@
 
 #include "ByteBuffer.h"
 
+#include <algorithm>
+
 using namespace mdp;
 
 /* Byte lenght of an UTF8 character (based on first byte) */
-#define UTF8_CHAR_LEN(byte) ((0xE5000000 >> ((byte >> 3) & 0x1e)) & 3) + 1
+#define UTF8_CHAR_LEN(byte) (((0xE5000000 >> ((byte >> 3) & 0x1e)) & 3) + 1)
 
 /* Number of UTF8 characters in byte buffer */
 static size_t strnlen_utf8(const char* s, size_t len)
@@ -20,13 +22,20 @@ static size_t strnlen_utf8(const char* s, size_t len)
         return 0;
 
     size_t i = 0, j = 0;
-    while (s[i] && i < len) {
+    while (i < len) {
         i += UTF8_CHAR_LEN(s[i]);
         j++;
     }
     return j;
 }
 
+/* Accomodate maximum possible length: the part of a range that lies within a buffer of given size */
+static BytesRange ClampRange(const BytesRange& range, size_t size)
+{
+    const size_t location = std::min(range.location, size);
+    return BytesRange(location, std::min(range.length, size - location));
+}
+
 /* Convert range of bytes to a range of characters */
 static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange, const ByteBuffer& byteBuffer)
 {
@@ -34,19 +43,15 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > byteBuffer.length()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - byteBuffer.length();
-    }
+    const BytesRange workRange = ClampRange(bytesRange, byteBuffer.length());
 
     size_t charLocation = 0;
-    if (bytesRange.location > 0)
-        charLocation = strnlen_utf8(byteBuffer.c_str(), bytesRange.location);
+    if (workRange.location > 0)
+        charLocation = strnlen_utf8(byteBuffer.c_str(), workRange.location);
 
     size_t charLength = 0;
-    if (bytesRange.length > 0)
-        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, bytesRange.length);
+    if (workRange.length > 0)
+        charLength = strnlen_utf8(byteBuffer.c_str() + workRange.location, workRange.length);
 
     CharactersRange characterRange = CharactersRange(charLocation, charLength);
     return characterRange;
@@ -58,14 +63,12 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > index.size()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - index.size();
-    }
+    const BytesRange workRange = ClampRange(bytesRange, index.size());
 
     size_t charLocation = 0;
-    if (workRange.location > 0)
+    if (workRange.location >= index.size())
+        charLocation = index[index.size() - 1] + 1;
+    else if (workRange.location > 0)
         charLocation = index[workRange.location];
 
     size_t charLength = 0;
@@ -95,8 +98,9 @@ void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer&
 
     index.resize(byteBuffer.length());
 
-    while (source[pos] && pos < len) {
-        int charLen = UTF8_CHAR_LEN(source[pos]);
+    while (pos < len) {
+        // the last character may be cut off
+        size_t charLen = std::min<size_t>(UTF8_CHAR_LEN(source[pos]), len - pos);
         pos += charLen;
 
         while (charLen) {
-- 
2.43.0


From 759f2970340ca2e72a8eaf71b60f84195b7c74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 16/39] fix: a byte range that begins beyond the source must
 not throw

MapBytesRangeSet returns an empty buffer for a wrong map, but threw
std::out_of_range for an empty range one byte beyond the end.
---
 packages/apib-parser/src/markdown-parser/ByteBuffer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index cd6bb76..cf18253 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -167,9 +167,12 @@ ByteBuffer mdp::MapBytesRangeSet(const BytesRangeSet& rangeSet, const ByteBuffer
     ByteBuffer s; // not a stream: it would drop data silently if memory runs out
     for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
 
-        if (it->location + it->length > length) {
+        if (it->location > length)
+            return ByteBuffer(); // Wrong map
+
+        if (it->length > length - it->location) {
             // Sundown adds an extra newline on the source input if needed.
-            if (it->location + it->length - length == 1) {
+            if (it->length - (length - it->location) == 1) {
                 s.append(byteBuffer, it->location, length - it->location);
                 return s;
             } else {
-- 
2.43.0


From b7b3cc339f9a543fa25b2b0493e8e25bf50f98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 17/39] fix: locating an empty range at the beginning must not
 read before the index

---
 packages/drafter/src/SourceMapUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 780ca9c..6e1aaec 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -41,7 +41,7 @@ namespace drafter
 
         // end of byte mapping workarround
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        if (annotationPositionIt != linesEndIndex.begin() && annotationPositionIt != linesEndIndex.end()) {
             out.toLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.toColumn = (range.location + range.length) - *(std::prev(annotationPositionIt));
         }
-- 
2.43.0


From 269b73d1c57996d45efa85043b59c15dfe27f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 18/39] fix: looking for a member by its key must find it

---
 packages/drafter/src/refract/ComparableVisitor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/drafter/src/refract/ComparableVisitor.h b/packages/drafter/src/refract/ComparableVisitor.h
index 19eabeb..317872b 100644
--- a/packages/drafter/src/refract/ComparableVisitor.h
+++ b/packages/drafter/src/refract/ComparableVisitor.h
@@ -10,6 +10,7 @@
 
 #include "ElementFwd.h"
 #include "ElementIfc.h"
+#include "dsd/String.h"
 #include <string>
 
 namespace refract
@@ -32,6 +33,11 @@ namespace refract
             return first == second;
         }
 
+        bool IsEqual(const std::string& first, const dsd::String& second)
+        {
+            return first == second.get();
+        }
+
     public:
         enum
         {
-- 
2.43.0


From c062ed99b43fbb85509978137440c2cc0dccabc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 19/39] fix: appending to a missing attribute must append the
 value given

---
 packages/drafter/src/refract/InfoElementsUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/InfoElementsUtils.h b/packages/drafter/src/refract/InfoElementsUtils.h
index 50a8be4..a111f39 100644
--- a/packages/drafter/src/refract/InfoElementsUtils.h
+++ b/packages/drafter/src/refract/InfoElementsUtils.h
@@ -49,7 +49,7 @@ namespace refract
     {
         auto ta = ie.find(key);
         if (ta == ie.end()) {
-            ie.set(key, make_element<ValueElementType>(from_primitive("fixed")));
+            ie.set(key, make_element<ValueElementType>(make_element<Element<DSDType> >(std::move(value))));
         } else {
             auto arr = TypeQueryVisitor::as<ValueElementType>(ta->second.get());
 
-- 
2.43.0


From 50a92c853c6f36b8af47f945f31cddee8d9301c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 20/39] fix: printing a select must not leave out what its
 options carry

---
 packages/drafter/src/refract/PrintVisitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/PrintVisitor.h b/packages/drafter/src/refract/PrintVisitor.h
index ba44dd3..4fa4a89 100644
--- a/packages/drafter/src/refract/PrintVisitor.h
+++ b/packages/drafter/src/refract/PrintVisitor.h
@@ -35,7 +35,7 @@ namespace refract
 
             if (!e.empty())
                 for (const auto& v : e.get()) {
-                    PrintVisitor{ indent + 1, os, ommitSourceMap }(*v);
+                    PrintVisitor{ indent + 1, os, ommitSourceMap }(static_cast<const IElement&>(*v));
                 }
         }
 
-- 
2.43.0


From 4fa1b9f2a66d235622c8c3f2875310671f0eae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 21/39] fix: an entry below the logged severity must not leave
 its text in the log

---
 packages/drafter/src/utils/log/Trivial.cc | 20 +++++++++-----------
 packages/drafter/src/utils/log/Trivial.h  |  5 +++--
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/packages/drafter/src/utils/log/Trivial.cc b/packages/drafter/src/utils/log/Trivial.cc
index 37b8408..a704c44 100644
--- a/packages/drafter/src/utils/log/Trivial.cc
+++ b/packages/drafter/src/utils/log/Trivial.cc
@@ -56,22 +56,20 @@ const char* log::severity_to_str(severity s)
 }
 
 trivial_entry::trivial_entry(trivial_log& log, severity svrty, size_t line, const char* file)
-    : log_(log), severity_(svrty), log_lock_(log_.mtx())
+    : log_(log), severity_(svrty), log_lock_(log_.mtx()), out_(enough_severity(svrty) ? log_.out() : nullptr)
 {
-    if (enough_severity(severity_))
-        if (auto* out = log_.out()) {
-            *out << '[' << severity_to_str(svrty) << "]";
-            *out << '[' << std::this_thread::get_id() << "]";
-            *out << '[' << file << ':' << line << "] ";
-        }
+    if (out_) {
+        *out_ << '[' << severity_to_str(svrty) << "]";
+        *out_ << '[' << std::this_thread::get_id() << "]";
+        *out_ << '[' << file << ':' << line << "] ";
+    }
 }
 
 trivial_entry::~trivial_entry()
 {
-    if (enough_severity(severity_))
-        if (auto* out = log_.out()) {
-            *out << '\n'; // TODO @tjanc@ could throw
-        }
+    if (out_) {
+        *out_ << '\n'; // TODO @tjanc@ could throw
+    }
 }
 
 std::mutex& trivial_log::mtx() const
diff --git a/packages/drafter/src/utils/log/Trivial.h b/packages/drafter/src/utils/log/Trivial.h
index 2419d09..dd175eb 100644
--- a/packages/drafter/src/utils/log/Trivial.h
+++ b/packages/drafter/src/utils/log/Trivial.h
@@ -42,6 +42,7 @@ namespace drafter
                 trivial_log& log_;
                 severity severity_;
                 std::lock_guard<std::mutex> log_lock_;
+                std::ostream* out_; //< null if the entry is not to be logged
 
             public:
                 trivial_entry(trivial_log& log, severity svrty, size_t line, const char* file);
@@ -78,8 +79,8 @@ namespace drafter
             template <typename T>
             trivial_entry& trivial_entry::operator<<(T&& obj)
             {
-                if (auto* out = log_.out())
-                    *out << std::forward<T>(obj);
+                if (out_)
+                    *out_ << std::forward<T>(obj);
                 return *this;
             }
         } // namespace log
-- 
2.43.0


From 2c7cbe75512462e24ee29af4f354d20e5b5342ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 22/39] fix: merging objects must not crash on a member whose
 key is not a plain string

---
 packages/drafter/src/refract/dsd/Extend.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index 18b6a27..e18f982 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -96,16 +96,15 @@ namespace
                             assert(mergeMember);
 
                             auto mergeKey = TypeQueryVisitor::as<const StringElement>(mergeMember->get().key());
-                            assert(mergeKey);
+                            if (!mergeKey) // e.g. a variable property with a named type, once expanded
+                                return value.get().end();
 
                             return std::find_if(
                                 value.get().begin(), value.get().end(), [mergeKey](const std::unique_ptr<IElement>& e) {
                                     if (auto valueMember = TypeQueryVisitor::as<const MemberElement>(e.get())) {
                                         auto valueKey
                                             = TypeQueryVisitor::as<const StringElement>(valueMember->get().key());
-                                        assert(valueKey);
-
-                                        return mergeKey->get() == valueKey->get();
+                                        return valueKey && mergeKey->get() == valueKey->get();
                                     }
 
                                     if (auto valueSelect = TypeQueryVisitor::as<const SelectElement>(e.get())) {
@@ -123,9 +122,9 @@ namespace
                                                                           auto optElMemberKey = TypeQueryVisitor::as<
                                                                               const StringElement>(
                                                                               optElMember->get().key());
-                                                                          assert(optElMemberKey);
-                                                                          return optElMemberKey->get()
-                                                                              == mergeKey->get();
+                                                                          return optElMemberKey
+                                                                              && optElMemberKey->get()
+                                                                                  == mergeKey->get();
                                                                       }
                                                                       return false;
                                                                   });
-- 
2.43.0


From cfe4712858c926882895818d73fa8d9aee54fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 23/39] fix: an annotation on an unterminated last line is on
 that line, not on line 0

---
 packages/drafter/src/SourceMapUtils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 6e1aaec..1685f52 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -18,7 +18,8 @@ namespace drafter
 
         auto annotationPositionIt = std::upper_bound(linesEndIndex.begin(), linesEndIndex.end(), range.location);
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        // the last line need not be terminated: nothing begins behind it
+        if (annotationPositionIt != linesEndIndex.begin()) {
             out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
         }
-- 
2.43.0


From 58acc6ad8bce15d6bef39be1eb1ca2c71722c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 24/39] fix: appending to a set of ranges must not leave it
 half merged when memory runs out

---
 packages/apib-parser/src/markdown-parser/ByteBuffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.h b/packages/apib-parser/src/markdown-parser/ByteBuffer.h
index ebaca98..31177d4 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.h
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.h
@@ -54,12 +54,14 @@ namespace mdp
             if (this->empty() || val.front().location != this->back().location + this->back().length) {
                 this->insert(this->end(), val.begin(), val.end());
             } else {
-                // merge
-                this->back().length += val.front().length;
+                // merge; the insertion comes first, as it is what may fail
+                const typename std::vector<T>::size_type last = this->size() - 1;
 
                 if (val.size() > 1) {
                     this->insert(this->end(), ++val.begin(), val.end());
                 }
+
+                (*this)[last].length += val.front().length;
             }
         }
     };
-- 
2.43.0


From 819ef7c532c11121da58c36cd4c381bc65624edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 25/39] fix: the C interface must not throw or answer with a
 part of its result when memory runs out

An exception must not reach C, and a string stream swallows std::bad_alloc.
---
 .../apib-parser/src/snowcrash/snowcrash.cc    |   5 +-
 packages/drafter/src/ConversionContext.cc     |   2 +-
 packages/drafter/src/ConversionContext.h      |   2 +-
 packages/drafter/src/drafter.cc               | 102 ++++++++++--------
 packages/drafter/src/utils/so/Value.h         |   2 +-
 5 files changed, 62 insertions(+), 51 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/snowcrash.cc b/packages/apib-parser/src/snowcrash/snowcrash.cc
index 6d40989..9c103d7 100644
--- a/packages/apib-parser/src/snowcrash/snowcrash.cc
+++ b/packages/apib-parser/src/snowcrash/snowcrash.cc
@@ -75,10 +75,7 @@ int snowcrash::parse(
     } catch (const Error& e) {
         out.report.error = e;
     } catch (const std::exception& e) {
-
-        std::stringstream ss;
-        ss << "parser exception: '" << e.what() << "'";
-        out.report.error = Error(ss.str(), ApplicationError);
+        out.report.error = Error(std::string("parser exception: '") + e.what() + "'", ApplicationError);
     } catch (...) {
         out.report.error = Error("parser exception has occurred", ApplicationError);
     }
diff --git a/packages/drafter/src/ConversionContext.cc b/packages/drafter/src/ConversionContext.cc
index 989b984..7f4de70 100644
--- a/packages/drafter/src/ConversionContext.cc
+++ b/packages/drafter/src/ConversionContext.cc
@@ -12,7 +12,7 @@
 
 using namespace drafter;
 
-ConversionContext::ConversionContext(const char* src, const drafter_parse_options* opts, bool expandMson) noexcept
+ConversionContext::ConversionContext(const char* src, const drafter_parse_options* opts, bool expandMson)
     : newline_indices_(GetLinesEndIndex(src)),
       expand_mson_{ expandMson },
       options_{ opts },
diff --git a/packages/drafter/src/ConversionContext.h b/packages/drafter/src/ConversionContext.h
index 1469a3c..75b2049 100644
--- a/packages/drafter/src/ConversionContext.h
+++ b/packages/drafter/src/ConversionContext.h
@@ -39,7 +39,7 @@ namespace drafter
             const char*,
             const drafter_parse_options* opts = nullptr,
             bool expandMson = false // TODO avoid, only used in unit tests
-            ) noexcept;
+        );
 
         const NewLinesIndex& newlineIndices() const noexcept;
 
diff --git a/packages/drafter/src/drafter.cc b/packages/drafter/src/drafter.cc
index 2785137..0f88191 100644
--- a/packages/drafter/src/drafter.cc
+++ b/packages/drafter/src/drafter.cc
@@ -35,6 +35,7 @@
 
 #include <cstring>
 #include <cassert>
+#include <new>
 
 DRAFTER_API drafter_error drafter_parse_blueprint_to(const char* source,
     char** out,
@@ -73,23 +74,27 @@ DRAFTER_API drafter_error drafter_parse_blueprint(
         return DRAFTER_EINVALID_INPUT;
     }
 
-    sc::BlueprintParserOptions scOptions = sc::ExportSourcemapOption;
+    try {
+        sc::BlueprintParserOptions scOptions = sc::ExportSourcemapOption;
 
-    if (drafter::is_name_required(parse_opts)) {
-        scOptions |= sc::RequireBlueprintNameOption;
-    }
+        if (drafter::is_name_required(parse_opts)) {
+            scOptions |= sc::RequireBlueprintNameOption;
+        }
 
-    sc::ParseResult<sc::Blueprint> blueprint;
-    sc::parse(source, scOptions, blueprint);
+        sc::ParseResult<sc::Blueprint> blueprint;
+        sc::parse(source, scOptions, blueprint);
 
-    drafter::ConversionContext context(source, parse_opts);
-    auto result = WrapRefract(blueprint, context);
+        drafter::ConversionContext context(source, parse_opts);
+        auto result = WrapRefract(blueprint, context);
 
-    if (out) {
-        *out = result.release();
-    }
+        if (out) {
+            *out = result.release();
+        }
 
-    return (drafter_error)blueprint.report.error.code;
+        return (drafter_error)blueprint.report.error.code;
+    } catch (...) { // an exception must not reach C
+        return DRAFTER_EUNKNOWN;
+    }
 }
 
 /* Serialize result to given format*/
@@ -99,25 +104,30 @@ DRAFTER_API char* drafter_serialize(drafter_result* res, const drafter_serialize
         return nullptr;
     }
 
-    std::ostringstream out;
-
-    switch (drafter::get_format(serialize_opts)) {
-        case DRAFTER_SERIALIZE_JSON: {
-            auto soValue = refract::serialize::renderSo(*res, drafter::are_sourcemaps_included(serialize_opts));
-            drafter::utils::so::serialize_json(out, soValue);
-            break;
-        }
-        case DRAFTER_SERIALIZE_YAML: {
-            auto soValue = refract::serialize::renderSo(*res, drafter::are_sourcemaps_included(serialize_opts));
-            drafter::utils::so::serialize_yaml(out, soValue);
-            break;
+    try {
+        std::ostringstream out;
+        out.exceptions(std::ios_base::badbit); // do not return half of it if memory runs out
+
+        switch (drafter::get_format(serialize_opts)) {
+            case DRAFTER_SERIALIZE_JSON: {
+                auto soValue = refract::serialize::renderSo(*res, drafter::are_sourcemaps_included(serialize_opts));
+                drafter::utils::so::serialize_json(out, soValue);
+                break;
+            }
+            case DRAFTER_SERIALIZE_YAML: {
+                auto soValue = refract::serialize::renderSo(*res, drafter::are_sourcemaps_included(serialize_opts));
+                drafter::utils::so::serialize_yaml(out, soValue);
+                break;
+            }
+
+            default:
+                return nullptr;
         }
 
-        default:
-            return nullptr;
+        return strdup(out.str().c_str());
+    } catch (...) { // an exception must not reach C
+        return nullptr;
     }
-
-    return strdup(out.str().c_str());
 }
 
 /* Parse API Blueprint and return only annotations, if NULL than
@@ -138,28 +148,32 @@ DRAFTER_API drafter_error drafter_check_blueprint(
         return ret;
     }
 
-    drafter_result* out = nullptr;
+    try {
+        std::unique_ptr<refract::IElement> out;
 
-    refract::FilterVisitor filter(refract::query::Element("annotation"));
-    refract::Iterate<refract::Children> iterate(filter);
-    iterate(*result);
+        refract::FilterVisitor filter(refract::query::Element("annotation"));
+        refract::Iterate<refract::Children> iterate(filter);
+        iterate(*result);
 
-    if (!filter.empty()) {
-        refract::ArrayElement::ValueType elements;
+        if (!filter.empty()) {
+            refract::ArrayElement::ValueType elements;
 
-        std::transform(filter.elements().begin(),
-            filter.elements().end(),
-            std::back_inserter(elements),
-            std::bind(&refract::IElement::clone, std::placeholders::_1, refract::IElement::cAll));
+            std::transform(filter.elements().begin(),
+                filter.elements().end(),
+                std::back_inserter(elements),
+                std::bind(&refract::IElement::clone, std::placeholders::_1, refract::IElement::cAll));
 
-        out = new refract::ArrayElement(elements);
-        out->element(drafter::SerializeKey::ParseResult);
+            out.reset(new refract::ArrayElement(elements));
+            out->element(drafter::SerializeKey::ParseResult);
+        }
+
+        *res = out.release();
+    } catch (...) { // an exception must not reach C
+        ret = DRAFTER_EUNKNOWN;
     }
 
     drafter_free_result(result);
 
-    *res = out;
-
     return ret;
 }
 
@@ -170,7 +184,7 @@ DRAFTER_API void drafter_free_result(drafter_result* result)
 
 DRAFTER_API drafter_parse_options* drafter_init_parse_options()
 {
-    return new drafter_parse_options{};
+    return new (std::nothrow) drafter_parse_options{};
 }
 
 DRAFTER_API void drafter_free_parse_options(drafter_parse_options* opts)
@@ -198,7 +212,7 @@ DRAFTER_API void drafter_set_skip_gen_body_schemas(drafter_parse_options* opts)
 
 DRAFTER_API drafter_serialize_options* drafter_init_serialize_options()
 {
-    return new drafter_serialize_options{};
+    return new (std::nothrow) drafter_serialize_options{};
 }
 
 DRAFTER_API void drafter_free_serialize_options(drafter_serialize_options* opts)
diff --git a/packages/drafter/src/utils/so/Value.h b/packages/drafter/src/utils/so/Value.h
index cb945b7..8365d7e 100644
--- a/packages/drafter/src/utils/so/Value.h
+++ b/packages/drafter/src/utils/so/Value.h
@@ -105,7 +105,7 @@ namespace drafter
                 explicit Number(std::string d) : data(std::move(d)) {}
 
                 template <typename N, typename = typename std::enable_if<std::is_integral<N>::value>::type>
-                explicit Number(N v) noexcept : data(std::to_string(v))
+                explicit Number(N v) : data(std::to_string(v))
                 {
                 }
             };
-- 
2.43.0


From 56987ab1a4511318660d4de8c1c5b087bc741e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 26/39] fix: the Markdown parser must release its buffers when
 a callback throws, and notice failed allocations

---
 .../src/markdown-parser/MarkdownParser.cc         | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
index 4dfeabb..91337f0 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
@@ -7,6 +7,8 @@
 //
 
 #include <cstring>
+#include <memory>
+#include <new>
 #include <stdexcept>
 #include "MarkdownParser.h"
 
@@ -45,13 +47,16 @@ void MarkdownParser::parse(const ByteBuffer& source, MarkdownNode& ast)
 
     RenderCallbacks callbacks = renderCallbacks();
 
-    ::sd_markdown* sundown = ::sd_markdown_new(ParserExtensions, MaxNesting, &callbacks, renderCallbackData());
-    ::buf* output = ::bufnew(OutputUnitSize);
+    // released even if a callback throws
+    std::unique_ptr< ::sd_markdown, decltype(&::sd_markdown_free)> sundown(
+        ::sd_markdown_new(ParserExtensions, MaxNesting, &callbacks, renderCallbackData()), &::sd_markdown_free);
+    std::unique_ptr< ::buf, decltype(&::bufrelease)> output(::bufnew(OutputUnitSize), &::bufrelease);
 
-    ::sd_markdown_render(output, reinterpret_cast<const uint8_t*>(source.c_str()), source.length(), sundown);
+    if (!sundown || !output)
+        throw std::bad_alloc();
 
-    ::bufrelease(output);
-    ::sd_markdown_free(sundown);
+    ::sd_markdown_render(
+        output.get(), reinterpret_cast<const uint8_t*>(source.c_str()), source.length(), sundown.get());
 
     m_workingNode = NULL;
     m_source = NULL;
-- 
2.43.0


From 1a10b3451ea63ee4c6c8d55439cb057209c7ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 27/39] fix: a message about a header name must not hold a part
 of a character

---
 packages/apib-parser/src/snowcrash/HeadersParser.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.cc b/packages/apib-parser/src/snowcrash/HeadersParser.cc
index aa18c54..362e295 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.cc
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.cc
@@ -60,10 +60,17 @@ bool HeaderNameTokenChecker::operator()() const
 std::string HeaderNameTokenChecker::getMessage() const
 {
 
-    const char invalidChar = *findNonValidCharInHeaderName(headerName);
+    std::string::const_iterator begin = findNonValidCharInHeaderName(headerName);
+    std::string::const_iterator end = begin;
+
+    // quote the whole of a multibyte character
+    do {
+        ++end;
+    } while (end != headerName.end() && (static_cast<unsigned char>(*end) & 0xC0) == 0x80);
+
     std::stringstream ss;
-    ss << "HTTP header name '" << headerName << "' contains illegal character '" << invalidChar << "' (0x" << std::hex
-       << static_cast<int16_t>(invalidChar) << ") skipping the header";
+    ss << "HTTP header name '" << headerName << "' contains illegal character '" << std::string(begin, end)
+       << "' (0x" << std::hex << static_cast<int>(static_cast<unsigned char>(*begin)) << ") skipping the header";
 
     return ss.str();
 }
-- 
2.43.0


From 3a6a1caaacd64b69f69fdf617b3cc1afa01b2a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 28/39] fix: messages and generated assets must not lose their
 end when memory runs out

A string stream swallows std::bad_alloc and stops writing.
---
 packages/apib-parser/src/snowcrash/ActionParser.h         | 8 ++++++++
 packages/apib-parser/src/snowcrash/BlueprintParser.h      | 6 ++++++
 packages/apib-parser/src/snowcrash/CodeBlockUtility.h     | 5 +++++
 .../apib-parser/src/snowcrash/DataStructureGroupParser.h  | 1 +
 packages/apib-parser/src/snowcrash/HeadersParser.cc       | 4 ++++
 .../apib-parser/src/snowcrash/MSONTypeSectionParser.cc    | 1 +
 .../apib-parser/src/snowcrash/MSONTypeSectionParser.h     | 2 ++
 packages/apib-parser/src/snowcrash/MSONUtility.h          | 2 ++
 packages/apib-parser/src/snowcrash/ParameterParser.h      | 5 +++++
 packages/apib-parser/src/snowcrash/ParametersParser.h     | 3 +++
 packages/apib-parser/src/snowcrash/PayloadParser.h        | 5 +++++
 packages/apib-parser/src/snowcrash/ResourceGroupParser.h  | 1 +
 packages/apib-parser/src/snowcrash/ResourceParser.h       | 6 ++++++
 packages/apib-parser/src/snowcrash/SectionProcessor.h     | 1 +
 packages/apib-parser/src/snowcrash/StringUtility.h        | 1 +
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc   | 5 +++++
 packages/apib-parser/src/snowcrash/ValuesParser.h         | 1 +
 packages/drafter/src/NamedTypesRegistry.cc                | 2 ++
 packages/drafter/src/RefractAPI.cc                        | 2 ++
 packages/drafter/src/RefractDataStructure.cc              | 1 +
 20 files changed, 62 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/ActionParser.h b/packages/apib-parser/src/snowcrash/ActionParser.h
index ae818e2..fffba09 100644
--- a/packages/apib-parser/src/snowcrash/ActionParser.h
+++ b/packages/apib-parser/src/snowcrash/ActionParser.h
@@ -97,6 +97,7 @@ namespace snowcrash
             SectionType sectionType = pd.sectionContext();
             MarkdownNodeIterator cur = node;
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
 
             mdp::CharactersRangeSet sourceMap
                 = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
@@ -238,6 +239,7 @@ namespace snowcrash
 
                 // WARN: Ignoring section
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 mdp::CharactersRangeSet sourceMap
                     = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
 
@@ -347,6 +349,7 @@ namespace snowcrash
 
                 // WARN: No response for request
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "action is missing a response for ";
 
                 if (out.node.examples.back().requests.back().name.empty()) {
@@ -379,6 +382,7 @@ namespace snowcrash
 
                 // WARN: Duplicate payload
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << SectionName(sectionType) << " payload `" << payload.name << "`";
                 ss << " already defined for `" << out.node.method << "` method";
 
@@ -401,6 +405,7 @@ namespace snowcrash
                     if (out.node.method == HTTPMethodName::Connect && code / 100 == 2) {
 
                         std::stringstream ss;
+                        ss.exceptions(std::ios_base::badbit);
                         ss << "the response for " << code << " " << out.node.method << " request MUST NOT include a "
                            << SectionName(BodySectionType);
 
@@ -408,6 +413,7 @@ namespace snowcrash
                     } else if (out.node.method != HTTPMethodName::Connect && !methodTraits.allowBody) {
 
                         std::stringstream ss;
+                        ss.exceptions(std::ios_base::badbit);
                         ss << "the response for " << out.node.method << " request MUST NOT include a "
                            << SectionName(BodySectionType);
 
@@ -451,6 +457,7 @@ namespace snowcrash
 
             // WARN: Deprecated header sections
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             ss << "the 'headers' section at this level is deprecated and will be removed in a future, use respective "
                   "payload header section(s) instead";
 
@@ -536,6 +543,7 @@ namespace snowcrash
 
             if (RegexMatch(node->text, NamedActionNonAbsoluteURIRegex)) {
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 mdp::CharactersRangeSet sourceMap
                     = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
 
diff --git a/packages/apib-parser/src/snowcrash/BlueprintParser.h b/packages/apib-parser/src/snowcrash/BlueprintParser.h
index ef95928..6546076 100644
--- a/packages/apib-parser/src/snowcrash/BlueprintParser.h
+++ b/packages/apib-parser/src/snowcrash/BlueprintParser.h
@@ -110,6 +110,7 @@ namespace snowcrash
 
                     // WARN: duplicate resource group
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
 
                     if (resourceGroup.node.attributes.name.empty()) {
                         ss << "anonymous group";
@@ -358,6 +359,7 @@ namespace snowcrash
 
                 // ERR: Named type is defined more than once
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "named type '" << identifier << "' is defined more than once";
 
                 mdp::CharactersRangeSet sourceMap
@@ -486,6 +488,7 @@ namespace snowcrash
 
                 // ERR: A named type is circularly referenced
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "base type '" << subType << "' circularly referencing itself";
 
                 mdp::CharactersRangeSet sourceMap
@@ -509,6 +512,7 @@ namespace snowcrash
                     // ERR: We cannot find the super type in inheritance table at all
                     // and there is not base type table entry for it, so, the blueprint is wrong
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
                     ss << "base type '" << superType << "' is not defined in the document";
 
                     mdp::CharactersRangeSet sourceMap
@@ -577,6 +581,7 @@ namespace snowcrash
 
                         // WARN: duplicate metadata definition
                         std::stringstream ss;
+                        ss.exceptions(std::ios_base::badbit);
                         ss << "duplicate definition of '" << it->first << "'";
 
                         mdp::CharactersRangeSet sourceMap
@@ -824,6 +829,7 @@ namespace snowcrash
 
                 // ERR: Undefined model reference
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "Undefined resource model " << out.node.reference.id;
 
                 mdp::CharactersRangeSet sourceMap = mdp::BytesRangeSetToCharactersRangeSet(
diff --git a/packages/apib-parser/src/snowcrash/CodeBlockUtility.h b/packages/apib-parser/src/snowcrash/CodeBlockUtility.h
index 5d1a146..995f3d9 100644
--- a/packages/apib-parser/src/snowcrash/CodeBlockUtility.h
+++ b/packages/apib-parser/src/snowcrash/CodeBlockUtility.h
@@ -66,6 +66,7 @@ namespace snowcrash
             // WARN: Not a preformatted code block
             size_t level = codeBlockIndentationLevel(pd.parentSectionContext());
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             ss << SectionName(pd.sectionContext());
 
             if (pd.sectionContext() == BodySectionType) {
@@ -97,6 +98,7 @@ namespace snowcrash
             // WARN: Not a preformatted code block but multiline signature
             size_t level = codeBlockIndentationLevel(pd.parentSectionContext());
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
 
             ss << SectionName(pd.sectionContext());
 
@@ -144,6 +146,7 @@ namespace snowcrash
 
                 // WARN: Superfluous indentation
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "excessive indentation, ";
                 ss << SectionName(type) << " ";
 
@@ -219,6 +222,7 @@ namespace snowcrash
             if (level) {
                 // WARN: Dangling asset
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "dangling message-body asset, expected a pre-formatted code block, ";
                 ss << "indent every of it's line by " << level * 4 << " spaces or " << level << " tabs";
 
@@ -246,6 +250,7 @@ namespace snowcrash
             if (GetModelReference(source, symbol)) {
 
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "found a possible '" << symbol << "' model reference, ";
                 ss << "a reference must be directly in the " << SectionName(pd.sectionContext())
                    << " section, indented by 4 spaces or 1 tab, without any additional sections";
diff --git a/packages/apib-parser/src/snowcrash/DataStructureGroupParser.h b/packages/apib-parser/src/snowcrash/DataStructureGroupParser.h
index 3cae65b..5573bf3 100644
--- a/packages/apib-parser/src/snowcrash/DataStructureGroupParser.h
+++ b/packages/apib-parser/src/snowcrash/DataStructureGroupParser.h
@@ -44,6 +44,7 @@ namespace snowcrash
 
                     // WARN: duplicate named type
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
                     ss << "named type with name '" << namedType.node.name.symbol.literal << "' already exists";
 
                     mdp::CharactersRangeSet sourceMap
diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.cc b/packages/apib-parser/src/snowcrash/HeadersParser.cc
index 362e295..8bf4dc1 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.cc
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.cc
@@ -69,6 +69,7 @@ std::string HeaderNameTokenChecker::getMessage() const
     } while (end != headerName.end() && (static_cast<unsigned char>(*end) & 0xC0) == 0x80);
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit);
     ss << "HTTP header name '" << headerName << "' contains illegal character '" << std::string(begin, end)
        << "' (0x" << std::hex << static_cast<int>(static_cast<unsigned char>(*begin)) << ") skipping the header";
 
@@ -85,6 +86,7 @@ std::string ColonPresentedChecker::getMessage() const
 {
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit);
     ss << "missing colon after header name '" << captures[1] << "'";
 
     return ss.str();
@@ -100,6 +102,7 @@ std::string HeadersDuplicateChecker::getMessage() const
 {
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit);
     ss << "duplicate definition of '" << header.first << "' header";
 
     return ss.str();
@@ -115,6 +118,7 @@ std::string HeaderValuePresentedChecker::getMessage() const
 {
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit);
     ss << "HTTP header '" << header.first << "' has no value";
 
     return ss.str();
diff --git a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
index 84656a4..019707c 100644
--- a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
+++ b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
@@ -107,6 +107,7 @@ namespace snowcrash
                 case MSONOneOfSectionType: {
                     // WARN: mixin and oneOf not supported in sample/default
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
 
                     ss << "sample and default type sections cannot have `" << SectionName(pd.sectionContext())
                        << "` type";
diff --git a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
index c631b23..35557e9 100644
--- a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
+++ b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h
@@ -66,6 +66,7 @@ namespace snowcrash
 
                     // WARN: Items/Members should only be allowed for value types
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
 
                     ss << "type section `" << signature.identifier;
                     ss << "` not allowed for a type sub-typed from a primitive or object type";
@@ -84,6 +85,7 @@ namespace snowcrash
 
                     // WARN: Properties should only be allowed for object types
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
 
                     ss << "type section `" << signature.identifier;
                     ss << "` is only allowed for a type sub-typed from an object type";
diff --git a/packages/apib-parser/src/snowcrash/MSONUtility.h b/packages/apib-parser/src/snowcrash/MSONUtility.h
index cbc38d6..573f5e5 100644
--- a/packages/apib-parser/src/snowcrash/MSONUtility.h
+++ b/packages/apib-parser/src/snowcrash/MSONUtility.h
@@ -312,6 +312,7 @@ namespace mson
 
             // ERR: We cannot find the dependency type
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             ss << "base type '" << dependency << "' is not defined in the document";
 
             mdp::CharactersRangeSet sourceMap
@@ -327,6 +328,7 @@ namespace mson
 
             // ERR: Dependency named type circular references itself
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             ss << "base type '" << dependent << "' circularly referencing itself";
 
             mdp::CharactersRangeSet sourceMap
diff --git a/packages/apib-parser/src/snowcrash/ParameterParser.h b/packages/apib-parser/src/snowcrash/ParameterParser.h
index ee93e1b..3e6f90b 100644
--- a/packages/apib-parser/src/snowcrash/ParameterParser.h
+++ b/packages/apib-parser/src/snowcrash/ParameterParser.h
@@ -141,6 +141,7 @@ namespace snowcrash
             if (!out.node.values.empty()) {
                 // WARN: parameter values are already defined
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "overshadowing previous 'values' definition";
                 ss << " for parameter '" << out.node.name << "'";
 
@@ -162,6 +163,7 @@ namespace snowcrash
             if (out.node.values.empty()) {
                 // WARN: empty definition
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "no possible values specified for parameter '" << out.node.name << "'";
 
                 mdp::CharactersRangeSet sourceMap
@@ -303,6 +305,7 @@ namespace snowcrash
 
             // WARN: Additional parameters traits warning
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             ss << "unable to parse additional parameter traits";
             ss << (oldSyntax ? OldSyntaxAdditionalTraitsWarning : NewSyntaxAdditionalTraitsWarning);
 
@@ -338,6 +341,7 @@ namespace snowcrash
 
                 // WARN: Required vs default clash
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "specifying parameter '" << out.node.name
                    << "' as required supersedes its default value"
                       ", declare the parameter as 'optional' to specify its default value";
@@ -362,6 +366,7 @@ namespace snowcrash
             bool isDefaultFound = false;
 
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             bool printWarning = false;
 
             for (Collection<Value>::iterator it = out.node.values.begin(); it != out.node.values.end(); ++it) {
diff --git a/packages/apib-parser/src/snowcrash/ParametersParser.h b/packages/apib-parser/src/snowcrash/ParametersParser.h
index 7cd9e21..a2ddc74 100644
--- a/packages/apib-parser/src/snowcrash/ParametersParser.h
+++ b/packages/apib-parser/src/snowcrash/ParametersParser.h
@@ -52,6 +52,7 @@ namespace snowcrash
 
                 // WARN: Extra content in parameters section
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "ignoring additional content after 'parameters' keyword,";
                 ss << " expected a nested list of parameters, one parameter per list item";
 
@@ -96,6 +97,7 @@ namespace snowcrash
 
                     // WARN: Parameter already defined
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
                     ss << "overshadowing previous parameter '" << parameter.node.name << "' definition";
 
                     mdp::CharactersRangeSet sourceMap
@@ -177,6 +179,7 @@ namespace snowcrash
         const ParseResultRef<T>& out)
     {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << "parameter '" << param.name << "' is not found within the URI template '" << out.node.uriTemplate
            << "'";
 
diff --git a/packages/apib-parser/src/snowcrash/PayloadParser.h b/packages/apib-parser/src/snowcrash/PayloadParser.h
index a609d2d..74ae1b1 100644
--- a/packages/apib-parser/src/snowcrash/PayloadParser.h
+++ b/packages/apib-parser/src/snowcrash/PayloadParser.h
@@ -116,6 +116,7 @@ namespace snowcrash
             if (!out.node.reference.id.empty()) {
                 // WARN: ignoring extraneous content after model reference
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
 
                 ss << "ignoring extraneous content after model reference";
                 ss << ", expected model reference only e.g. '[" << out.node.reference.id << "][]'";
@@ -437,6 +438,7 @@ namespace snowcrash
                 if (!target.empty()) {
                     // WARN: unable to parse payload signature
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
                     ss << "unable to parse " << SectionName(pd.sectionContext()) << " signature, expected ";
 
                     switch (pd.sectionContext()) {
@@ -569,6 +571,7 @@ namespace snowcrash
 
                 // WARN: Ignoring payload content-type, when referencing a model with headers
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
 
                 ss << "ignoring additional " << SectionName(pd.sectionContext()) << " header(s), ";
                 ss << "specify this header(s) in the referenced model definition instead";
@@ -646,6 +649,7 @@ namespace snowcrash
 
                     // WARN: empty body
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
                     ss << "empty " << SectionName(RequestSectionType) << " " << SectionName(BodySectionType);
 
                     if (!contentLength.empty()) {
@@ -686,6 +690,7 @@ namespace snowcrash
 
                 // WARN: not empty body
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "the " << code << " response MUST NOT include a " << SectionName(BodySectionType);
 
                 mdp::CharactersRangeSet sourceMap
diff --git a/packages/apib-parser/src/snowcrash/ResourceGroupParser.h b/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
index 31ce98a..f318dec 100644
--- a/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
@@ -164,6 +164,7 @@ namespace snowcrash
 
                 // WARN: Unexpected action
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "unexpected action '" << method << "', to define multiple actions for the '"
                    << lastResource(out.node.content.elements()).uriTemplate;
                 ss << "' resource omit the HTTP method in its definition, e.g. '# /resource'";
diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 4682a7a..e32625a 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -121,6 +121,7 @@ namespace snowcrash
 
                             // WARN: duplicate named type
                             std::stringstream ss;
+                            ss.exceptions(std::ios_base::badbit);
                             ss << "named type with name '" << out.node.name << "' already exists";
 
                             mdp::CharactersRangeSet sourceMap
@@ -365,6 +366,7 @@ namespace snowcrash
 
                 // WARN: duplicate method
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "action with method '" << action.node.method << "' already defined for resource '";
                 ss << out.node.uriTemplate << "'";
 
@@ -380,6 +382,7 @@ namespace snowcrash
 
                 // WARN: duplicate relation identifier
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "relation identifier '" << action.node.relation.str << "' already defined for resource '"
                    << out.node.uriTemplate << "'";
 
@@ -443,6 +446,7 @@ namespace snowcrash
 
                 // WARN: Model already defined
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "overshadowing previous model definition for '";
 
                 if (!out.node.name.empty()) {
@@ -470,6 +474,7 @@ namespace snowcrash
 
                     // ERR: No name specified for resource model
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
                     ss << "resource model can be specified only for a named resource";
                     ss << ", name your resource, e.g. '# <resource name> [" << out.node.uriTemplate << "]'";
 
@@ -492,6 +497,7 @@ namespace snowcrash
 
                 // ERR: Model already defined
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << "symbol '" << model.node.name << "' already defined";
 
                 mdp::CharactersRangeSet sourceMap
diff --git a/packages/apib-parser/src/snowcrash/SectionProcessor.h b/packages/apib-parser/src/snowcrash/SectionProcessor.h
index caeec8d..64cb306 100644
--- a/packages/apib-parser/src/snowcrash/SectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SectionProcessor.h
@@ -217,6 +217,7 @@ namespace snowcrash
 
             // WARN: Ignoring unexpected node
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             mdp::CharactersRangeSet sourceMap
                 = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
 
diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index c22eddf..f4ff7f4 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -73,6 +73,7 @@ namespace snowcrash
     inline std::vector<std::string>& Split(const std::string& s, char delim, std::vector<std::string>& elems)
     {
         std::stringstream ss(s);
+        ss.exceptions(std::ios_base::badbit);
         std::string item;
         while (std::getline(ss, item, delim)) {
             elems.push_back(item);
diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index d64597c..4cfafc5 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -65,6 +65,7 @@ namespace error_locator
 
     std::string encodeString(const std::string& in) {
         std::stringstream encoded;
+        encoded.exceptions(std::ios_base::badbit);
         encoded << std::hex << std::uppercase;
         for (const unsigned char chr : in) {
             encoded << "%" << int(chr);
@@ -132,6 +133,7 @@ namespace
         tao::pegtl::parse<error_locator::grammar<varspec>, error_locator::report_action>(in, state);
 
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << "URI template variable '" << s.content
            << "' contains invalid " << state.message;
 
@@ -201,6 +203,7 @@ namespace
         tao::pegtl::parse<error_locator::grammar<literals_>, error_locator::report_action>(in, state);
 
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << "URI template contains disallowed " << state.message
            << ". Disallowed characters must be percent encoded.";
 
@@ -222,6 +225,7 @@ namespace
     void checkTemplateValidity(const state::expression& s, ParsedURITemplate& result, const mdp::CharactersRangeSet& sourceBlock) {
         if (!isSupportedOperator(s.type)) {
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             ss <<  "URI template '" <<  operatorToText(s.type) << "' expansion is not supported";
             result.report.warnings.push_back(
                 Warning(ss.str(), URIWarning, sourceBlock));
@@ -233,6 +237,7 @@ namespace
 
         if (s.missing_expression_close) {
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             ss <<  "URI Template expression is missing closing bracket '}'";
             result.report.warnings.push_back(Warning(ss.str(), URIWarning, sourceBlock));
         }
diff --git a/packages/apib-parser/src/snowcrash/ValuesParser.h b/packages/apib-parser/src/snowcrash/ValuesParser.h
index 3082a86..b2223b4 100644
--- a/packages/apib-parser/src/snowcrash/ValuesParser.h
+++ b/packages/apib-parser/src/snowcrash/ValuesParser.h
@@ -54,6 +54,7 @@ namespace snowcrash
 
                     // WARN: Ignoring the unexpected param value
                     std::stringstream ss;
+                    ss.exceptions(std::ios_base::badbit);
                     ss << "ignoring the '" << content << "' element";
                     ss << ", expected '`" << content << "`'";
 
diff --git a/packages/drafter/src/NamedTypesRegistry.cc b/packages/drafter/src/NamedTypesRegistry.cc
index a4ae0f2..f088819 100644
--- a/packages/drafter/src/NamedTypesRegistry.cc
+++ b/packages/drafter/src/NamedTypesRegistry.cc
@@ -428,6 +428,7 @@ namespace drafter
                 context.typeRegistry().add(std::move(element));
             } catch (LogicError& e) {
                 std::ostringstream out;
+                out.exceptions(std::ios_base::badbit);
                 out << name << " is a reserved keyword and cannot be used.";
                 throw snowcrash::Error(out.str(), snowcrash::MSONError, i->sourceMap->name.sourceMap);
             }
@@ -453,6 +454,7 @@ namespace drafter
                     context.typeRegistry().add(std::move(element));
                 } catch (LogicError& e) {
                     std::ostringstream out;
+                    out.exceptions(std::ios_base::badbit);
                     out << name << " is a reserved keyword and cannot be used.";
                     throw snowcrash::Error(out.str(), snowcrash::MSONError, i->sourceMap->name.sourceMap);
                 }
diff --git a/packages/drafter/src/RefractAPI.cc b/packages/drafter/src/RefractAPI.cc
index 6eaad2f..ed55dd7 100644
--- a/packages/drafter/src/RefractAPI.cc
+++ b/packages/drafter/src/RefractAPI.cc
@@ -290,6 +290,7 @@ namespace
         using apib::backend::serialize;
         if (apib::isJSON(mediaType)) {
             std::stringstream ss{};
+            ss.exceptions(std::ios_base::badbit);
             drafter::utils::so::serialize_json(ss, refract::generateJsonValue(expanded));
             out.push_back(make_asset_element(ss.str(), SerializeKey::MessageBody, serialize(mediaType)));
         }
@@ -304,6 +305,7 @@ namespace
         using apib::backend::serialize;
         if (apib::isJSON(mediaType)) {
             std::stringstream ss{};
+            ss.exceptions(std::ios_base::badbit);
             drafter::utils::so::serialize_json(ss, refract::schema::generateJsonSchema(expanded));
             out.push_back(make_asset_element(ss.str(), SerializeKey::MessageBodySchema, serialize(jsonSchemaType())));
         }
diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index b7b72fb..d782f13 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -418,6 +418,7 @@ namespace
                         if (typeName == mson::UndefinedTypeName
                             && method == eElement) { // undefined named element in hinting
                             std::stringstream msg;
+                            msg.exceptions(std::ios_base::badbit);
                             msg << "Undefined named type '" << type.symbol.literal << "' referenced in type definition";
                             context.warn(snowcrash::Warning(
                                 msg.str().c_str(), snowcrash::MSONError, typeDefinition.sourceMap->sourceMap));
-- 
2.43.0


From 36bb2cf7f7a7d2599a650c40249bb30353cdcbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 29/39] fix: empty brackets in a signature must not read before
 the string

---
 packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
index e5d1954..01b721b 100644
--- a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
@@ -341,7 +341,7 @@ namespace scpl
                 size_t length = attribute.size();
 
                 // If the last char is not an attribute delimiter, attributes are finished
-                if (attribute[length - 1] != Delimiters::AttributeDelimiter) {
+                if (attribute.empty() || attribute[length - 1] != Delimiters::AttributeDelimiter) {
                     attributesNotFinished = false;
                 } else {
                     attribute = attribute.substr(0, length - 1);
-- 
2.43.0


From 08a02c0957c878ce0a9352b3340ec8d9ef4bfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 30/39] fix: an unresolved reference must not be followed when
 rendering values and schemas

---
 packages/drafter/src/refract/ElementUtils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 819844a..eb07e99 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -298,8 +298,9 @@ const IElement* refract::resolve(const RefElement& element)
 {
     const auto resolvedEntry = element.attributes().find("resolved");
     if (resolvedEntry == element.attributes().end()) {
+        // e.g. a type that includes itself
         LOG(error) << "expected all references to be resolved in backend";
-        assert(false);
+        return nullptr;
     }
 
     assert(resolvedEntry->second);
-- 
2.43.0


From 559c665b3f736d09c7483116f1063873fa1561b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 31/39] fix: the tool must not succeed when its input cannot be
 read or its output not be written

---
 packages/drafter/src/main.cc | 49 +++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 55071f1..bcb0656 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -21,6 +21,9 @@
 
 #include "utils/log/Trivial.h"
 
+#include <cstdio>
+#include <cstdlib>
+
 namespace sc = snowcrash;
 
 int ProcessRefract(const Config& config, std::unique_ptr<std::istream>& in, std::unique_ptr<std::ostream>& out)
@@ -28,42 +31,64 @@ int ProcessRefract(const Config& config, std::unique_ptr<std::istream>& in, std:
     if (config.enableLog)
         ENABLE_LOGGING;
 
-    std::stringstream inputStream;
-    inputStream << in->rdbuf();
+    std::string source;
+    char buffer[BUFSIZ];
+
+    while (in->read(buffer, sizeof(buffer)) || in->gcount() > 0) {
+        source.append(buffer, static_cast<size_t>(in->gcount()));
+    }
 
-    drafter_serialize_options* options = drafter_init_serialize_options();
-    if (config.sourceMap)
-        drafter_set_sourcemaps_included(options);
-    if (config.format == drafter::JSONFormat)
-        drafter_set_format(options, DRAFTER_SERIALIZE_JSON);
+    // do not take the part which could be read for the whole
+    if (in->bad() || (config.input.empty() && std::ferror(stdin))) {
+        std::cerr << "fatal: unable to read the input\n";
+        return EXIT_FAILURE;
+    }
 
     refract::IElement* result = nullptr;
 
     // TODO: Read parse options from CLI
     drafter_parse_options* parseOptions = drafter_init_parse_options();
-    int ret = drafter_parse_blueprint(inputStream.str().c_str(), &result, parseOptions);
+    int ret = drafter_parse_blueprint(source.c_str(), &result, parseOptions);
     drafter_free_parse_options(parseOptions);
 
     if (!result) {
         return -1;
     }
 
+    bool written = true;
+
     if (!config.validate) { // If not validate, we serialize
-        char* output = drafter_serialize(result, options);
+        drafter_serialize_options* options = drafter_init_serialize_options();
+
+        if (options) {
+            if (config.sourceMap)
+                drafter_set_sourcemaps_included(options);
+            if (config.format == drafter::JSONFormat)
+                drafter_set_format(options, DRAFTER_SERIALIZE_JSON);
+        }
+
+        char* output = options ? drafter_serialize(result, options) : nullptr;
 
         if (output) {
             *out << output << "\n" << std::flush;
 
             free(output);
         }
-    }
 
-    drafter_free_serialize_options(options);
+        written = output && out->good();
+
+        drafter_free_serialize_options(options);
+    }
 
-    PrintReport(result, inputStream.str(), config.lineNumbers, ret);
+    PrintReport(result, source, config.lineNumbers, ret);
 
     drafter_free_result(result);
 
+    if (!written) {
+        std::cerr << "fatal: unable to write the output\n";
+        return EXIT_FAILURE;
+    }
+
     return ret;
 }
 
-- 
2.43.0


From 91c2e867a31ff02eb37c5728058cc051e72056e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 32/39] fix: validating must not create or empty the output
 file

The tool warns that it will not.
---
 packages/drafter/src/main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index bcb0656..ee073e6 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -98,7 +98,8 @@ int main(int argc, const char* argv[])
     ParseCommadLineOptions(argc, argv, config);
 
     std::unique_ptr<std::istream> in(CreateStreamFromName<std::istream>(config.input));
-    std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(config.output));
+    std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(
+        config.validate ? std::string() : config.output)); // while validating, output file is not created
 
     return ProcessRefract(config, in, out);
 }
-- 
2.43.0


From 43c9b002115cad6561424aa7bdc64186396bfcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 33/39] fix: resolving the type of data structures that inherit
 from each other must terminate

---
 packages/drafter/src/NamedTypesRegistry.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/NamedTypesRegistry.cc b/packages/drafter/src/NamedTypesRegistry.cc
index f088819..52c9da6 100644
--- a/packages/drafter/src/NamedTypesRegistry.cc
+++ b/packages/drafter/src/NamedTypesRegistry.cc
@@ -336,8 +336,9 @@ namespace
         mson::BaseTypeName ResolveType(const snowcrash::DataStructure* object) const
         {
             std::string s = name(object);
+            std::set<std::string> visited; // a type may inherit from itself through others
 
-            while (!s.empty()) {
+            while (!s.empty() && visited.insert(s).second) {
                 ElementMap::const_iterator ei = nameToElement.find(s);
                 if (ei == nameToElement.end()) {
                     return mson::UndefinedTypeName;
-- 
2.43.0


From c311ce23bedf722e8c70b39265522dafef3bf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 34/39] fix: completing an empty text with newlines must not
 read before it

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index f4ff7f4..83ebef1 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -107,11 +107,11 @@ namespace snowcrash
     inline std::string& TwoNewLines(std::string& s)
     {
 
-        if (s[s.length() - 1] != '\n') {
+        if (s.empty() || s[s.length() - 1] != '\n') {
             s += "\n";
         }
 
-        if (s[s.length() - 2] != '\n') {
+        if (s.length() < 2 || s[s.length() - 2] != '\n') {
             s += "\n";
         }
 
-- 
2.43.0


From 0faeff0663e2e349142768e29309383df5a4564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 35/39] fix: asking for the size of a type must not terminate
 when memory runs out

---
 packages/drafter/src/refract/ElementSize.cc  | 4 ++--
 packages/drafter/src/refract/ElementUtils.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/refract/ElementSize.cc b/packages/drafter/src/refract/ElementSize.cc
index 50e5df7..6e11971 100644
--- a/packages/drafter/src/refract/ElementSize.cc
+++ b/packages/drafter/src/refract/ElementSize.cc
@@ -29,7 +29,7 @@ namespace
     }
 
     template <typename It>
-    cardinal sizeOfMult(It begin, It end, bool inheritsFixed) noexcept
+    cardinal sizeOfMult(It begin, It end, bool inheritsFixed)
     {
         using ElementPtr = decltype(*begin);
         return std::accumulate(begin, end, cardinal{ 1 }, [inheritsFixed](cardinal a, const ElementPtr& b) { //
@@ -38,7 +38,7 @@ namespace
     }
 
     template <typename It>
-    cardinal sizeOfSum(It begin, It end, bool inheritsFixed) noexcept
+    cardinal sizeOfSum(It begin, It end, bool inheritsFixed)
     {
         using ElementPtr = decltype(*begin);
         return std::accumulate(begin, end, cardinal::empty(), [inheritsFixed](cardinal a, const ElementPtr& b) { //
diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index eb07e99..57bc737 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -23,7 +23,7 @@ namespace
 {
     struct InheritsFixedVisitor {
         template <typename ElementT>
-        bool operator()(const ElementT& el) const noexcept
+        bool operator()(const ElementT& el) const
         {
             return inheritsFixed(el);
         }
-- 
2.43.0


From eb479c661dcadabe6da3462f1f63745e22ac0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 36/39] fix: assigning a Markdown node must be all or nothing,
 also from a node within it

---
 .../src/markdown-parser/MarkdownNode.cc            | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index 15ea78c..9f0ae66 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -32,12 +32,14 @@ MarkdownNode::MarkdownNode(const MarkdownNode& rhs)
 
 MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
 {
-    this->type = rhs.type;
-    this->text = rhs.text;
-    this->data = rhs.data;
-    this->sourceMap = rhs.sourceMap;
-    this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
-    this->m_parent = rhs.m_parent;
+    // a copy comes first: it may fail, and the other node may be a part of this one
+    MarkdownNode copy(rhs);
+    this->type = copy.type;
+    this->text.swap(copy.text);
+    this->data = copy.data;
+    this->sourceMap.swap(copy.sourceMap);
+    this->m_children.swap(copy.m_children);
+    this->m_parent = copy.m_parent;
     return *this;
 }
 
-- 
2.43.0


From 5a2b902fcad398defbfbaefe258fd36691ece4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:31 +0000
Subject: [PATCH 37/39] fix: assigning an element must be all or nothing, also
 from a part of it

---
 packages/drafter/src/refract/Element.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/Element.h b/packages/drafter/src/refract/Element.h
index 1a94820..923d058 100644
--- a/packages/drafter/src/refract/Element.h
+++ b/packages/drafter/src/refract/Element.h
@@ -66,8 +66,17 @@ namespace refract
         Element(Element&&) = default;
         Element(const Element&) = default;
 
-        Element& operator=(Element&&) = default;
-        Element& operator=(const Element&) = default;
+        // a copy comes first: it may fail, and the other element may be a part of this one
+        Element& operator=(Element other)
+        {
+            using std::swap;
+            swap(meta_, other.meta_);
+            swap(attributes_, other.attributes_);
+            swap(hasValue_, other.hasValue_);
+            swap(data_, other.data_);
+            swap(name_, other.name_);
+            return *this;
+        }
 
     public:
         DataType& get() noexcept
-- 
2.43.0


From a631a72d3958fb0f39eb2eecbe1b6191804a8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:52 +0000
Subject: [PATCH 38/39] fix: source maps of headers must count bytes, as those
 of other elements

---
 packages/apib-parser/src/snowcrash/HeadersParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.h b/packages/apib-parser/src/snowcrash/HeadersParser.h
index ca1613b..aeaee6e 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.h
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.h
@@ -298,7 +298,7 @@ namespace snowcrash
 
                     if (pd.exportSourceMap()) {
                         SourceMap<Header> headerSM;
-                        headerSM.sourceMap = sourceMap;
+                        headerSM.sourceMap = byteMap; // in bytes, as those of all other elements
                         out.sourceMap.collection.push_back(headerSM);
                     }
                 }
-- 
2.43.0


From ad8d1cff26bccb74e9f988114b92fdc9b5de9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:49 +0000
Subject: [PATCH 39/39] fix: the text of a list item that goes on over several
 ranges must be mapped to all of them

---
 .../src/markdown-parser/MarkdownParser.cc     | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
index 91337f0..fbe032e 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
@@ -6,6 +6,7 @@
 //  Copyright (c) 2014 Apiary Inc. All rights reserved.
 //
 
+#include <algorithm>
 #include <cstring>
 #include <memory>
 #include <new>
@@ -370,11 +371,26 @@ void MarkdownParser::blockDidParse(const BytesRangeSet& sourceMap)
         size_t pos = mapped.find(buffer);
 
         if (pos != mapped.npos) {
-            BytesRange range = sourceMap.front();
-            range.location += pos;
-            range.length = buffer.length();
+            // The text may go on over several ranges, e.g. where it is indented
+            size_t length = buffer.length();
             BytesRangeSet newMap;
-            newMap.push_back(range);
+
+            for (const BytesRange& range : sourceMap) {
+                if (pos >= range.length) {
+                    pos -= range.length;
+                    continue;
+                }
+
+                const size_t part = std::min(range.length - pos, length);
+                newMap.push_back(BytesRange(range.location + pos, part));
+
+                length -= part;
+                pos = 0;
+
+                if (!length)
+                    break;
+            }
+
             lMarkdownNode.children().front().sourceMap.append(newMap);
         } else {
             lMarkdownNode.children().front().sourceMap.append(sourceMap);
-- 
2.43.0

