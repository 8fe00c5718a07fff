From 602525bcdfed3d5be60208b77fae3c7590e2a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 01/60] fix: pruning of $ and newline clashes read outside the
 charset mapping

prune_NL() and prune_eol() indexed set_mapping_ with bol_token()/eol_token(),
could erase the wrong node or the end iterator, and removed nodes whose
charset merely includes a newline, losing unrelated paths (for example a$
together with [^x]+ no longer matched "ab" as one token).
---
 include/lexertl/generator.hpp | 204 +++++++++-------------------------
 1 file changed, 51 insertions(+), 153 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0de20b0..a89dbeb 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -334,84 +334,15 @@ namespace lexertl
 
             while (nl_iter_ != end_)
             {
-                node* node_ = *nl_iter_;
-
-                if (node_->end_state())
-                {
-                    ++nl_iter_;
-                    continue;
-                }
-
-                if (const auto& cr_set_ =
-                    set_mapping_[node_->token()];
-                    cr_set_.find(cr_id_) != cr_set_.end())
+                if (is_newline(*nl_iter_, cr_id_, nl_id_, set_mapping_))
                 {
-                    const auto& cr_followpos_ =
-                        node_->followpos();
-
-                    for (auto cr_node_ : cr_followpos_)
-                    {
-                        if (cr_node_->end_state())
-                            continue;
-
-                        if (const auto& nl_set_ =
-                            set_mapping_[cr_node_->token()];
-                            nl_set_.find(nl_id_) != nl_set_.end())
-                        {
-                            const auto& nl_followpos_ =
-                                cr_node_->followpos();
-                            bool found_ = false;
-
-                            for (auto nl_node_ : nl_followpos_)
-                            {
-                                found_ = nl_node_->end_state();
-
-                                if (found_)
-                                    break;
-                            }
-
-                            if (found_)
-                            {
-                                // This might be suppressing additional paths
-                                // but we should be erroring out anyway.
-                                nl_iter_ = followpos_.erase(nl_iter_);
-                                end_ = followpos_.end();
-                                continue;
-                            }
-                        }
-                    }
+                    // This might be suppressing additional paths
+                    // but we should be erroring out anyway.
+                    nl_iter_ = followpos_.erase(nl_iter_);
+                    end_ = followpos_.end();
                 }
-
-                if (nl_iter_ == end_)
-                    break;
-
-                if (const auto& nl_set_ =
-                    set_mapping_[node_->token()];
-                    nl_set_.find(nl_id_) != nl_set_.end())
-                {
-                    const auto& nl_followpos_ =
-                        node_->followpos();
-                    bool found_ = false;
-
-                    for (auto nl_node_ : nl_followpos_)
-                    {
-                        found_ = nl_node_->end_state();
-
-                        if (found_)
-                            break;
-                    }
-
-                    if (found_)
-                    {
-                        // This might be suppressing additional paths
-                        // but we should be erroring out anyway.
-                        nl_iter_ = followpos_.erase(nl_iter_);
-                        end_ = followpos_.end();
-                        continue;
-                    }
-                }
-
-                ++nl_iter_;
+                else
+                    ++nl_iter_;
             }
         }
 
@@ -421,97 +352,64 @@ namespace lexertl
             const id_type cr_id_, const id_type nl_id_,
             const index_set_vector& set_mapping_)
         {
-            auto node_ = *iter_;
-            const auto& set_ = set_mapping_[node_->token()];
-
-            if (set_.find(cr_id_) != set_.end())
-            {
-                const auto& cr_followpos_ = node_->followpos();
-                bool found_ = false;
-
-                for (auto cr_node_ : cr_followpos_)
-                {
-                    if (cr_node_->end_state())
-                        continue;
+            if (!is_newline(*iter_, cr_id_, nl_id_, set_mapping_))
+                return;
 
-                    const auto& cr_set_ = set_mapping_[cr_node_->token()];
-
-                    if (cr_set_.find(nl_id_) != cr_set_.end())
-                    {
-                        const auto& nl_followpos_ = cr_node_->followpos();
+            // Search for any EOL tokens
+            auto eol_iter_ = iter_;
 
-                        found_ = false;
+            ++eol_iter_;
 
-                        for (auto nl_node_ : nl_followpos_)
-                        {
-                            found_ = nl_node_->end_state();
-
-                            if (found_)
-                                break;
-                        }
-
-                        if (found_)
-                        {
-                            // Search for any EOL tokens
-                            auto nl_iter_ = iter_;
-
-                            ++nl_iter_;
-
-                            while (nl_iter_ != end_)
-                            {
-                                node_ = *nl_iter_;
-
-                                if (!node_->end_state() &&
-                                    node_->token() == parser::eol_token())
-                                {
-                                    nl_iter_ = followpos_.erase(nl_iter_);
-                                    end_ = followpos_.end();
-                                    continue;
-                                }
-
-                                ++nl_iter_;
-                            }
-                        }
-                    }
+            while (eol_iter_ != end_)
+            {
+                if (!(*eol_iter_)->end_state() &&
+                    (*eol_iter_)->token() == parser::eol_token())
+                {
+                    eol_iter_ = followpos_.erase(eol_iter_);
+                    end_ = followpos_.end();
                 }
+                else
+                    ++eol_iter_;
             }
+        }
 
-            if (set_.find(nl_id_) != set_.end())
+        // True if node_ is precisely NL (or CR then NL) followed by an end
+        // state. A charset that merely includes NL is not a clash: its other
+        // characters must remain matchable.
+        static bool is_newline(observer_ptr<node> node_, const id_type cr_id_,
+            const id_type nl_id_, const index_set_vector& set_mapping_)
+        {
+            if (is_only(node_, nl_id_, set_mapping_))
             {
-                const auto& nl_followpos_ = node_->followpos();
-                bool found_ = false;
-
-                for (auto nl_node_ : nl_followpos_)
+                for (observer_ptr<node> end_node_ : node_->followpos())
                 {
-                    found_ = nl_node_->end_state();
-
-                    if (found_)
-                        break;
+                    if (end_node_->end_state())
+                        return true;
                 }
-
-                if (found_)
+            }
+            else if (is_only(node_, cr_id_, set_mapping_))
+            {
+                for (observer_ptr<node> nl_node_ : node_->followpos())
                 {
-                    // Search for any EOL tokens
-                    auto nl_iter_ = iter_;
+                    if (is_only(nl_node_, nl_id_, set_mapping_) &&
+                        is_newline(nl_node_, cr_id_, nl_id_, set_mapping_))
+                        return true;
+                }
+            }
 
-                    ++nl_iter_;
+            return false;
+        }
 
-                    while (nl_iter_ != end_)
-                    {
-                        node_ = *nl_iter_;
+        static bool is_only(observer_ptr<node> node_, const id_type id_,
+            const index_set_vector& set_mapping_)
+        {
+            // bol_token() and eol_token() have no charset.
+            if (node_->end_state() || node_->token() >= set_mapping_.size())
+                return false;
 
-                        if (!node_->end_state() &&
-                            node_->token() == parser::eol_token())
-                        {
-                            nl_iter_ = followpos_.erase(nl_iter_);
-                            end_ = followpos_.end();
-                            continue;
-                        }
+            const auto& set_ = set_mapping_[node_->token()];
 
-                        ++nl_iter_;
-                    }
-                }
-            }
+            return set_.size() == 1 && *set_.begin() == id_;
         }
 
         static void set_transitions(const id_type transition_,
-- 
2.43.0


From 3e1c689b8470f7f1a23705c69257baf092877d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 02/60] fix: wide character ranges spanning whole planes used
 the wrong planes

The middle block of a 24 bit range was built from the second byte instead of
the most significant byte.
---
 include/lexertl/parser/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 127f0e9..ded1a8e 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -558,7 +558,7 @@ namespace lexertl::detail
 
                 if (second_msb_ > first_msb_ + 1)
                 {
-                    insert_range(first_mid_ + 1, second_mid_ - 1,
+                    insert_range(first_msb_ + 1, second_msb_ - 1,
                         0, 0xff,
                         0, 0xff, data_);
                 }
-- 
2.43.0


From 5cc0c6acada120631d03b6a92ecd8f807015ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 03/60] fix: alternatives without ^ in a rule starting with ^
 were lost at line starts

For ^a|b the alternative b could not match at the beginning of a line, as only
rules with no ^ at all were made reachable from the line start state.
---
 include/lexertl/generator.hpp     | 4 +++-
 include/lexertl/parser/parser.hpp | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index a89dbeb..0ddbede 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -420,7 +420,9 @@ namespace lexertl
             {
                 if (i_ == parser::bol_token())
                 {
-                    dfa_.front() = transition_;
+                    // ^ is only taken from the start state
+                    if (index_ == 0)
+                        dfa_.front() = transition_;
                 }
                 else if (i_ == parser::eol_token())
                 {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index ded1a8e..9e3d8a5 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -933,14 +933,15 @@ namespace lexertl::detail
         void fixup_bol(observer_ptr<node>& root_)const
         {
             const auto& first_ = root_->firstpos();
-            bool found_ = false;
+            bool found_ = true;
 
+            // A regex such as ^a|b has alternatives that do not start with ^
             for (observer_ptr<const node> node_ : first_)
             {
                 found_ = !node_->end_state() && node_->token() ==
                     bol_token();
 
-                if (found_) break;
+                if (!found_) break;
             }
 
             if (!found_)
-- 
2.43.0


From b257e4557929b7ef7510a45537be0ba05f34e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 04/60] fix: rows reached before a line end shared the
 transitions of one of them

fix_clashes() moved the transitions on \r and \n into the row reached by $,
but different rows can share that row: the first one won and the others lost
or gained matches. For wide characters the loop counter was also never reset.
---
 include/lexertl/generator.hpp | 109 +++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 54 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0ddbede..8483f02 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -18,7 +18,10 @@
 #include "runtime_error.hpp"
 #include "state_machine.hpp"
 
+#include <algorithm>
+#include <array>
 #include <list>
+#include <map>
 #include <memory>
 #include <set>
 #include <sstream>
@@ -160,6 +163,8 @@ namespace lexertl
 
     protected:
         using compressed = std::integral_constant<bool, sm_traits::compressed>;
+        // EOL row, CR and NL transitions to the row with those combined
+        using eol_row_map = std::map<std::array<id_type, 3>, id_type>;
         using equivset = detail::basic_equivset<id_type>;
         using equivset_list = std::list<std::unique_ptr<equivset>>;
         using equivset_ptr = std::unique_ptr<equivset>;
@@ -495,6 +500,9 @@ namespace lexertl
             return std::string();
         }
 
+        // $ is tested before any transition on \r or \n, so those transitions
+        // have to be available from the EOL row as well. As an EOL row can be
+        // shared, each different set of transitions gets its own copy.
         // Uncompressed
         static void fix_clashes(const id_type_set& eol_set_,
             const id_type cr_id_, const id_type nl_id_,
@@ -502,36 +510,29 @@ namespace lexertl
             typename internals::id_type_vector& dfa_,
             const std::size_t dfa_alphabet_, const std::false_type&)
         {
+            eol_row_map rows_;
+
             for (const auto& eol_ : eol_set_)
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
                 const id_type cr_state_ =
                     ptr_[cr_id_ + *state_index::transitions];
                 const id_type nl_state_ =
                     ptr_[nl_id_ + *state_index::transitions];
 
-                if (cr_state_)
-                {
-                    ptr_[*state_index::transitions + cr_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                if (cr_state_ == 0 && nl_state_ == 0)
+                    continue;
 
-                    if (ptr_[*state_index::transitions + cr_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                    }
-                }
+                ptr_[*state_index::transitions + cr_id_] = 0;
+                ptr_[*state_index::transitions + nl_id_] = 0;
 
-                if (nl_state_)
+                if (add_eol_row(eol_, cr_state_, nl_state_, rows_,
+                    dfa_, dfa_alphabet_))
                 {
-                    ptr_[*state_index::transitions + nl_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + nl_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + nl_id_] = nl_state_;
-                    }
+                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
+                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
+                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
                 }
             }
         }
@@ -542,17 +543,17 @@ namespace lexertl
             typename internals::id_type_vector& dfa_,
             const std::size_t dfa_alphabet_, const std::true_type&)
         {
-            std::size_t i_ = 0;
+            eol_row_map rows_;
 
             for (const auto& eol_ : eol_set_)
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
                 id_type cr_state_ = 0;
                 id_type nl_state_ = 0;
 
-                for (; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
+                for (std::size_t i_ = 0;
+                    i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
                 {
                     ptr_ = &dfa_.front() +
                         ptr_[*state_index::transitions + zero_id_] *
@@ -560,19 +561,16 @@ namespace lexertl
                 }
 
                 cr_state_ = ptr_[*state_index::transitions + cr_id_];
+                nl_state_ = ptr_[*state_index::transitions + nl_id_];
 
-                if (cr_state_)
-                {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
-
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
+                if (cr_state_ == 0 && nl_state_ == 0)
+                    continue;
 
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
+                if (add_eol_row(eol_, cr_state_, nl_state_, rows_,
+                    dfa_, dfa_alphabet_))
+                {
+                    for (std::size_t i_ = 0;
+                        i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
                     {
                         ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
                         ptr_[*state_index::transitions + zero_id_] =
@@ -582,33 +580,36 @@ namespace lexertl
 
                     ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
                     ptr_[*state_index::transitions + cr_id_] = cr_state_;
+                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
                 }
+            }
+        }
 
-                nl_state_ = ptr_[*state_index::transitions + nl_id_];
-
-                if (nl_state_)
-                {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
-
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
+        // Point row_ at a copy of its EOL row, returning true if the copy
+        // was appended to dfa_ and so still needs its transitions.
+        static bool add_eol_row(const id_type row_, const id_type cr_state_,
+            const id_type nl_state_, eol_row_map& rows_,
+            typename internals::id_type_vector& dfa_,
+            const std::size_t dfa_alphabet_)
+        {
+            const std::size_t eol_idx_ = row_ * dfa_alphabet_ +
+                *state_index::eol;
+            const auto [iter_, added_] = rows_.emplace
+                (std::array<id_type, 3>{ dfa_[eol_idx_], cr_state_, nl_state_ },
+                    static_cast<id_type>(dfa_.size() / dfa_alphabet_));
 
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
+            if (added_)
+            {
+                const std::size_t src_ = dfa_[eol_idx_] * dfa_alphabet_;
+                const std::size_t dest_ = dfa_.size();
 
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
-                }
+                dfa_.resize(dest_ + dfa_alphabet_, 0);
+                std::copy_n(dfa_.begin() + src_, dfa_alphabet_,
+                    dfa_.begin() + dest_);
             }
+
+            dfa_[eol_idx_] = iter_->second;
+            return added_;
         }
 
         // char_state_machine version
-- 
2.43.0


From f2defee673e9f5ab08439e7af4610b5245bf6911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 05/60] fix: $ in a wide rule set without zero bytes read past
 the charset map

build_dfa() needs the charset of the zero byte that precedes \r and \n, which
need not occur in any other rule.
---
 include/lexertl/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 9e3d8a5..1ab86a5 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -420,6 +420,12 @@ namespace lexertl::detail
                 nl_id_ = temp_nl_id_;
             }
 
+            // \r and \n have leading zero bytes
+            if (sm_traits::compressed)
+            {
+                lookup(string_token(0, 0));
+            }
+
             // store charset
             _node_ptr_vector.push_back(std::make_unique<leaf_node>
                 (eol_token(), greedy_repeat::yes));
-- 
2.43.0


From 561e7d8cb5f1945c3f531dd41a50f0204d4e10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 06/60] fix: alternative after a trailing non-greedy repeat was
 joined to it

Xa*?|Yb was treated as XYb because removing a*? always removed the OR.
---
 include/lexertl/abstemious.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/abstemious.hpp b/include/lexertl/abstemious.hpp
index ebbc7cd..fdf1986 100644
--- a/include/lexertl/abstemious.hpp
+++ b/include/lexertl/abstemious.hpp
@@ -179,7 +179,15 @@ namespace lexertl
             iter_ = tokens_.erase(iter_, tokens_.begin() + idx_ + 1);
 
             if (iter_->_type == detail::token_type::OR)
-                tokens_.erase(iter_);
+            {
+                const auto prev_ = (iter_ - 1)->_type;
+
+                // Only remove the OR if its left hand side is now empty
+                if (prev_ == detail::token_type::BEGIN ||
+                    prev_ == detail::token_type::OPENPAREN ||
+                    prev_ == detail::token_type::OR)
+                    tokens_.erase(iter_);
+            }
             else if (iter_->_type != detail::token_type::BEGIN &&
                 (iter_ - 1)->_type == detail::token_type::OR)
             {
-- 
2.43.0


From 8142de303f623d1cce39b630a333d33bbd6673a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 07/60] fix: zero minimum of a trailing non-greedy repeat with
 leading zeros

Xa{00,3}? became the greedy Xa{0}, matching up to two more characters.
---
 include/lexertl/abstemious.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/abstemious.hpp b/include/lexertl/abstemious.hpp
index fdf1986..fae9f2d 100644
--- a/include/lexertl/abstemious.hpp
+++ b/include/lexertl/abstemious.hpp
@@ -9,6 +9,7 @@
 #include "parser/tokeniser/re_token.hpp"
 #include "parser/tokeniser/re_tokeniser.hpp"
 
+#include <string>
 #include <vector>
 
 namespace lexertl
@@ -25,6 +26,7 @@ namespace lexertl
         {
             while (!indexes_.empty())
             {
+                constexpr auto npos_ = std::basic_string<rules_char_type>::npos;
                 auto start_ = indexes_.back();
                 auto idx_ = start_;
 
@@ -45,7 +47,7 @@ namespace lexertl
                         op_._type = detail::token_type::REPEATN;
                         op_._extra = op_._extra.substr(0, op_._extra.find(','));
 
-                        if (op_._extra.size() == 1 && op_._extra.front() == '0')
+                        if (op_._extra.find_first_not_of('0') == npos_)
                             remove_sequence(tokens_, start_, idx_);
 
                         break;
-- 
2.43.0


From 7067502064aa6a6a6f42d1a39e166e7b58d71244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 08/60] fix: ^ in a rule with a leading anchored alternative
 was lost when pushed to named states

---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b0a5749..b604f79 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1202,7 +1202,7 @@ namespace lexertl
 
                 narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.back()[1]._type == detail::token_type::BOL)
+                if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
                 {
                     _features[curr_] |= *feature_bit::bol;
                 }
-- 
2.43.0


From bf9402c98e4a71db5b29740ca05e1f64e0ee7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 09/60] fix: unicode properties given as first and last code
 points contained only those two

---
 gen_unicode_hpp/main.cpp                     | 14 ++++++-
 include/lexertl/parser/tokeniser/unicode.hpp | 40 ++++++++++----------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/gen_unicode_hpp/main.cpp b/gen_unicode_hpp/main.cpp
index e35bfaa..1a55756 100644
--- a/gen_unicode_hpp/main.cpp
+++ b/gen_unicode_hpp/main.cpp
@@ -13,11 +13,13 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 {
 	lexertl::rules rules_;
 	lexertl::state_machine state_machine_;
+	bool first_ = true;
 	const char* start_ = mf_.data();
 	const char* end_ = start_ + mf_.size();
 	lexertl::cmatch results_(start_, end_);
-	enum { eNumber = 1, eName };
+	enum { eNumber = 1, eLast, eName };
 
+	std::size_t start_num_ = 0;
 	std::size_t num_ = 0;
 	using string_token = lexertl::basic_string_token<std::size_t>;
 	using map = std::map<std::string, string_token>;
@@ -28,6 +30,8 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	rules_.push_state("FINISH");
 
 	rules_.push("INITIAL", "^[A-F0-9]+", eNumber, "LONG_NAME");
+	// A pair of lines named <..., First> and <..., Last> stands for a range.
+	rules_.push("LONG_NAME", ";<[^;]+, Last>;", eLast, "SHORT_NAME");
 	rules_.push("LONG_NAME", ";[^;]+;", lexertl::rules::skip(), "SHORT_NAME");
 	rules_.push("SHORT_NAME", "[A-Z][a-z]?", eName, "FINISH");
 	rules_.push("FINISH", ".*\n", lexertl::rules::skip(), "INITIAL");
@@ -41,15 +45,21 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 		{
 			std::stringstream ss_;
 
+			start_num_ = num_;
 			ss_ << results_.str();
 			ss_ >> std::hex >> num_;
+			first_ = true;
+		}
+		else if (results_.id == eLast)
+		{
+			first_ = false;
 		}
 		else if (results_.id == eName)
 		{
 			const std::string name_ = results_.str();
 
 			map_[name_].insert(lexertl::basic_string_token<std::size_t>::range
-			(num_, num_));
+			(first_ ? num_ : start_num_, num_));
 		}
 	} while (results_.id != 0);
 
diff --git a/include/lexertl/parser/tokeniser/unicode.hpp b/include/lexertl/parser/tokeniser/unicode.hpp
index 00e1d41..853def4 100644
--- a/include/lexertl/parser/tokeniser/unicode.hpp
+++ b/include/lexertl/parser/tokeniser/unicode.hpp
@@ -54,12 +54,12 @@
 
     static const char* Co()
     {
-        return "[\\xe000\\xf8ff\\xf0000\\xffffd\\x100000\\x10fffd]";
+        return "[\\xe000-\\xf8ff\\xf0000-\\xffffd\\x100000-\\x10fffd]";
     }
 
     static const char* Cs()
     {
-        return "[\\xd800\\xdb7f\\xdb80\\xdbff\\xdc00\\xdfff]";
+        return "[\\xd800-\\xdfff]";
     }
 
     static const char* Ll()
@@ -217,8 +217,8 @@
             "\\x2da8-\\x2dae\\x2db0-\\x2db6\\x2db8-\\x2dbe\\x2dc0-\\x2dc6"
             "\\x2dc8-\\x2dce\\x2dd0-\\x2dd6\\x2dd8-\\x2dde\\x3006\\x303c"
             "\\x3041-\\x3096\\x309f\\x30a1-\\x30fa\\x30ff\\x3105-\\x312f"
-            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400\\x4dbf\\x4e00"
-            "\\x9fff-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
+            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400-\\x4dbf"
+            "\\x4e00-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
             "\\xa610-\\xa61f\\xa62a\\xa62b\\xa66e\\xa6a0-\\xa6e5\\xa78f\\xa7f7"
             "\\xa7fb-\\xa801\\xa803-\\xa805\\xa807-\\xa80a\\xa80c-\\xa822"
             "\\xa840-\\xa873\\xa882-\\xa8b3\\xa8f2-\\xa8f7\\xa8fb\\xa8fd\\xa8fe"
@@ -228,7 +228,7 @@
             "\\xaa7a\\xaa7e-\\xaaaf\\xaab1\\xaab5\\xaab6\\xaab9-\\xaabd\\xaac0"
             "\\xaac2\\xaadb\\xaadc\\xaae0-\\xaaea\\xaaf2\\xab01-\\xab06"
             "\\xab09-\\xab0e\\xab11-\\xab16\\xab20-\\xab26\\xab28-\\xab2e"
-            "\\xabc0-\\xabe2\\xac00\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
+            "\\xabc0-\\xabe2\\xac00-\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
             "\\xf900-\\xfa6d\\xfa70-\\xfad9\\xfb1d\\xfb1f-\\xfb28"
             "\\xfb2a-\\xfb36\\xfb38-\\xfb3c\\xfb3e\\xfb40\\xfb41\\xfb43\\xfb44"
             "\\xfb46-\\xfbb1\\xfbd3-\\xfd3d\\xfd50-\\xfd8f\\xfd92-\\xfdc7"
@@ -281,26 +281,26 @@
             "\\x14400-\\x14646\\x16100-\\x1611d\\x16800-\\x16a38"
             "\\x16a40-\\x16a5e\\x16a70-\\x16abe\\x16ad0-\\x16aed"
             "\\x16b00-\\x16b2f\\x16b63-\\x16b77\\x16b7d-\\x16b8f"
-            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000"
-            "\\x187ff-\\x18cd5\\x18cff\\x18d00\\x18d1e\\x18d80-\\x18df2"
-            "\\x1b000-\\x1b122\\x1b132\\x1b150-\\x1b152\\x1b155"
-            "\\x1b164-\\x1b167\\x1b170-\\x1b2fb\\x1bc00-\\x1bc6a"
-            "\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88\\x1bc90-\\x1bc99\\x1df0a"
-            "\\x1e100-\\x1e12c\\x1e14e\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb"
-            "\\x1e4d0-\\x1e4ea\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de"
-            "\\x1e6e0-\\x1e6e2\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed"
-            "\\x1e6f0-\\x1e6f4\\x1e6fe\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb"
-            "\\x1e7ed\\x1e7ee\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4"
-            "\\x1ee00-\\x1ee03\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
+            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000-\\x18cd5"
+            "\\x18cff-\\x18d1e\\x18d80-\\x18df2\\x1b000-\\x1b122\\x1b132"
+            "\\x1b150-\\x1b152\\x1b155\\x1b164-\\x1b167\\x1b170-\\x1b2fb"
+            "\\x1bc00-\\x1bc6a\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88"
+            "\\x1bc90-\\x1bc99\\x1df0a\\x1e100-\\x1e12c\\x1e14e"
+            "\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb\\x1e4d0-\\x1e4ea"
+            "\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de\\x1e6e0-\\x1e6e2"
+            "\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed\\x1e6f0-\\x1e6f4\\x1e6fe"
+            "\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb\\x1e7ed\\x1e7ee"
+            "\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4\\x1ee00-\\x1ee03"
+            "\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
             "\\x1ee29-\\x1ee32\\x1ee34-\\x1ee37\\x1ee39\\x1ee3b\\x1ee42\\x1ee47"
             "\\x1ee49\\x1ee4b\\x1ee4d-\\x1ee4f\\x1ee51\\x1ee52\\x1ee54\\x1ee57"
             "\\x1ee59\\x1ee5b\\x1ee5d\\x1ee5f\\x1ee61\\x1ee62\\x1ee64"
             "\\x1ee67-\\x1ee6a\\x1ee6c-\\x1ee72\\x1ee74-\\x1ee77"
             "\\x1ee79-\\x1ee7c\\x1ee7e\\x1ee80-\\x1ee89\\x1ee8b-\\x1ee9b"
-            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb\\x20000"
-            "\\x2a6df\\x2a700\\x2b73f\\x2b740\\x2b81d\\x2b820\\x2cead\\x2ceb0"
-            "\\x2ebe0\\x2ebf0\\x2ee5d\\x2f800-\\x2fa1d\\x30000\\x3134a\\x31350"
-            "\\x323af\\x323b0\\x33479]";
+            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb"
+            "\\x20000-\\x2a6df\\x2a700-\\x2b81d\\x2b820-\\x2cead"
+            "\\x2ceb0-\\x2ebe0\\x2ebf0-\\x2ee5d\\x2f800-\\x2fa1d"
+            "\\x30000-\\x3134a\\x31350-\\x33479]";
     }
 
     static const char* Lt()
-- 
2.43.0


From facdb9c9e6cc11486d54150076d4bf7b6f71a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 10/60] fix: [:print:] of wide lexers matched exactly the
 unprintable characters

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index c6b9b77..f496586 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -853,7 +853,7 @@ namespace lexertl::detail
                 {
                     // print
                     str_ = sizeof(input_char_type) == 1 ?
-                        "[\x20-\x7e]" : R"([\p{C}])";
+                        "[\x20-\x7e]" : R"([^\p{C}])";
                 }
                 else
                 {
-- 
2.43.0


From a7d9e18e5851a1ff21e8cccd68b453baa72e3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 11/60] fix: case folding of adjacent upper/lower pairs mapped
 characters to themselves

---
 .../parser/tokeniser/re_tokeniser_helper.hpp    | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index f496586..b3937b4 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -267,14 +267,15 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type first_ = ptr_->to.second +
+                        // Descending, so the bounds swap over.
+                        const index_type second_ = ptr_->to.first -
                             (range_.first - ptr_->from.first);
 
-                        out_.insert(range(first_,
-                            range_.second > ptr_->from.second ?
-                            ptr_->to.first :
-                            static_cast<index_type>(ptr_->to.second +
-                                (range_.second - ptr_->from.first))));
+                        out_.insert(range(range_.second > ptr_->from.second ?
+                            ptr_->to.second :
+                            static_cast<index_type>(ptr_->to.first -
+                                (range_.second - ptr_->from.first)),
+                            second_));
                     }
                 }
                 else if (range_.second >= ptr_->from.first &&
@@ -289,10 +290,10 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type second_ = ptr_->to.second +
+                        const index_type first_ = ptr_->to.first -
                             (range_.second - ptr_->from.first);
 
-                        out_.insert(range(ptr_->to.second, second_));
+                        out_.insert(range(first_, ptr_->to.first));
                     }
                 }
                 // Either range fully encompasses from range or not at all.
-- 
2.43.0


From 09d1230349ee2c19004da40ea49fd884d2f4288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 12/60] fix: an invalid or self-referring macro was left behind
 as an empty definition

---
 include/lexertl/rules.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b604f79..f54813e 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -251,12 +251,13 @@ namespace lexertl
 
             if (iter_ == _macro_map.end())
             {
-                auto pair_ =
-                    _macro_map.insert(macro_pair(name_, token_vector()));
+                // Tokenise first, so that a macro cannot refer to itself
+                // and is not defined if its regex is invalid.
                 auto tokens_vec_ = tokenise(regex_, npos(), name_);
 
                 // There can only be one token_vector for a macro
-                pair_.first->second = std::move(tokens_vec_.back());
+                _macro_map.insert(macro_pair(name_,
+                    std::move(tokens_vec_.back())));
             }
             else
             {
-- 
2.43.0


From 38883be77934310c8e1dbf83a839e3e48ded852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 13/60] fix: a lexer state refused for its number was added all
 the same

---
 include/lexertl/rules.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index f54813e..6379a4a 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -197,6 +197,14 @@ namespace lexertl
         {
             validate(name_);
 
+            if (_next_dfas.size() >= npos() &&
+                _statemap.find(name_) == _statemap.end())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen cannot hold "
+                    "this many lexer start states.");
+            }
+
             if (_statemap.insert(string_id_type_pair(name_,
                 static_cast<id_type>(_statemap.size()))).second)
             {
@@ -219,13 +227,6 @@ namespace lexertl
                 return _statemap.find(name_)->second;
             }
 
-            if (_next_dfas.size() > npos())
-            {
-                // Overflow
-                throw runtime_error("The id_type you have chosen cannot hold "
-                    "this many lexer start states.");
-            }
-
             // Initial is not stored, so no need to - 1.
             return static_cast<id_type>(_lexer_state_names.size());
         }
-- 
2.43.0


From 9ac8ec42d1b24f56fd717ee52a83c4eaeba1523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 14/60] fix: hex escapes of more than 16 digits wrapped around
 to small characters

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index b3937b4..e9d278a 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -1321,11 +1321,13 @@ namespace lexertl::detail
                 throw runtime_error(ss_.str());
             }
 
+            constexpr std::size_t max_hex_ = ~static_cast<std::size_t>(0) / 16;
             std::size_t hex_ = 0;
 
             do
             {
-                hex_ *= 16;
+                // Don't let excess digits wrap around.
+                hex_ = (hex_ > max_hex_ ? max_hex_ : hex_) * 16;
 
                 if (ch_ >= '0' && ch_ <= '9')
                 {
-- 
2.43.0


From aaa0219c99c05bae1feb09d7c734f839a59fc59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 15/60] fix: consecutive set operators were accepted and all
 but the last ignored

---
 include/lexertl/rules.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 6379a4a..ac86117 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -532,6 +532,10 @@ namespace lexertl
                 }
                 else if (rhs_._type == detail::token_type::DIFF)
                 {
+                    // {-} or {+} cannot follow another: always throws.
+                    if (diff_)
+                        check_diff(name_, lhs_, rhs_, state_, diff_);
+
                     process_diff(name_, rhs_, state_, macro_, diff_);
                     continue;
                 }
-- 
2.43.0


From 249b21a62be76e78075fd094c5e0356b92dfe79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 16/60] fix: (?s:) left dot excluding line ends under
 dot_not_cr_lf

---
 .../lexertl/parser/tokeniser/re_tokeniser.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index ddc855b..9afc494 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -385,21 +385,24 @@ namespace lexertl::detail
                     case 's':
                         if (negate_)
                         {
-                            state_._flags = state_._flags |
+                            // Keep to whichever option is already on.
+                            if (!(state_._flags &
+                                (*regex_flags::dot_not_newline |
+                                *regex_flags::dot_not_cr_lf)))
+                            {
+                                state_._flags = state_._flags |
 #ifdef _WIN32
-                                *regex_flags::dot_not_cr_lf;
+                                    *regex_flags::dot_not_cr_lf;
 #else
-                                *regex_flags::dot_not_newline;
+                                    *regex_flags::dot_not_newline;
 #endif
+                            }
                         }
                         else
                         {
                             state_._flags = state_._flags &
-#ifdef _WIN32
-                                ~*regex_flags::dot_not_cr_lf;
-#else
-                                ~*regex_flags::dot_not_newline;
-#endif
+                                ~(*regex_flags::dot_not_newline |
+                                *regex_flags::dot_not_cr_lf);
                         }
 
                         negate_ = false;
-- 
2.43.0


From a207e3927c50577c6641a5c315eda9f1f8ee3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 17/60] fix: rules matching only the empty text at a line start
 or end were not reported

---
 include/lexertl/generator.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 8483f02..6de2104 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -446,10 +446,12 @@ namespace lexertl
         {
             if ((rules_.flags() & *regex_flags::match_zero_len) == 0)
             {
-                const auto& firstpos_ = root_->firstpos();
+                node_vector nodes_ = root_->firstpos();
 
-                for (observer_ptr<const node> node_ : firstpos_)
+                for (std::size_t i_ = 0; i_ < nodes_.size(); ++i_)
                 {
+                    observer_ptr<const node> node_ = nodes_[i_];
+
                     if (node_->end_state())
                     {
                         std::ostringstream ss_;
@@ -461,6 +463,17 @@ namespace lexertl
                             "to suppress this error.)";
                         throw runtime_error(ss_.str());
                     }
+                    // ^ and $ do not consume anything
+                    else if (node_->token() == parser::bol_token() ||
+                        node_->token() == parser::eol_token())
+                    {
+                        for (observer_ptr<node> next_ : node_->followpos())
+                        {
+                            if (std::find(nodes_.begin(), nodes_.end(),
+                                next_) == nodes_.end())
+                                nodes_.push_back(next_);
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From bc3290567778f677d2ef166f4c8f19678f69b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 18/60] fix: trailing non-greedy repeat before an alternative
 starting with a group was kept

---
 include/lexertl/abstemious.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/abstemious.hpp b/include/lexertl/abstemious.hpp
index fae9f2d..876dfb1 100644
--- a/include/lexertl/abstemious.hpp
+++ b/include/lexertl/abstemious.hpp
@@ -100,7 +100,7 @@ namespace lexertl
         static std::size_t end_block(const token_vector& tokens_,
             const std::size_t start_)
         {
-            auto idx_ = start_ + 1;
+            auto idx_ = start_;
             std::size_t parens_ = 0;
 
             for (auto size_ = tokens_.size(); idx_ < size_; ++idx_)
-- 
2.43.0


From 192d76ae90677a54c581526a62b9bac75fc12cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 19/60] fix: reversed rules kept the line start and end
 features of the originals

---
 include/lexertl/rules.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index ac86117..e927026 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -399,6 +399,18 @@ namespace lexertl
             {
                 reverse(pair_.second);
             }
+
+            for (auto& features_ : _features)
+            {
+                const id_type bol_ = features_ & *feature_bit::bol;
+                const id_type eol_ = features_ & *feature_bit::eol;
+
+                features_ ^= bol_ | eol_;
+
+                if (bol_) features_ |= *feature_bit::eol;
+
+                if (eol_) features_ |= *feature_bit::bol;
+            }
         }
 
         const string_id_type_map& statemap() const
-- 
2.43.0


From 890476f9c52d4aa49940b85ca7f3edfce92d9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 20/60] fix: rules reachable only through dropped non-greedy
 transitions were not reported

---
 include/lexertl/generator.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 6de2104..9455fe9 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -260,6 +260,16 @@ namespace lexertl
 
                 for (auto& equivset_ : equiv_list_)
                 {
+                    // Prune abstemious transitions from end states.
+                    if (const id_type end_state_ = dfa_
+                        [(static_cast<std::size_t>(index_) + 1) *
+                            dfa_alphabet_];
+                        end_state_ && !(end_state_ & *state_bit::greedy) &&
+                        equivset_->_greedy == greedy_repeat::no)
+                    {
+                        continue;
+                    }
+
                     prune_eol_clashes(equivset_->_followpos, cr_id_, nl_id_,
                         set_mapping_);
 
@@ -271,19 +281,12 @@ namespace lexertl
 
                     if (transition_ != sm_traits::npos())
                     {
-                        // The end state is set as part of closure(),
-                        // so wait until here to check for it.
                         observer_ptr<id_type> ptr_ = &dfa_.front() +
                             ((static_cast<std::size_t>(index_) + 1) *
                                 dfa_alphabet_);
 
-                        // Prune abstemious transitions from end states.
-                        if (!(*ptr_ && !(*ptr_ & *state_bit::greedy) &&
-                            equivset_->_greedy == greedy_repeat::no))
-                        {
-                            set_transitions(transition_, equivset_.get(), dfa_,
-                                ptr_, index_, eol_set_);
-                        }
+                        set_transitions(transition_, equivset_.get(), dfa_,
+                            ptr_, index_, eol_set_);
                     }
                 }
             }
-- 
2.43.0


From 9232643a913a93b09ad1c20814073035a4a7090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 21/60] fix: rows after a second ^ were built although never
 reached, hiding unreachable rules

---
 include/lexertl/generator.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 9455fe9..e642757 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -270,6 +270,13 @@ namespace lexertl
                         continue;
                     }
 
+                    // ^ is only taken from the start state
+                    if (index_ != 0 && equivset_->_index_vector.front() ==
+                        parser::bol_token())
+                    {
+                        continue;
+                    }
+
                     prune_eol_clashes(equivset_->_followpos, cr_id_, nl_id_,
                         set_mapping_);
 
@@ -428,9 +435,7 @@ namespace lexertl
             {
                 if (i_ == parser::bol_token())
                 {
-                    // ^ is only taken from the start state
-                    if (index_ == 0)
-                        dfa_.front() = transition_;
+                    dfa_.front() = transition_;
                 }
                 else if (i_ == parser::eol_token())
                 {
-- 
2.43.0


From 19553f69494fc5185b1f99ac8de8d99092449af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 22/60] fix: minimising a character machine lost ids, pushes
 and pops

---
 include/lexertl/state_machine.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/state_machine.hpp b/include/lexertl/state_machine.hpp
index 1c1ffa5..c8d0db5 100644
--- a/include/lexertl/state_machine.hpp
+++ b/include/lexertl/state_machine.hpp
@@ -473,8 +473,10 @@ namespace lexertl
                     }
 
                     new_ptr_->_end_state = ptr_->_end_state;
-                    new_ptr_->_id = ptr_->_end_state;
+                    new_ptr_->_push_pop_dfa = ptr_->_push_pop_dfa;
+                    new_ptr_->_id = ptr_->_id;
                     new_ptr_->_user_id = ptr_->_user_id;
+                    new_ptr_->_push_dfa = ptr_->_push_dfa;
                     new_ptr_->_next_dfa = ptr_->_next_dfa;
 
                     if (ptr_->_eol_index != npos())
-- 
2.43.0


From c2f4a152cdb36b4a2702fe4138f4380bc63c3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:05 +0000
Subject: [PATCH 23/60] fix: load() accepted cut short data and left a half
 loaded machine, 8 bit ids and u32 machines could not be saved

---
 include/lexertl/serialise.hpp | 83 +++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 10ebb17..2f8aef0 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -10,7 +10,7 @@
 #include "runtime_error.hpp"
 #include "state_machine.hpp"
 
-#include <sstream>
+#include <cstddef>
 #include <string>
 #include <vector>
 
@@ -21,48 +21,55 @@ namespace lexertl
         template<typename char_type, typename id_type, class stream>
         void output_vec(const std::vector<id_type>& vec_, stream& stream_)
         {
-            std::basic_ostringstream<char_type> ss_;
-            std::basic_string<char_type> str_;
             std::size_t line_len_ = 0;
 
             stream_ << vec_.size() << '\n';
 
             for (const id_type l_ : vec_)
             {
-                ss_ << l_;
-                str_ = ss_.str();
+                // Always a number, even if id_type is a character type
+                const std::size_t id_ = l_;
+                const std::size_t len_ = std::to_string(id_).size() + 1;
 
-                if (line_len_ + str_.size() + 1 > 80)
+                if (line_len_ + len_ > 80)
                 {
-                    stream_ << '\n' << str_ << ' ';
-                    line_len_ = str_.size() + 1;
-                }
-                else
-                {
-                    stream_ << str_ << ' ';
-                    line_len_ += str_.size() + 1;
+                    stream_ << '\n';
+                    line_len_ = 0;
                 }
 
-                ss_.str("");
+                stream_ << id_ << ' ';
+                line_len_ += len_;
             }
 
             stream_ << '\n';
         }
 
-        template<typename char_type, class stream, typename id_type>
-        void input_vec(stream& stream_, std::vector<id_type>& vec_)
+        template<typename num_type, class stream>
+        num_type input_num(stream& stream_)
         {
             std::size_t num_ = 0;
 
-            stream_>> num_;
-            vec_.reserve(num_);
+            stream_ >> num_;
 
-            for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
+            // Every number is followed by white space, so eof
+            // means that the data has been cut short.
+            if (!stream_ || stream_.eof() ||
+                num_ > static_cast<num_type>(~0))
             {
-                std::size_t id_ = 0;
+                throw runtime_error("Invalid data in lexertl::load().");
+            }
+
+            return static_cast<num_type>(num_);
+        }
+
+        template<typename char_type, class stream, typename id_type>
+        void input_vec(stream& stream_, std::vector<id_type>& vec_)
+        {
+            const auto num_ = input_num<std::size_t>(stream_);
 
-                stream_ >> id_;
-                vec_.push_back(static_cast<id_type>(id_));
+            for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
+            {
+                vec_.push_back(input_num<id_type>(stream_));
             }
         }
     }
@@ -78,7 +85,7 @@ namespace lexertl
         stream_ << 1 << '\n';
         stream_ << sizeof(char_type) << '\n';
         stream_ << sizeof(id_type) << '\n';
-        stream_ << internals_._eoi << '\n';
+        stream_ << static_cast<std::size_t>(internals_._eoi) << '\n';
         stream_ << internals_._lookup.size() << '\n';
 
         for (const auto& vec_ : internals_._lookup)
@@ -87,7 +94,7 @@ namespace lexertl
         }
 
         detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << internals_._features << '\n';
+        stream_ << static_cast<std::size_t>(internals_._features) << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
@@ -100,27 +107,24 @@ namespace lexertl
     void load(stream& stream_, basic_state_machine<char_type, id_type>& sm_)
     {
         using internals = detail::basic_internals<id_type>;
-        internals& internals_ = sm_.data();
+        // sm_ is left alone if there is an error
+        internals internals_;
         std::size_t num_ = 0;
 
-        internals_.clear();
         // Version
-        stream_ >> num_;
-        // sizeof(char_type)
-        stream_ >> num_;
+        if (detail::input_num<std::size_t>(stream_) != 1)
+            throw runtime_error("Unknown version in lexertl::load().");
 
-        if (num_ != sizeof(char_type))
+        // sizeof(char_type)
+        if (detail::input_num<std::size_t>(stream_) != sizeof(char_type))
             throw runtime_error("char_type mismatch in lexertl::load().");
 
         // sizeof(id_type)
-        stream_ >> num_;
-
-        if (num_ != sizeof(id_type))
+        if (detail::input_num<std::size_t>(stream_) != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> internals_._eoi;
-        stream_ >> num_;
-        internals_._lookup.reserve(num_);
+        internals_._eoi = detail::input_num<id_type>(stream_);
+        num_ = detail::input_num<std::size_t>(stream_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
@@ -129,15 +133,16 @@ namespace lexertl
         }
 
         detail::input_vec<char_type>(stream_, internals_._dfa_alphabet);
-        stream_ >> internals_._features;
-        stream_ >> num_;
-        internals_._dfa.reserve(num_);
+        internals_._features = detail::input_num<id_type>(stream_);
+        num_ = detail::input_num<std::size_t>(stream_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
             internals_._dfa.emplace_back();
             detail::input_vec<char_type>(stream_, internals_._dfa.back());
         }
+
+        internals_.swap(sm_.data());
     }
 }
 
-- 
2.43.0


From 163f4532e9db39429e477f1e707fdd381e4471df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 24/60] fix: generated lexers with pushes in a single state did
 not compile

---
 include/lexertl/generate_cpp.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index b545822..e75fa59 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -595,8 +595,13 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
-                os_ << "            start_state_ =  results_."
-                    "stack.top().first;\n";
+
+                if (internals_._dfa.size() > 1)
+                {
+                    os_ << "            start_state_ =  results_."
+                        "stack.top().first;\n";
+                }
+
                 os_ << "            results_.stack.pop();\n";
                 os_ << "        }\n";
                 os_ << "        else if (push_dfa_ != results_.npos())\n";
-- 
2.43.0


From 13d2138daf4447f62e571067c74ee892bd374904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 25/60] fix: generated lexers with eleven or more states did
 not compile

---
 include/lexertl/generate_cpp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index e75fa59..1e46c1b 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -807,7 +807,8 @@ namespace lexertl
 
                     ss_ << dfa_;
                     dfa_name_ += ss_.str();
-                    os_ << dfa_;
+                    // The previous table leaves the stream printing hex.
+                    os_ << std::dec << dfa_;
                 }
 
                 dfa_name_ += '_';
@@ -846,7 +847,7 @@ namespace lexertl
 
                 for (std::size_t col_ = 1; col_ < dfas_; ++col_)
                 {
-                    os_ << ", dfa" << col_ << '_';
+                    os_ << ", dfa" << std::dec << col_ << '_';
                 }
 
                 os_ << "};\n";
-- 
2.43.0


From 92db764df8e33beb0d72b971a26122058e2f03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 26/60] fix: pointer tables of generated lexers had bad
 addresses for line ends and absent line starts

---
 include/lexertl/generate_cpp.hpp | 41 +++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 1e46c1b..58313ce 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -869,8 +869,7 @@ namespace lexertl
                 if (first_)
                 {
                     // We want numbers regardless of id_type.
-                    os_ << dfa_name_ << " + 0x" << std::hex <<
-                        static_cast<std::size_t>(*ptr_++) * dfa_alphabet_;
+                    dump_row_ptr(*ptr_++, dfa_name_, dfa_alphabet_, os_);
                 }
                 else if (!zero_)
                 {
@@ -889,6 +888,13 @@ namespace lexertl
                     id_index_ < *state_index::transitions; ++id_index_, ++ptr_)
                 {
                     os_ << ", ";
+
+                    if (id_index_ == *state_index::eol)
+                    {
+                        dump_row_ptr(*ptr_, dfa_name_, dfa_alphabet_, os_);
+                        continue;
+                    }
+
                     zero_ = *ptr_ == 0;
 
                     if (!zero_)
@@ -908,19 +914,8 @@ namespace lexertl
                 for (id_type alphabet_ = *state_index::transitions;
                     alphabet_ < dfa_alphabet_; ++alphabet_, ++ptr_)
                 {
-                    // We want numbers regardless of id_type.
                     os_ << ", ";
-
-                    if (*ptr_ == 0)
-                    {
-                        os_ << 0;
-                    }
-                    else
-                    {
-                        // We want numbers regardless of id_type.
-                        os_ << dfa_name_ + " + 0x" << std::hex <<
-                            static_cast<std::size_t>(*ptr_) * dfa_alphabet_;
-                    }
+                    dump_row_ptr(*ptr_, dfa_name_, dfa_alphabet_, os_);
                 }
             }
             else
@@ -938,6 +933,24 @@ namespace lexertl
             }
         }
 
+        // The address of a row, or null when there is none.
+        template<typename id_type>
+        static void dump_row_ptr(const id_type index_,
+            const std::string& dfa_name_, const id_type dfa_alphabet_,
+            std::ostream& os_)
+        {
+            if (index_ == 0)
+            {
+                os_ << 0;
+            }
+            else
+            {
+                // We want numbers regardless of id_type.
+                os_ << dfa_name_ << " + 0x" << std::hex <<
+                    static_cast<std::size_t>(index_) * dfa_alphabet_;
+            }
+        }
+
         static void output_tabs(const std::size_t tabs_, std::ostream& os_)
         {
             for (std::size_t i_ = 0; i_ < tabs_; ++i_)
-- 
2.43.0


From b4d06a35f94b2118123d5f6c49bcf070227d2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 27/60] fix: $ did not match before carriage returns in
 generated lexers

---
 include/lexertl/generate_cpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 58313ce..df3764b 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -286,7 +286,8 @@ namespace lexertl
                 }
 
                 os_ << ";\n\n";
-                os_ << "        if (EOL_state_ && *curr_ == '\\n')\n";
+                os_ << "        if (EOL_state_ && (*curr_ == '\\r' || "
+                    "*curr_ == '\\n'))\n";
                 os_ << "        {\n";
                 os_ << "            ptr_ = ";
 
-- 
2.43.0


From d0841ead5138e10f755108026d98374fbc6e6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 28/60] fix: generated lexers matched $ one character before
 the end of the input

---
 include/lexertl/generate_cpp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index df3764b..a5fb054 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -966,7 +966,7 @@ namespace lexertl
             std::ostream& os_, const std::false_type&)
         {
             output_tabs(additional_tabs_, os_);
-            os_ << "        const char_type prev_char_ = *curr_++;\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n";
             output_tabs(additional_tabs_, os_);
             os_ << "        const ";
 
@@ -1047,6 +1047,8 @@ namespace lexertl
             }
 
             os_ << ";\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         template<typename id_type>
@@ -1063,7 +1065,7 @@ namespace lexertl
             output_tabs(additional_tabs_, os_);
             os_ << "        const std::size_t shift_[] = {0, 8, 16};\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        char_type prev_char_ = *curr_++;\n\n";
+            os_ << "        char_type prev_char_ = *curr_;\n\n";
 
             if (features_ & *feature_bit::bol)
             {
@@ -1136,7 +1138,9 @@ namespace lexertl
 
             os_ << ";\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        }\n";
+            os_ << "        }\n\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         static void output_quit(std::ostream&, const std::false_type&)
-- 
2.43.0


From 50247215e237580a147a9a4b8eb1c2378896114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 29/60] fix: generated lexers popped from an empty stack

---
 include/lexertl/generate_cpp.hpp  | 4 ++++
 include/lexertl/match_results.hpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index a5fb054..5fc3b5c 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -596,6 +596,10 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
+                os_ << "            if (results_.stack.empty())\n";
+                os_ << "                throw lexertl::runtime_error"
+                    "(\"Stack underflow in \"\n"
+                    "                    \"" << name_ << "().\");\n\n";
 
                 if (internals_._dfa.size() > 1)
                 {
diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 50e519a..20a66e1 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -9,6 +9,7 @@
 #include "char_traits.hpp"
 #include "enum_operator.hpp"
 #include "enums.hpp"
+#include "runtime_error.hpp"
 
 #include <cstdint>
 #include <iterator>
-- 
2.43.0


From ba72f135c1626a4b588a1e35974336d10b68415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 30/60] fix: debug dumps escaped the wrong end of ranges and
 ran hex escapes together

---
 include/lexertl/debug.hpp | 56 +++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 7872e95..59a8d67 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <functional>
+#include <ios>
 #include <map>
 #include <ostream>
 #include <sstream>
@@ -467,7 +468,6 @@ namespace lexertl
                 case static_cast<char_type>('{'):
                 case static_cast<char_type>('}'):
                 case static_cast<char_type>('['):
-                case static_cast<char_type>(']'):
                 case static_cast<char_type>('.'):
                 case static_cast<char_type>('/'):
                     stream_ << static_cast<char_type>('\\');
@@ -484,39 +484,22 @@ namespace lexertl
                 negated_ = true;
             }
 
-            string chars_;
+            bool hex_ = false;
 
             for (const auto& range_ : token_._ranges)
             {
-                if (range_.first == static_cast<char_type>('-') ||
-                    range_.first == static_cast<char_type>('^') ||
-                    (range_.first == static_cast<char_type>(']') &&
-                    range_.first != range_.second))
-                {
-                    stream_ << static_cast<char_type>('\\');
-                }
-
-                chars_ = string_token::escape_char
-                (range_.first);
+                dump_char(range_.first, hex_, stream_);
 
                 if (range_.first != range_.second)
                 {
                     if (range_.first + 1 < range_.second)
                     {
-                        chars_ += static_cast<char_type>('-');
+                        stream_ << static_cast<char_type>('-');
+                        hex_ = false;
                     }
 
-                    if (range_.second == static_cast<char_type>('-') ||
-                        range_.second == static_cast<char_type>('^') ||
-                        range_.second == static_cast<char_type>(']'))
-                    {
-                        stream_ << static_cast<char_type>('\\');
-                    }
-
-                    chars_ += string_token::escape_char(range_.second);
+                    dump_char(range_.second, hex_, stream_);
                 }
-
-                stream_ << chars_;
             }
 
             if (token_._ranges.size() > 1 || negated_ ||
@@ -526,6 +509,33 @@ namespace lexertl
             }
         }
 
+        static void dump_char(const typename string_token::index_type ch_,
+            bool& hex_, ostream& stream_)
+        {
+            string chars_ = string_token::escape_char(ch_);
+
+            if (hex_ && ((ch_ >= '0' && ch_ <= '9') ||
+                (ch_ >= 'A' && ch_ <= 'F') || (ch_ >= 'a' && ch_ <= 'f')))
+            {
+                // Would be read as part of the preceding hex escape
+                stringstream ss_;
+
+                chars_ = { static_cast<char_type>('\\'),
+                    static_cast<char_type>('x') };
+                ss_ << std::hex;
+                stream_num(static_cast<std::size_t>(ch_), ss_);
+                chars_ += ss_.str();
+            }
+            else if (ch_ == '-' || ch_ == '^' || ch_ == ']')
+            {
+                stream_ << static_cast<char_type>('\\');
+            }
+
+            hex_ = chars_.size() > 2 &&
+                chars_[1] == static_cast<char_type>('x');
+            stream_ << chars_;
+        }
+
         static void perc_perc(std::ostream& stream_)
         {
             stream_ << "%%";
-- 
2.43.0


From 8c0590ea59ece7b627d17d4d1f07d73d53f36ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 31/60] fix: debug dumps printed 8 bit push states as
 characters

---
 include/lexertl/debug.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 59a8d67..805fa49 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -329,7 +329,8 @@ namespace lexertl
                         dfa_state::push_pop_dfa::push_dfa)
                     {
                         push(stream_);
-                        stream_num(state_._push_dfa, stream_);
+                        stream_num(static_cast<std::size_t>(state_._push_dfa),
+                            stream_);
                     }
                     else if (state_._push_pop_dfa ==
                         dfa_state::push_pop_dfa::pop_dfa)
-- 
2.43.0


From be6aaa4ffded229b63328ecd9d3b04ea2d87217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 32/60] fix: hex escapes of char32_t characters were printed in
 decimal

---
 include/lexertl/stream_num.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lexertl/stream_num.hpp b/include/lexertl/stream_num.hpp
index 4dc4c81..6d6247a 100644
--- a/include/lexertl/stream_num.hpp
+++ b/include/lexertl/stream_num.hpp
@@ -32,6 +32,7 @@ namespace lexertl
         std::stringstream css_;
         std::string count_;
 
+        css_.flags(ss_.flags());
         css_ << num_;
         count_ = css_.str();
 
-- 
2.43.0


From 9e0156a5e67037c3cb45ef1d04062472bc105064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 33/60] fix: wide dot dumps did not compile

---
 include/lexertl/dot.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 4e54763..fb02e64 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -178,7 +178,7 @@ namespace lexertl
 
                 if (i_ == 0)
                 {
-                    const char* name_ = rules_.state(dfa_id_);
+                    const char_type* name_ = rules_.state(dfa_id_);
 
                     stream_ << "    " << name <<
                         " [shape = circle, xlabel=\"";
-- 
2.43.0


From f5b0c42f9f0f4ed786dcc5f28ea00bf3610b486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 34/60] fix: dot dumps did not escape HTML, ambiguous set
 characters and large characters

---
 include/lexertl/dot.hpp | 129 ++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 84 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index fb02e64..2164570 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -80,84 +80,58 @@ namespace lexertl
         // Escape control characters twice. This is necessary when
         // expressing character sets attached as to DOT nodes as
         // labels.
-        static string double_escape_char(const id_type ch_)
+        static string double_escape_char
+        (const typename string_token::index_type ch_, bool& hex_)
         {
+            const string chars_ = string_token::escape_char(ch_);
             stringstream out_;
 
-            switch (ch_)
+            if (chars_.size() > 1)
             {
-            case '\0':
+                // Already escaped
                 out_ << '\\';
-                out_ << '\\';
-                out_ << '0';
-                break;
-            case '\a':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'a';
-                break;
-            case '\b':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'b';
-                break;
-            case '\f':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'f';
-                break;
-            case '\n':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'n';
-                break;
-            case '\r':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'r';
-                break;
-            case '\t':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 't';
-                break;
-            case '\v':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << 'v';
-                break;
-            case '\\':
-                out_ << '\\';
-                out_ << '\\';
-                break;
-            case '"':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << '"';
-                break;
-            case '\'':
-                out_ << '\\';
-                out_ << '\\';
-                out_ << '\'';
-                break;
-            default:
-            {
-                if (ch_ < 32 || ch_ > 126)
+
+                if (chars_[1] == '\\')
                 {
                     out_ << '\\';
-                    out_ << 'x';
-                    out_ << std::hex;
-                    stream_num(static_cast<std::size_t>(ch_), out_);
-                }
-                else
-                {
-                    out_ << char_type(ch_);
                 }
 
-                break;
+                out_ << chars_;
             }
+            else if (hex_ && ((ch_ >= '0' && ch_ <= '9') ||
+                (ch_ >= 'A' && ch_ <= 'F') || (ch_ >= 'a' && ch_ <= 'f')))
+            {
+                // Would be read as part of the preceding hex escape
+                out_ << R"(\\x)" << std::hex;
+                stream_num(static_cast<std::size_t>(ch_), out_);
+                return out_.str();
+            }
+            else
+            {
+                // The label is HTML
+                switch (ch_)
+                {
+                case '-':
+                case '^':
+                case ']':
+                    out_ << R"(\\)" << chars_;
+                    break;
+                case '&':
+                    out_ << "&amp;";
+                    break;
+                case '<':
+                    out_ << "&lt;";
+                    break;
+                case '>':
+                    out_ << "&gt;";
+                    break;
+                default:
+                    out_ << chars_;
+                    break;
+                }
             }
 
+            hex_ = chars_.size() > 2 && chars_[1] == 'x';
             return out_.str();
         }
 
@@ -246,35 +220,22 @@ namespace lexertl
 
         static void dump_ranges(const string_token& token_, ostream& stream_)
         {
-            string chars_;
+            bool hex_ = false;
 
             for (const auto& range : token_._ranges)
             {
-                if (range.first == '^' ||
-                    range.first == ']')
-                {
-                    stream_ << R"(\\)";
-                }
-
-                chars_ = double_escape_char(range.first);
+                stream_ << double_escape_char(range.first, hex_);
 
                 if (range.first != range.second)
                 {
                     if (range.first + 1 < range.second)
                     {
-                        chars_ += '-';
+                        stream_ << '-';
+                        hex_ = false;
                     }
 
-                    if (range.second == '^' ||
-                        range.second == ']')
-                    {
-                        stream_ << R"(\\)";
-                    }
-
-                    chars_ += double_escape_char(range.second);
+                    stream_ << double_escape_char(range.second, hex_);
                 }
-
-                stream_ << chars_;
             }
         }
 
-- 
2.43.0


From 21521242eb3f627c0cd2830ac9dd54ac18616284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 35/60] fix: dumping char32_t machines threw std::bad_cast

---
 include/lexertl/debug.hpp | 39 ++++++++++-------
 include/lexertl/dot.hpp   | 88 ++++++++++++++++++++++++---------------
 2 files changed, 79 insertions(+), 48 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 805fa49..2d5712f 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -54,7 +54,7 @@ namespace lexertl
             postprocess_macros(macros_);
 
             perc_perc(stream_);
-            stream_ << std::endl;
+            newline(stream_);
 
             for (const auto& pair_ : macros_)
             {
@@ -65,11 +65,11 @@ namespace lexertl
                     dump_token(token_, stream_);
                 }
 
-                stream_ << std::endl;
+                newline(stream_);
             }
 
             perc_perc(stream_);
-            stream_ << std::endl;
+            newline(stream_);
 
             for (std::size_t state_ = 0, states_ = all_ids_.size();
                 state_ < states_; ++state_)
@@ -139,13 +139,13 @@ namespace lexertl
 
                     stream_ << static_cast<char_type>(' ') <<
                         static_cast<char_type>('}');
-                    stream_ << std::endl;
+                    newline(stream_);
                     ++ids_iter_;
                 }
             }
 
             perc_perc(stream_);
-            stream_ << std::endl;
+            newline(stream_);
         }
 
         static void dump(const sm& sm_, rules& rules_, ostream& stream_)
@@ -171,8 +171,9 @@ namespace lexertl
                 dfa_ < dfas_; ++dfa_)
             {
                 lexer_state(stream_);
-                stream_ << rules_.state(static_cast<id_type>(dfa_)) <<
-                    std::endl << std::endl;
+                stream_ << rules_.state(static_cast<id_type>(dfa_));
+                newline(stream_);
+                newline(stream_);
 
                 dump_ex(csm_._sm_vector[dfa_], stream_);
             }
@@ -185,7 +186,8 @@ namespace lexertl
             {
                 lexer_state(stream_);
                  stream_num<std::size_t>(dfa_, stream_);
-                stream_ << std::endl << std::endl;
+                newline(stream_);
+                newline(stream_);
 
                 dump_ex(csm_._sm_vector[dfa_], stream_);
             }
@@ -222,7 +224,7 @@ namespace lexertl
                         rules_.state(static_cast<id_type>(i_));
                 }
 
-                stream_ << std::endl;
+                newline(stream_);
             }
         }
 
@@ -319,7 +321,7 @@ namespace lexertl
 
                 state(stream_);
                 stream_num(i_, stream_);
-                stream_ << std::endl;
+                newline(stream_);
 
                 if (state_._end_state)
                 {
@@ -346,14 +348,14 @@ namespace lexertl
                     dfa(stream_);
                     stream_num(static_cast<std::size_t>(state_._next_dfa),
                         stream_);
-                    stream_ << std::endl;
+                    newline(stream_);
                 }
 
                 if (i_ == 0 && bol_index_ != char_state_machine::npos())
                 {
                     bol(stream_);
                     stream_num(static_cast<std::size_t>(bol_index_), stream_);
-                    stream_ << std::endl;
+                    newline(stream_);
                 }
 
                 if (state_._eol_index != char_state_machine::npos())
@@ -361,13 +363,13 @@ namespace lexertl
                     eol(stream_);
                     stream_num(static_cast<std::size_t>(state_._eol_index),
                         stream_);
-                    stream_ << std::endl;
+                    newline(stream_);
                 }
 
                 for (const auto& tran_ : state_._transitions)
                     dump_transition(tran_, stream_);
 
-                stream_ << std::endl;
+                newline(stream_);
             }
         }
 
@@ -378,7 +380,7 @@ namespace lexertl
             dump_charset(tran_.second, stream_);
             goes_to(stream_);
             stream_num(static_cast<std::size_t>(tran_.first), stream_);
-            stream_ << std::endl;
+            newline(stream_);
         }
 
         static void dump_token(const token& token_, ostream& stream_)
@@ -537,6 +539,13 @@ namespace lexertl
             stream_ << chars_;
         }
 
+        // std::endl needs a facet that there is not for char32_t
+        static void newline(ostream& stream_)
+        {
+            stream_ << static_cast<char_type>('\n');
+            stream_.flush();
+        }
+
         static void perc_perc(std::ostream& stream_)
         {
             stream_ << "%%";
diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 2164570..a222a15 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -70,9 +70,9 @@ namespace lexertl
         {
             stringstream namestream_;
 
-            namestream_ << 'L';
+            text("L", namestream_);
             stream_num(dfa_id_, namestream_);
-            namestream_ << "_S";
+            text("_S", namestream_);
             stream_num(state_id_, namestream_);
             return namestream_.str();
         }
@@ -89,11 +89,11 @@ namespace lexertl
             if (chars_.size() > 1)
             {
                 // Already escaped
-                out_ << '\\';
+                text("\\", out_);
 
                 if (chars_[1] == '\\')
                 {
-                    out_ << '\\';
+                    text("\\", out_);
                 }
 
                 out_ << chars_;
@@ -102,7 +102,8 @@ namespace lexertl
                 (ch_ >= 'A' && ch_ <= 'F') || (ch_ >= 'a' && ch_ <= 'f')))
             {
                 // Would be read as part of the preceding hex escape
-                out_ << R"(\\x)" << std::hex;
+                text(R"(\\x)", out_);
+                out_ << std::hex;
                 stream_num(static_cast<std::size_t>(ch_), out_);
                 return out_.str();
             }
@@ -114,16 +115,17 @@ namespace lexertl
                 case '-':
                 case '^':
                 case ']':
-                    out_ << R"(\\)" << chars_;
+                    text(R"(\\)", out_);
+                    out_ << chars_;
                     break;
                 case '&':
-                    out_ << "&amp;";
+                    text("&amp;", out_);
                     break;
                 case '<':
-                    out_ << "&lt;";
+                    text("&lt;", out_);
                     break;
                 case '>':
-                    out_ << "&gt;";
+                    text("&gt;", out_);
                     break;
                 default:
                     out_ << chars_;
@@ -143,7 +145,7 @@ namespace lexertl
         {
             const std::size_t states_ = dfa_._states.size();
 
-            stream_ << std::endl;
+            text("\n", stream_);
 
             for (id_type i_ = 0; i_ < states_; ++i_)
             {
@@ -154,31 +156,34 @@ namespace lexertl
                 {
                     const char_type* name_ = rules_.state(dfa_id_);
 
-                    stream_ << "    " << name <<
-                        " [shape = circle, xlabel=\"";
+                    text("    ", stream_);
+                    stream_ << name;
+                    text(" [shape = circle, xlabel=\"", stream_);
 
                     if (name_)
                         stream_ << name_;
                     else
-                        stream_ << dfa_id_;
+                        stream_num(dfa_id_, stream_);
 
-                    stream_ << "\"];" << std::endl;
+                    text("\"];\n", stream_);
                 }
                 else if (state_._end_state)
                 {
-                    stream_ << "    " << name <<
-                        " [shape = doublecircle, xlabel=\"id = ";
+                    text("    ", stream_);
+                    stream_ << name;
+                    text(" [shape = doublecircle, xlabel=\"id = ", stream_);
                     stream_num(static_cast<std::size_t>(state_._id), stream_);
-                    stream_ << "\"];" << std::endl;
+                    text("\"];\n", stream_);
                 }
                 else
                 {
-                    stream_ << "    " << name << " [shape = circle];" <<
-                        std::endl;
+                    text("    ", stream_);
+                    stream_ << name;
+                    text(" [shape = circle];\n", stream_);
                 }
             }
 
-            stream_ << std::endl;
+            text("\n", stream_);
 
             for (id_type i_ = 0; i_ < states_; ++i_)
             {
@@ -191,9 +196,12 @@ namespace lexertl
                 for (; iter_ != end_; ++iter_)
                 {
                     const string dst_name = node_name(dfa_id_, iter_->first);
-                    stream_ << "    " << src_name << " -> " << dst_name <<
-                        R"( [label = <<TABLE BORDER="0" )"
-                        R"(CELLBORDER="0"><TR><TD>)";
+                    text("    ", stream_);
+                    stream_ << src_name;
+                    text(" -> ", stream_);
+                    stream_ << dst_name;
+                    text(R"( [label = <<TABLE BORDER="0" )"
+                        R"(CELLBORDER="0"><TR><TD>)", stream_);
 
                     string_token token_ = iter_->second;
 
@@ -207,13 +215,16 @@ namespace lexertl
 
                     dump_ranges(token_, stream_);
                     close_bracket(stream_);
-                    stream_ << "</TD></TR></TABLE>>];" << std::endl;
+                    text("</TD></TR></TABLE>>];\n", stream_);
                 }
 
                 if (dfas_ > 1 && state_._end_state) {
                     const string dst_name = node_name(state_._next_dfa, 0);
-                    stream_ << "    " << src_name << " -> " << dst_name
-                        << " [style = \"dashed\"];" << std::endl;
+                    text("    ", stream_);
+                    stream_ << src_name;
+                    text(" -> ", stream_);
+                    stream_ << dst_name;
+                    text(" [style = \"dashed\"];\n", stream_);
                 }
             }
         }
@@ -230,7 +241,7 @@ namespace lexertl
                 {
                     if (range.first + 1 < range.second)
                     {
-                        stream_ << '-';
+                        text("-", stream_);
                         hex_ = false;
                     }
 
@@ -239,30 +250,41 @@ namespace lexertl
             }
         }
 
+        // Streams only convert from char with a facet that there is not for
+        // char32_t
+        static void text(const char* str_, ostream& stream_)
+        {
+            while (*str_)
+            {
+                stream_ << static_cast<char_type>(*str_++);
+            }
+        }
+
         static void header(ostream& stream_)
         {
-            stream_ << "digraph DFAs {" << std::endl;
-            stream_ << "    rankdir = LR;" << std::endl;
+            text("digraph DFAs {\n", stream_);
+            text("    rankdir = LR;\n", stream_);
         }
 
         static void trailer(ostream& stream_)
         {
-            stream_ << "}" << std::endl;
+            text("}\n", stream_);
+            stream_.flush();
         }
 
         static void open_bracket(ostream& stream_)
         {
-            stream_ << "[";
+            text("[", stream_);
         }
 
         static void negated(ostream& stream_)
         {
-            stream_ << "^";
+            text("^", stream_);
         }
 
         static void close_bracket(ostream& stream_)
         {
-            stream_ << "]";
+            text("]", stream_);
         }
 
     };
-- 
2.43.0


From af6398accb2407b877002eae12b26f1e0c264725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:41 +0000
Subject: [PATCH 36/60] fix: utf output iterators within one character compared
 equal

---
 include/lexertl/utf_iterators.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index 1ec4ae2..33c1d3e 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -283,13 +283,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf8_out_iterator& operator ++()
@@ -329,13 +329,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
@@ -544,13 +545,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf16_out_iterator& operator ++()
@@ -590,13 +591,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
-- 
2.43.0


From 31de8b62a27af55c07ec6e237608a7566f43aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 37/60] fix: stream_shared_iterator.hpp did not compile on its
 own

---
 include/lexertl/stream_shared_iterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b91e5d5..f9e8b9b 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -9,6 +9,8 @@
 
 #include "runtime_error.hpp"
 
+#include <algorithm>
+#include <cstring>
 #include <istream>
 #include <iterator>
 #include <vector>
-- 
2.43.0


From f49c0fe1d674efb677c78843e54069184d21663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:44 +0000
Subject: [PATCH 38/60] fix: stream iterators refilled their buffer with an
 overlapping memcpy

---
 include/lexertl/stream_shared_iterator.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index f9e8b9b..efc32d4 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -10,7 +10,6 @@
 #include "runtime_error.hpp"
 
 #include <algorithm>
-#include <cstring>
 #include <istream>
 #include <iterator>
 #include <vector>
@@ -201,15 +200,14 @@ namespace lexertl
                 }
                 else
                 {
-                    // Some systems have memcpy in namespace std
-                    using namespace std;
-                    const size_t start_ = _buffer.size() - lowest_;
-                    const size_t len_ = _buffer.size() - start_;
+                    const std::size_t start_ = _buffer.size() - lowest_;
+                    const std::size_t len_ = _buffer.size() - start_;
 
-                    memcpy(&_buffer.front(), &_buffer[lowest_], start_ *
-                        sizeof(char_type));
+                    // The two ranges can overlap
+                    std::copy(_buffer.begin() + lowest_, _buffer.end(),
+                        _buffer.begin());
                     _stream.read(&_buffer.front() + start_, len_);
-                    read_ = static_cast<size_t>(_stream.gcount());
+                    read_ = static_cast<std::size_t>(_stream.gcount());
                     subtract(lowest_);
 
                     if (read_)
-- 
2.43.0


From 9d7948e4b2b0467841586cf018503cf3641c2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:44 +0000
Subject: [PATCH 39/60] fix: assigning stream iterators leaked or freed the
 shared buffer

---
 include/lexertl/stream_shared_iterator.hpp | 94 ++++++++++------------
 1 file changed, 41 insertions(+), 53 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index efc32d4..1ae353c 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -41,34 +41,14 @@ namespace lexertl
         }
 
         basic_stream_shared_iterator(const basic_stream_shared_iterator& rhs_) :
-            _index(rhs_._master ? rhs_._shared->lowest() : rhs_._index),
-            _shared(rhs_._shared)
+            _index(rhs_._master ? rhs_._shared->lowest() : rhs_._index)
         {
-            if (_shared)
-            {
-                // New copy of an iterator.
-                // The assumption is that any copy must be live
-                // even if the rhs is not (otherwise we will never
-                // have a record of the start of the current range!)
-                ++_shared->_ref_count;
-                _shared->_clients.push_back(this);
-                _live = true;
-            }
+            attach(rhs_._shared);
         }
 
         ~basic_stream_shared_iterator()
         {
-            if (_shared)
-            {
-                --_shared->_ref_count;
-                _shared->erase(this);
-
-                if (_shared->_ref_count == 0)
-                {
-                    delete _shared;
-                    _shared = nullptr;
-                }
-            }
+            detach();
         }
 
         basic_stream_shared_iterator& operator =
@@ -76,37 +56,14 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                _master = false;
-                _index = rhs_._master ? rhs_._shared->lowest() : rhs_._index;
-
-                if (!_live && !rhs_._live)
-                {
-                    if (rhs_._shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (!_live && rhs_._live)
-                {
-                    rhs_._shared->_clients.push_back(this);
-
-                    if (!_shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (_live && !rhs_._live)
-                {
-                    _shared->erase(this);
+                const std::size_t index_ = rhs_._master ?
+                    rhs_._shared->lowest() : rhs_._index;
 
-                    if (!rhs_._shared)
-                    {
-                        --_shared->_ref_count;
-                    }
-                }
-
-                _live = rhs_._live;
-                _shared = rhs_._shared;
+                // rhs_ keeps a buffer in common alive
+                detach();
+                _master = false;
+                _index = index_;
+                attach(rhs_._shared);
             }
 
             return *this;
@@ -302,6 +259,37 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        void attach(shared* shared_)
+        {
+            if (shared_)
+            {
+                // New copy of an iterator.
+                // The assumption is that any copy must be live
+                // even if the rhs is not (otherwise we will never
+                // have a record of the start of the current range!)
+                shared_->_clients.push_back(this);
+                ++shared_->_ref_count;
+                _shared = shared_;
+                _live = true;
+            }
+        }
+
+        void detach()
+        {
+            if (_shared)
+            {
+                _shared->erase(this);
+
+                if (--_shared->_ref_count == 0)
+                {
+                    delete _shared;
+                }
+
+                _shared = nullptr;
+                _live = false;
+            }
+        }
+
         void check_master()
         {
             if (!_shared)
-- 
2.43.0


From 96dd441e8da0420466e0f7f5901162eb4ca1727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:02 +0000
Subject: [PATCH 40/60] fix: unread stream iterators compared equal to the end,
 empty streams did not

---
 include/lexertl/stream_shared_iterator.hpp | 29 ++++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 1ae353c..0ecfe6f 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -41,7 +41,7 @@ namespace lexertl
         }
 
         basic_stream_shared_iterator(const basic_stream_shared_iterator& rhs_) :
-            _index(rhs_._master ? rhs_._shared->lowest() : rhs_._index)
+            _index(rhs_.position())
         {
             attach(rhs_._shared);
         }
@@ -56,8 +56,7 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                const std::size_t index_ = rhs_._master ?
-                    rhs_._shared->lowest() : rhs_._index;
+                const std::size_t index_ = rhs_.position();
 
                 // rhs_ keeps a buffer in common alive
                 detach();
@@ -72,11 +71,12 @@ namespace lexertl
         friend bool operator ==(const basic_stream_shared_iterator& lhs_,
             const basic_stream_shared_iterator& rhs_)
         {
-            return lhs_._index == rhs_._index &&
+            const std::size_t index_ = lhs_.position();
+
+            return index_ == rhs_.position() &&
                 (lhs_._shared == rhs_._shared ||
-                    (lhs_._index == shared::npos() ||
-                        rhs_._index == shared::npos()) &&
-                    (!lhs_._shared || !rhs_._shared));
+                    (index_ == shared::npos() &&
+                        (!lhs_._shared || !rhs_._shared)));
         }
 
         friend bool operator !=(const basic_stream_shared_iterator& lhs_,
@@ -213,6 +213,14 @@ namespace lexertl
                 return lowest_;
             }
 
+            // Where a copy of the master starts
+            std::size_t start() const
+            {
+                const std::size_t lowest_ = lowest();
+
+                return lowest_ < _len ? lowest_ : npos();
+            }
+
             std::size_t highest() const
             {
                 std::size_t highest_ = 0;
@@ -259,6 +267,11 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        std::size_t position() const
+        {
+            return _master ? _shared->start() : _index;
+        }
+
         void attach(shared* shared_)
         {
             if (shared_)
@@ -302,7 +315,7 @@ namespace lexertl
             {
                 _master = false;
                 _live = true;
-                _index = _shared->lowest();
+                _index = _shared->start();
             }
         }
 
-- 
2.43.0


From 3b36499994598a776a73e19d1d6c70d52eb81608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:20 +0000
Subject: [PATCH 41/60] fix: memory files leaked descriptors and part of wide
 mappings

---
 include/lexertl/memory_file.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d1c7768..266123d 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -46,10 +46,7 @@ namespace lexertl
 
         void open(const char* pathname_)
         {
-            if (_data)
-            {
-                close();
-            }
+            close();
 
 #ifdef _WIN32
             _fh = ::CreateFileA(pathname_, GENERIC_READ, FILE_SHARE_READ,
@@ -93,6 +90,7 @@ namespace lexertl
                     }
                     else
                     {
+                        _bytes = sbuf_.st_size;
                         _size = sbuf_.st_size / sizeof(char_type);
                     }
                 }
@@ -117,7 +115,8 @@ namespace lexertl
 #ifdef _WIN32
                 ::UnmapViewOfFile(_data);
 #else
-                ::munmap(const_cast<char_type*>(_data), _size);
+                ::munmap(const_cast<char_type*>(_data), _bytes);
+                _bytes = 0;
 #endif
                 _data = nullptr;
                 _size = 0;
@@ -134,10 +133,10 @@ namespace lexertl
 
             _fh = nullptr;
 #else
-            if (_fh)
+            if (_fh > -1)
                 ::close(_fh);
 
-            _fh = 0;
+            _fh = -1;
 #endif
         }
 
@@ -148,7 +147,8 @@ namespace lexertl
         HANDLE _fh = nullptr;
         HANDLE _fmh = nullptr;
 #else
-        int _fh = 0;
+        std::size_t _bytes = 0;
+        int _fh = -1;
 #endif
     };
 
-- 
2.43.0


From 13c584bf6ad2b63a1320eb8ed86f0f07f3166391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:01 +0000
Subject: [PATCH 42/60] fix: replace aborted on machines that push and pop

---
 include/lexertl/replace.hpp | 51 +++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7655f38..47478a0 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -24,7 +24,8 @@ namespace lexertl
         const std::basic_string<char_type, straits, salloc>& fmt_)
     {
         fwd_iter last_ = first_;
-        lexertl::match_results<fwd_iter, id_type> results_(first_, second_);
+        lexertl::recursive_match_results<fwd_iter, id_type>
+            results_(first_, second_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -48,7 +49,8 @@ namespace lexertl
         const std::map<id_type, std::basic_string<char_type, straits, salloc>>& fmt_)
     {
         fwd_iter last_ = first_;
-        lexertl::match_results<fwd_iter, id_type> results_(first_, second_);
+        lexertl::recursive_match_results<fwd_iter, id_type>
+            results_(first_, second_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -81,7 +83,8 @@ namespace lexertl
         typename std::basic_string<char_type, straits, salloc>::const_iterator&)>& fmt_)
     {
         fwd_iter last_ = first_;
-        lexertl::match_results<fwd_iter, id_type> results_(first_, second_);
+        lexertl::recursive_match_results<fwd_iter, id_type>
+            results_(first_, second_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -122,7 +125,8 @@ namespace lexertl
 
                 return fmt_;
             }();
-        lexertl::match_results<fwd_iter, id_type> results_(first_, second_);
+        lexertl::recursive_match_results<fwd_iter, id_type>
+            results_(first_, second_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -145,7 +149,8 @@ namespace lexertl
         const std::map<id_type, const char_type*> fmt_)
     {
         fwd_iter last_ = first_;
-        lexertl::match_results<fwd_iter, id_type> results_(first_, second_);
+        lexertl::recursive_match_results<fwd_iter, id_type>
+            results_(first_, second_);
         // Lookahead
         lexertl::lookup(sm_, results_);
 
@@ -185,7 +190,8 @@ namespace lexertl
         const char_type*(*)(fwd_iter, fwd_iter)> fmt_)
     {
         fwd_iter last_ = first_;
-        lexertl::match_results<fwd_iter, id_type> results_(first_, second_);
+        lexertl::recursive_match_results<fwd_iter, id_type>
+            results_(first_, second_);
         // Lookahead
         lexertl::lookup(sm_, results_);
 
@@ -230,7 +236,7 @@ namespace lexertl
     {
         std::basic_string<char_type, straits, salloc> ret_;
         const char_type* last_ = s_.c_str();
-        lexertl::match_results<const char_type*, id_type>
+        lexertl::recursive_match_results<const char_type*, id_type>
             results_(s_.c_str(), s_.c_str() + s_.size());
 
         // Lookahead
@@ -258,7 +264,7 @@ namespace lexertl
     {
         std::basic_string<char_type, straits, salloc> ret_;
         const char_type* last_ = s_.c_str();
-        lexertl::match_results<const char_type*, id_type>
+        lexertl::recursive_match_results<const char_type*, id_type>
             results_(s_.c_str(), s_.c_str() + s_.size());
 
         // Lookahead
@@ -298,8 +304,9 @@ namespace lexertl
         std::basic_string<char_type, straits, salloc> ret_;
         typename std::basic_string<char_type, straits, salloc>::
             const_iterator last_ = s_.begin();
-        lexertl::match_results<typename std::basic_string<char_type, straits,
-            salloc>::const_iterator, id_type>results_(s_.cbegin(), s_.cend());
+        lexertl::recursive_match_results<typename std::basic_string<char_type,
+            straits, salloc>::const_iterator, id_type>
+            results_(s_.cbegin(), s_.cend());
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -338,7 +345,7 @@ namespace lexertl
 
                 return fmt_;
             }();
-        lexertl::match_results<const char_type*, id_type>
+        lexertl::recursive_match_results<const char_type*, id_type>
             results_(s_.c_str(), s_.c_str() + s_.size());
 
         // Lookahead
@@ -364,7 +371,7 @@ namespace lexertl
     {
         std::basic_string<char_type, straits, salloc> ret_;
         const char_type* last_ = s_.c_str();
-        lexertl::match_results<const char_type*, id_type>
+        lexertl::recursive_match_results<const char_type*, id_type>
             results_(s_.c_str(), s_.c_str() + s_.size());
 
         // Lookahead
@@ -398,7 +405,7 @@ namespace lexertl
     {
         std::basic_string<char_type, straits, salloc> ret_;
         const char_type* last_ = s_.c_str();
-        lexertl::match_results<const char_type*, id_type>
+        lexertl::recursive_match_results<const char_type*, id_type>
             results_(s_.c_str(), s_.c_str() + s_.size());
 
         // Lookahead
@@ -438,7 +445,8 @@ namespace lexertl
                 return s_;
             }();
         const char_type* last_ = s_;
-        lexertl::match_results<const char_type*, id_type> results_(s_, end_s_);
+        lexertl::recursive_match_results<const char_type*, id_type>
+            results_(s_, end_s_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -471,7 +479,8 @@ namespace lexertl
                 return s_;
             }();
         const char_type* last_ = s_;
-        lexertl::match_results<const char_type*, id_type> results_(s_, end_s_);
+        lexertl::recursive_match_results<const char_type*, id_type>
+            results_(s_, end_s_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -512,7 +521,8 @@ namespace lexertl
                 return s_;
             }();
         const char_type* last_ = s_;
-        lexertl::match_results<const char_type*, id_type> results_(s_, end_s_);
+        lexertl::recursive_match_results<const char_type*, id_type>
+            results_(s_, end_s_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -551,7 +561,8 @@ namespace lexertl
                 return s_;
             }();
         const char_type* last_ = s_;
-        lexertl::match_results<const char_type*, id_type> results_(s_, end_s_);
+        lexertl::recursive_match_results<const char_type*, id_type>
+            results_(s_, end_s_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -583,7 +594,8 @@ namespace lexertl
                 return s_;
             }();
         const char_type* last_ = s_;
-        lexertl::match_results<const char_type*, id_type>results_(s_, end_s_);
+        lexertl::recursive_match_results<const char_type*, id_type>
+            results_(s_, end_s_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
@@ -623,7 +635,8 @@ namespace lexertl
                 return s_;
             }();
         const char_type* last_ = s_;
-        lexertl::match_results<const char_type*, id_type> results_(s_, end_s_);
+        lexertl::recursive_match_results<const char_type*, id_type>
+            results_(s_, end_s_);
 
         // Lookahead
         lexertl::lookup(sm_, results_);
-- 
2.43.0


From f6d8b3562b58e64e1c53c036d82e9226c36ff21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:01 +0000
Subject: [PATCH 43/60] fix: replace discarded the advanced output iterator

---
 include/lexertl/replace.hpp | 50 ++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 47478a0..56404e9 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -32,14 +32,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_.cbegin(), fmt_.cend(), out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_.cbegin(), fmt_.cend(), out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
-        return out_;
+        return std::copy(last_, results_.first, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type,
@@ -59,19 +58,18 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
-                std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
-        return out_;
+        return std::copy(last_, results_.first, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type,
@@ -93,23 +91,22 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const auto str_ = iter_->second(results_.first, results_.second);
 
-                std::copy(str_.cbegin(), str_.cend(), out_);
+                out_ = std::copy(str_.cbegin(), str_.cend(), out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
-        return out_;
+        return std::copy(last_, results_.first, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type>
@@ -133,14 +130,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_, end_fmt_, out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_, end_fmt_, out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
-        return out_;
+        return std::copy(last_, results_.first, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type>
@@ -158,10 +154,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* end_fmt_ = [end_ = iter_->second]() mutable
@@ -172,15 +168,14 @@ namespace lexertl
                         return end_;
                     }();
 
-                std::copy(iter_->second, end_fmt_, out_);
+                out_ = std::copy(iter_->second, end_fmt_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
-        return out_;
+        return std::copy(last_, results_.first, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type>
@@ -199,10 +194,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* str_ =
@@ -215,15 +210,14 @@ namespace lexertl
                         return str_;
                     }();
 
-                std::copy(str_, end_str_, out_);
+                out_ = std::copy(str_, end_str_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
-        return out_;
+        return std::copy(last_, results_.first, out_);
     }
 
     // String overloads
-- 
2.43.0


From e07bfec8174094c6317aa9c0a193313137837d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:01 +0000
Subject: [PATCH 44/60] fix: replace dropped an unfinished token at the end of
 the text

---
 include/lexertl/replace.hpp | 39 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 56404e9..9ecb671 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -38,7 +38,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        return std::copy(last_, results_.first, out_);
+        return std::copy(last_, results_.eoi, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type,
@@ -63,13 +63,14 @@ namespace lexertl
             if (iter_ == fmt_.cend())
                 out_ = std::copy(results_.first, results_.second, out_);
             else
-                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(),
+                    out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        return std::copy(last_, results_.first, out_);
+        return std::copy(last_, results_.eoi, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type,
@@ -106,7 +107,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        return std::copy(last_, results_.first, out_);
+        return std::copy(last_, results_.eoi, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type>
@@ -136,7 +137,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        return std::copy(last_, results_.first, out_);
+        return std::copy(last_, results_.eoi, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type>
@@ -175,7 +176,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        return std::copy(last_, results_.first, out_);
+        return std::copy(last_, results_.eoi, out_);
     }
 
     template<class out_iter, class fwd_iter, class id_type, class char_type>
@@ -217,7 +218,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        return std::copy(last_, results_.first, out_);
+        return std::copy(last_, results_.eoi, out_);
     }
 
     // String overloads
@@ -244,7 +245,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -279,7 +280,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -320,7 +321,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -353,7 +354,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -386,7 +387,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -420,7 +421,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -453,7 +454,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -494,7 +495,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -536,7 +537,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -569,7 +570,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -609,7 +610,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -650,7 +651,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 }
-- 
2.43.0


From dc03f7904848d014017cd5eda38034dea074f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:33 +0000
Subject: [PATCH 45/60] fix: subview did not compile for string iterators

---
 include/lexertl/match_results.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 20a66e1..7d63f49 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -75,7 +75,7 @@ namespace lexertl
         string_view subview(const std::size_t soffset_,
             const std::size_t eoffset_) const
         {
-            return string_view(first + soffset_,
+            return string_view(&*first + soffset_,
                 length() - soffset_ - eoffset_);
         }
 
-- 
2.43.0


From c98cba8cc2907c0bfd9214dbd2e58fea09cac02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 46/60] fix: viewing an empty result dereferenced its end

---
 include/lexertl/match_results.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 7d63f49..92a5fc2 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -69,13 +69,14 @@ namespace lexertl
         string_view view() const
         {
             // &* in case we are using string iterators
-            return string_view(&*first, length());
+            return first == second ? string_view() :
+                string_view(&*first, length());
         }
 
         string_view subview(const std::size_t soffset_,
             const std::size_t eoffset_) const
         {
-            return string_view(&*first + soffset_,
+            return view().substr(soffset_,
                 length() - soffset_ - eoffset_);
         }
 
-- 
2.43.0


From 7f3e8c8ede2b6c51aca6e2dbd9550060465efceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 47/60] fix: too many character sets for the id_type were not
 noticed

---
 include/lexertl/parser/parser.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 1ab86a5..77de110 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -745,18 +745,20 @@ namespace lexertl::detail
         id_type lookup(const string_token& charset_)
         {
             // Converted to id_type below.
-            std::size_t id_ = sm_traits::npos();
-
-            if (static_cast<id_type>(id_) < id_)
-            {
-                throw runtime_error("id_type is not large enough "
-                    "to hold all ids.");
-            }
+            std::size_t id_ = 0;
 
             if (auto iter_ = _charset_map.find(charset_);
                 iter_ == _charset_map.end())
             {
                 id_ = _charset_map.size();
+
+                // The ids from eol_token() upwards are reserved.
+                if (id_ >= eol_token())
+                {
+                    throw runtime_error("id_type is not large enough "
+                        "to hold all ids.");
+                }
+
                 _charset_map.insert(charset_pair(charset_,
                     static_cast<id_type>(id_)));
             }
-- 
2.43.0


From 88c32e075edaae30414b503d75694412cbca712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 48/60] fix: character machines were filled before counting the
 rows

---
 include/lexertl/generator.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index e642757..f2cd04b 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -86,14 +86,6 @@ namespace lexertl
                     check_zero_len(rules_, root_);
                     build_dfa(charset_map_, root_, internals_, temp_sm_, index_,
                         cr_id_, nl_id_, rules_.flags(), used_ids_);
-
-                    if (internals_._dfa[index_].size() /
-                        internals_._dfa_alphabet[index_] >= sm_traits::npos())
-                    {
-                        // Overflow
-                        throw runtime_error("The id_type you have chosen "
-                            "cannot hold this many DFA rows.");
-                    }
                 }
             }
 
@@ -300,6 +292,14 @@ namespace lexertl
 
             fix_clashes(eol_set_, cr_id_, nl_id_, zero_id_, dfa_, dfa_alphabet_,
                 compressed());
+
+            if (dfa_.size() / dfa_alphabet_ >= sm_traits::npos())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen "
+                    "cannot hold this many DFA rows.");
+            }
+
             append_dfa(charset_list_, internals_, sm_, dfa_index_, lookup());
         }
 
-- 
2.43.0


From 9ec1dfd43ad0c6314cb2926af8a133c12453bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 49/60] fix: rules were counted in the id_type when looking for
 unmatchable ones

---
 include/lexertl/generator.hpp            | 16 ++++++++--------
 include/lexertl/parser/parser.hpp        |  2 +-
 include/lexertl/parser/tree/end_node.hpp |  6 +++---
 include/lexertl/parser/tree/node.hpp     |  2 +-
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index f2cd04b..e071a38 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -54,8 +54,8 @@ namespace lexertl
             internals internals_;
             sm temp_sm_;
             node_ptr_vector node_ptr_vector_;
-            std::set<id_type> used_ids_;
-            id_type unique_id_ = 0;
+            std::set<std::size_t> used_ids_;
+            std::size_t unique_id_ = 0;
 
             internals_._eoi = rules_.eoi();
             internals_.add_states(size_);
@@ -99,7 +99,7 @@ namespace lexertl
         static observer_ptr<node> build_tree(const rules& rules_,
             const std::size_t dfa_, node_ptr_vector& node_ptr_vector_,
             charset_map& charset_map_, id_type& cr_id_, id_type& nl_id_,
-            id_type& unique_id_)
+            std::size_t& unique_id_)
         {
             parser parser_(rules_.locale(), node_ptr_vector_, charset_map_,
                 rules_.eoi());
@@ -185,7 +185,7 @@ namespace lexertl
         static void build_dfa(const charset_map& charset_map_,
             const observer_ptr<node> root_, internals& internals_, sm& sm_,
             const id_type dfa_index_, id_type& cr_id_, id_type& nl_id_,
-            const std::size_t flags_, std::set<id_type>& used_ids_)
+            const std::size_t flags_, std::set<std::size_t>& used_ids_)
         {
             // partitioned charset list
             charset_list charset_list_;
@@ -487,11 +487,11 @@ namespace lexertl
         }
 
         static void check_suppressed(const rules& rules_,
-            const id_type unique_id_, std::set<id_type>& used_ids_)
+            const std::size_t unique_id_, std::set<std::size_t>& used_ids_)
         {
             if (!(rules_.flags() & *regex_flags::allow_suppressed_rules))
             {
-                for (id_type id_ = 0; id_ < unique_id_; ++id_)
+                for (std::size_t id_ = 0; id_ < unique_id_; ++id_)
                 {
                     if (used_ids_.find(id_ + 1) == used_ids_.end())
                     {
@@ -820,7 +820,7 @@ namespace lexertl
             node_set_vector& seen_sets_, node_vector_vector& seen_vectors_,
             size_t_vector& hash_vector_, const id_type size_,
             id_type_vector& dfa_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             bool end_state_ = false;
             id_type id_ = 0;
@@ -896,7 +896,7 @@ namespace lexertl
             id_type& push_dfa_, bool& pop_dfa_, node_set& set_ptr_,
             node_vector& vector_ptr_, std::size_t& hash_,
             greedy_repeat& greedy_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             if (node_->end_state())
             {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 77de110..46f8546 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -91,7 +91,7 @@ namespace lexertl::detail
         }
 
         observer_ptr<node> parse(const token_vector& regex_, const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, id_type& cr_id_, id_type& nl_id_,
             const bool seen_bol_)
diff --git a/include/lexertl/parser/tree/end_node.hpp b/include/lexertl/parser/tree/end_node.hpp
index aa02515..97b2476 100644
--- a/include/lexertl/parser/tree/end_node.hpp
+++ b/include/lexertl/parser/tree/end_node.hpp
@@ -24,7 +24,7 @@ namespace lexertl::detail
         using node_vector = typename node::node_vector;
 
         basic_end_node(const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, const greedy_repeat greedy_) :
             node(false),
@@ -85,7 +85,7 @@ namespace lexertl::detail
             return _user_id;
         }
 
-        id_type unique_id() const override
+        std::size_t unique_id() const override
         {
             return _unique_id;
         }
@@ -108,7 +108,7 @@ namespace lexertl::detail
     private:
         id_type _id;
         id_type _user_id;
-        id_type _unique_id;
+        std::size_t _unique_id;
         id_type _next_dfa;
         id_type _push_dfa;
         bool _pop_dfa;
diff --git a/include/lexertl/parser/tree/node.hpp b/include/lexertl/parser/tree/node.hpp
index ae68c1f..ec8ad1c 100644
--- a/include/lexertl/parser/tree/node.hpp
+++ b/include/lexertl/parser/tree/node.hpp
@@ -147,7 +147,7 @@ namespace lexertl::detail
 #endif
         }
 
-        virtual id_type unique_id() const
+        virtual std::size_t unique_id() const
         {
             throw runtime_error("Internal error node::unique_id().");
 #ifdef __SUNPRO_CC
-- 
2.43.0


From 41c2ccffda87b9df9614c45d020eb605b574cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 50/60] fix: non-deterministic character machines kept one of
 several paths with the same charset

---
 include/lexertl/generator.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index e071a38..523db57 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -927,7 +927,32 @@ namespace lexertl
             const index_set_vector& set_mapping_, equivset_list& lhs_,
             const std::false_type&)
         {
-            fill_rhs_list(vector_, set_mapping_, lhs_);
+            equivset_list rhs_;
+
+            fill_rhs_list(vector_, set_mapping_, rhs_);
+
+            // There is one transition per charset (and one for each of ^
+            // and $), so the positions sharing it have to be merged.
+            for (auto& r_ : rhs_)
+            {
+                auto iter_ = std::find_if(lhs_.begin(), lhs_.end(),
+                    [&r_](const equivset_ptr& l_)
+                    {
+                        return l_->_index_vector == r_->_index_vector;
+                    });
+
+                if (iter_ == lhs_.end())
+                {
+                    lhs_.push_back(std::move(r_));
+                }
+                else
+                {
+                    equivset_ptr overlap_ = std::make_unique<equivset>();
+
+                    (*iter_)->intersect(*r_, *overlap_);
+                    *iter_ = std::move(overlap_);
+                }
+            }
         }
 
         // DFA version
-- 
2.43.0


From 56132b379725efbb7c2dbae92173383671eb49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 51/60] fix: the locale and format of the stream changed the
 numbers in generated code

---
 include/lexertl/generate_cpp.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 5fc3b5c..4b153f7 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -11,6 +11,7 @@
 #include "state_machine.hpp"
 
 #include <ios>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -24,12 +25,17 @@ namespace lexertl
         static void generate
         (const std::string& name_,
             const basic_state_machine<char_type, id_type>& sm_,
-            const bool pointers_, std::ostream& os_)
+            const bool pointers_, std::ostream& stream_)
         {
             using sm = basic_state_machine<char_type, id_type>;
             using internals = typename sm::internals;
             const internals& internals_ = sm_.data();
             std::size_t additional_tabs_ = 0;
+            // The locale and format of stream_ must not
+            // affect the numbers in the generated code.
+            std::ostringstream os_;
+
+            os_.imbue(std::locale::classic());
 
             os_ << "template<typename iter_type, typename id_type>\n";
             os_ << "void " << name_ << " (lexertl::";
@@ -675,6 +681,7 @@ namespace lexertl
             os_ << "    results_.id = id_;\n";
             os_ << "    results_.user_id = uid_;\n";
             os_ << "}\n";
+            stream_ << os_.str();
         }
 
         template<typename char_type, typename id_type>
@@ -808,10 +815,7 @@ namespace lexertl
 
                 if (dfas_ > 1)
                 {
-                    std::ostringstream ss_;
-
-                    ss_ << dfa_;
-                    dfa_name_ += ss_.str();
+                    dfa_name_ += std::to_string(dfa_);
                     // The previous table leaves the stream printing hex.
                     os_ << std::dec << dfa_;
                 }
-- 
2.43.0


From e1603f6a73ac630a87c8c241775d50978d7588ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 52/60] fix: machines saved under one locale or format could
 not be loaded under another

---
 include/lexertl/serialise.hpp | 40 +++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 2f8aef0..d09cfb5 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -11,6 +11,7 @@
 #include "state_machine.hpp"
 
 #include <cstddef>
+#include <ios>
 #include <string>
 #include <vector>
 
@@ -18,12 +19,21 @@ namespace lexertl
 {
     namespace detail
     {
+        // Numbers are written and read the same way
+        // whatever the locale and format of the stream.
+        template<class stream>
+        void output_num(const std::size_t num_, stream& stream_)
+        {
+            stream_ << std::to_string(num_).c_str();
+        }
+
         template<typename char_type, typename id_type, class stream>
         void output_vec(const std::vector<id_type>& vec_, stream& stream_)
         {
             std::size_t line_len_ = 0;
 
-            stream_ << vec_.size() << '\n';
+            output_num(vec_.size(), stream_);
+            stream_ << '\n';
 
             for (const id_type l_ : vec_)
             {
@@ -37,7 +47,8 @@ namespace lexertl
                     line_len_ = 0;
                 }
 
-                stream_ << id_ << ' ';
+                output_num(id_, stream_);
+                stream_ << ' ';
                 line_len_ += len_;
             }
 
@@ -49,7 +60,11 @@ namespace lexertl
         {
             std::size_t num_ = 0;
 
+            const auto flags_ = stream_.flags(std::ios_base::dec |
+                std::ios_base::skipws);
+
             stream_ >> num_;
+            stream_.flags(flags_);
 
             // Every number is followed by white space, so eof
             // means that the data has been cut short.
@@ -82,11 +97,16 @@ namespace lexertl
         const internals& internals_ = sm_.data();
 
         // Version number
-        stream_ << 1 << '\n';
-        stream_ << sizeof(char_type) << '\n';
-        stream_ << sizeof(id_type) << '\n';
-        stream_ << static_cast<std::size_t>(internals_._eoi) << '\n';
-        stream_ << internals_._lookup.size() << '\n';
+        detail::output_num(1, stream_);
+        stream_ << '\n';
+        detail::output_num(sizeof(char_type), stream_);
+        stream_ << '\n';
+        detail::output_num(sizeof(id_type), stream_);
+        stream_ << '\n';
+        detail::output_num(internals_._eoi, stream_);
+        stream_ << '\n';
+        detail::output_num(internals_._lookup.size(), stream_);
+        stream_ << '\n';
 
         for (const auto& vec_ : internals_._lookup)
         {
@@ -94,8 +114,10 @@ namespace lexertl
         }
 
         detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << static_cast<std::size_t>(internals_._features) << '\n';
-        stream_ << internals_._dfa.size() << '\n';
+        detail::output_num(internals_._features, stream_);
+        stream_ << '\n';
+        detail::output_num(internals_._dfa.size(), stream_);
+        stream_ << '\n';
 
         for (const auto& vec_ : internals_._dfa)
         {
-- 
2.43.0


From 526857fc2b630583441e33304c963a856fb5632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 53/60] fix: dumps grouped the digits of numbers under some
 locales

---
 include/lexertl/stream_num.hpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/lexertl/stream_num.hpp b/include/lexertl/stream_num.hpp
index 6d6247a..4dcf91e 100644
--- a/include/lexertl/stream_num.hpp
+++ b/include/lexertl/stream_num.hpp
@@ -6,39 +6,30 @@
 #ifndef LEXERTL_STREAM_NUM_HPP
 #define LEXERTL_STREAM_NUM_HPP
 
+#include <locale>
 #include <ostream>
 #include <sstream>
 #include <string>
 
 namespace lexertl
 {
-    template<typename T>
-    void stream_num(const T num_, std::ostream& ss_)
-    {
-        ss_ << num_;
-    }
-
-    template<typename T>
-    void stream_num(const T num_, std::wostream& ss_)
-    {
-        ss_ << num_;
-    }
-
     // MSVC doesn't support streaming integers etc to
     // std::basic_ostringstream<char32_t>.
-    template<typename T>
-    void stream_num(const T num_, std::basic_ostream<char32_t>& ss_)
+    // Digits must not be grouped, whatever the locale.
+    template<typename T, typename char_type>
+    void stream_num(const T num_, std::basic_ostream<char_type>& ss_)
     {
         std::stringstream css_;
         std::string count_;
 
+        css_.imbue(std::locale::classic());
         css_.flags(ss_.flags());
         css_ << num_;
         count_ = css_.str();
 
         for (char c_ : count_)
         {
-            ss_ << static_cast<char32_t>(c_);
+            ss_ << static_cast<char_type>(c_);
         }
     }
 }
-- 
2.43.0


From 554bb9b7b1e0db46ccda76ec03a0c131571509e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 54/60] fix: dumping rules did not compile

---
 include/lexertl/parser/tokeniser/re_token.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 53a208b..dfff823 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -54,6 +54,13 @@ namespace lexertl::detail
             _str.swap(rhs_._str);
         }
 
+        friend bool operator ==(const basic_re_token& lhs_,
+            const basic_re_token& rhs_)
+        {
+            return lhs_._type == rhs_._type && lhs_._extra == rhs_._extra &&
+                lhs_._str == rhs_._str;
+        }
+
         char precedence(const token_type type_) const
         {
             // Moved in here for Solaris compiler.
-- 
2.43.0


From 061c5436535a779cbfbc805061a02122eb17efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 55/60] fix: dumped rules left special characters unescaped and
 ran escapes together

---
 include/lexertl/debug.hpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 2d5712f..a165b88 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -60,9 +60,11 @@ namespace lexertl
             {
                 stream_ << pair_.first << static_cast<char_type>(' ');
 
+                bool hex_ = false;
+
                 for (const auto& token_ : pair_.second)
                 {
-                    dump_token(token_, stream_);
+                    dump_token(token_, hex_, stream_);
                 }
 
                 newline(stream_);
@@ -86,6 +88,7 @@ namespace lexertl
                     const bool pop_ = *pop_iter_++;
                     auto regexes_iter_ = regex_.cbegin();
                     auto regexes_end_ = regex_.cend();
+                    bool hex_ = false;
 
                     if (const bool initial_ = state_ == dfa_ && state_ == 0;
                         push_state_ != rules_.npos() || pop_ || !initial_)
@@ -97,7 +100,7 @@ namespace lexertl
 
                     for (; regexes_iter_ != regexes_end_; ++regexes_iter_)
                     {
-                        dump_token(*regexes_iter_, stream_);
+                        dump_token(*regexes_iter_, hex_, stream_);
                     }
 
                     stream_ << static_cast<char_type>(' ') <<
@@ -376,22 +379,29 @@ namespace lexertl
         static void dump_transition(const id_type_string_token_pair& tran_,
             ostream& stream_)
         {
+            bool hex_ = false;
+
             indent(stream_);
-            dump_charset(tran_.second, stream_);
+            dump_charset(tran_.second, hex_, stream_);
             goes_to(stream_);
             stream_num(static_cast<std::size_t>(tran_.first), stream_);
             newline(stream_);
         }
 
-        static void dump_token(const token& token_, ostream& stream_)
+        // hex_ is set when the preceding char ended with a hex escape
+        static void dump_token(const token& token_, bool& hex_,
+            ostream& stream_)
         {
+            if (token_._type != lexertl::detail::token_type::CHARSET)
+                hex_ = false;
+
             switch (token_._type)
             {
             case lexertl::detail::token_type::OR:
                 stream_ << static_cast<char_type>('|');
                 break;
             case lexertl::detail::token_type::CHARSET:
-                dump_charset(token_._str, stream_);
+                dump_charset(token_._str, hex_, stream_);
                 break;
             case lexertl::detail::token_type::BOL:
                 stream_ << static_cast<char_type>('^');
@@ -446,7 +456,7 @@ namespace lexertl
         }
 
         static void dump_charset(const string_token& in_token_,
-            ostream& stream_)
+            bool& hex_, ostream& stream_)
         {
             string_token token_ = in_token_;
             bool negated_ = false;
@@ -455,6 +465,7 @@ namespace lexertl
                 token_._ranges.front().first != token_._ranges.front().second)
             {
                 open_bracket(stream_);
+                hex_ = false;
             }
             else
             {
@@ -473,6 +484,10 @@ namespace lexertl
                 case static_cast<char_type>('['):
                 case static_cast<char_type>('.'):
                 case static_cast<char_type>('/'):
+                case static_cast<char_type>('$'):
+                case static_cast<char_type>('<'):
+                case static_cast<char_type>('%'):
+                case static_cast<char_type>(' '):
                     stream_ << static_cast<char_type>('\\');
                     break;
                 default:
@@ -487,8 +502,6 @@ namespace lexertl
                 negated_ = true;
             }
 
-            bool hex_ = false;
-
             for (const auto& range_ : token_._ranges)
             {
                 dump_char(range_.first, hex_, stream_);
@@ -509,6 +522,7 @@ namespace lexertl
                 token_._ranges.front().first != token_._ranges.front().second)
             {
                 close_bracket(stream_);
+                hex_ = false;
             }
         }
 
@@ -520,7 +534,7 @@ namespace lexertl
             if (hex_ && ((ch_ >= '0' && ch_ <= '9') ||
                 (ch_ >= 'A' && ch_ <= 'F') || (ch_ >= 'a' && ch_ <= 'f')))
             {
-                // Would be read as part of the preceding hex escape
+                // Would be read as part of the preceding escape
                 stringstream ss_;
 
                 chars_ = { static_cast<char_type>('\\'),
@@ -534,8 +548,9 @@ namespace lexertl
                 stream_ << static_cast<char_type>('\\');
             }
 
-            hex_ = chars_.size() > 2 &&
-                chars_[1] == static_cast<char_type>('x');
+            // \0 can be followed by more octal digits
+            hex_ = ch_ == 0 || (chars_.size() > 2 &&
+                chars_[1] == static_cast<char_type>('x'));
             stream_ << chars_;
         }
 
-- 
2.43.0


From b04e2b19b48a4ff79b3d8049780d50beb79f4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 56/60] fix: dumped rules lost the state that a push returns to

---
 include/lexertl/debug.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index a165b88..7771462 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -108,7 +108,7 @@ namespace lexertl
 
                     if (push_state_ != rules_.npos())
                     {
-                        if (push_state_ && push_state_ != dfa_)
+                        if (push_state_ != state_)
                         {
                             Begin(stream_);
                             stream_ << rules_.state(push_state_);
-- 
2.43.0


From e2a38adefc191e0ae67f575c6834cc1141eb4cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 57/60] fix: a repeat count beyond the range of size_t wrapped
 round to a small one

---
 .../lexertl/parser/tokeniser/re_tokeniser.hpp | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index 9afc494..8e3fb5f 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -547,6 +547,25 @@ namespace lexertl::detail
             }
         }
 
+        static void add_digit(state& state_, const rules_char_type ch_,
+            std::size_t& count_)
+        {
+            const std::size_t digit_ = static_cast<std::size_t>(ch_) - '0';
+
+            if (count_ > (static_cast<std::size_t>(~0) - digit_) / 10)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "Repeat count too large preceding index " <<
+                    state_.index();
+                state_.error(ss_);
+                throw runtime_error(ss_.str());
+            }
+
+            count_ *= 10;
+            count_ += digit_;
+        }
+
         // SYNTAX:
         //   {n[,[n]]}
         // SEMANTIC RULES:
@@ -557,6 +576,7 @@ namespace lexertl::detail
         //   {1,} = +
         //   {min,max} where min == max - {min}
         //   {min,max} where max < min - INVALID (throw exception)
+        //   A count that does not fit std::size_t - INVALID (throw exception)
         static void repeat_n(state& state_, re_token& token_)
         {
             rules_char_type ch_ = 0;
@@ -566,8 +586,7 @@ namespace lexertl::detail
 
             while (!eos_ && ch_ >= '0' && ch_ <= '9')
             {
-                min_ *= 10;
-                min_ += static_cast<std::size_t>(ch_) - '0';
+                add_digit(state_, ch_, min_);
                 token_._extra += ch_;
                 eos_ = state_.next(ch_);
             }
@@ -633,8 +652,7 @@ namespace lexertl::detail
 
                     do
                     {
-                        max_ *= 10;
-                        max_ += static_cast<std::size_t>(ch_) - '0';
+                        add_digit(state_, ch_, max_);
                         token_._extra += ch_;
                         eos_ = state_.next(ch_);
                     } while (!eos_ && ch_ >= '0' && ch_ <= '9');
-- 
2.43.0


From f72c7933dca11fda0cca1119b56adf9105d7b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 58/60] fix: error for {-} or {+} without a set before it
 quoted the rest of the regex

---
 include/lexertl/parser/tokeniser/re_tokeniser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index 8e3fb5f..774e858 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -506,9 +506,9 @@ namespace lexertl::detail
                 {
                     std::ostringstream ss_;
 
-                    ss_ << "CHARSET must precede {";
-                    narrow(state_._curr, ss_);
-                    ss_ << "} at index " << state_.index() - 1;
+                    ss_ << "CHARSET must precede {" <<
+                        static_cast<char>(*state_._curr) <<
+                        "} at index " << state_.index() - 1;
                     state_.error(ss_);
                     throw runtime_error(ss_.str());
                 }
-- 
2.43.0


From ad70694ba10bf0a41b1efcef134f444dd647d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 59/60] fix: a rule ending with a newline or before one did not
 match at the end of input

---
 include/lexertl/generator.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 523db57..e450694 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -349,7 +349,7 @@ namespace lexertl
 
             while (nl_iter_ != end_)
             {
-                if (is_newline(*nl_iter_, cr_id_, nl_id_, set_mapping_))
+                if (is_clash(*iter_, *nl_iter_, cr_id_, nl_id_, set_mapping_))
                 {
                     // This might be suppressing additional paths
                     // but we should be erroring out anyway.
@@ -367,9 +367,6 @@ namespace lexertl
             const id_type cr_id_, const id_type nl_id_,
             const index_set_vector& set_mapping_)
         {
-            if (!is_newline(*iter_, cr_id_, nl_id_, set_mapping_))
-                return;
-
             // Search for any EOL tokens
             auto eol_iter_ = iter_;
 
@@ -378,7 +375,9 @@ namespace lexertl
             while (eol_iter_ != end_)
             {
                 if (!(*eol_iter_)->end_state() &&
-                    (*eol_iter_)->token() == parser::eol_token())
+                    (*eol_iter_)->token() == parser::eol_token() &&
+                    is_clash(*eol_iter_, *iter_, cr_id_, nl_id_,
+                        set_mapping_))
                 {
                     eol_iter_ = followpos_.erase(eol_iter_);
                     end_ = followpos_.end();
@@ -390,15 +389,22 @@ namespace lexertl
 
         // True if node_ is precisely NL (or CR then NL) followed by an end
         // state. A charset that merely includes NL is not a clash: its other
-        // characters must remain matchable.
-        static bool is_newline(observer_ptr<node> node_, const id_type cr_id_,
+        // characters must remain matchable. Nor is NL as an alternative to $
+        // in one rule, i.e. where both are followed by the same end state.
+        static bool is_clash(observer_ptr<node> eol_node_,
+            observer_ptr<node> node_, const id_type cr_id_,
             const id_type nl_id_, const index_set_vector& set_mapping_)
         {
             if (is_only(node_, nl_id_, set_mapping_))
             {
+                const auto& eol_followpos_ = eol_node_->followpos();
+
                 for (observer_ptr<node> end_node_ : node_->followpos())
                 {
-                    if (end_node_->end_state())
+                    if (end_node_->end_state() &&
+                        std::find(eol_followpos_.begin(),
+                            eol_followpos_.end(), end_node_) ==
+                        eol_followpos_.end())
                         return true;
                 }
             }
@@ -407,7 +413,8 @@ namespace lexertl
                 for (observer_ptr<node> nl_node_ : node_->followpos())
                 {
                     if (is_only(nl_node_, nl_id_, set_mapping_) &&
-                        is_newline(nl_node_, cr_id_, nl_id_, set_mapping_))
+                        is_clash(eol_node_, nl_node_, cr_id_, nl_id_,
+                            set_mapping_))
                         return true;
                 }
             }
-- 
2.43.0


From 927620e14ba4d494078ea87b4ab3767051ba0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:33 +0000
Subject: [PATCH 60/60] fix: a repeat followed by ? across a macro or space hit
 an assertion

---
 include/lexertl/parser/tokeniser/re_token.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index dfff823..a41c7de 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -83,13 +83,13 @@ namespace lexertl::detail
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*  )  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* ??  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* *?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* +?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* n,m?*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* END */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '
             };
-- 
2.43.0

