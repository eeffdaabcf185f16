From 55175abc6d10a5c0b46fe47be66d755e23eba865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 01/24] fix: keep skipping unmatched text when a scan resumes
 with more input

A scan that ran out of input while skipping to the next possible token start
resumed from the DFA state of the abandoned token, so the result depended on
where the input was split. A null state now marks that the scan was skipping
(it also makes a schema without variables usable, as its DFA has no state
after the start of the file).
---
 src/log_surgeon/Lexer.tpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8a8aeb3..af76922 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -72,6 +72,18 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_prev_state = state;
             return err;
         }
+        if (nullptr == state) {
+            // Resume skipping to the next character that can start a token
+            if (false == input_buffer.log_fully_consumed()
+                && (m_is_first_char[next_char] == false || m_is_delimiter[next_char] == false))
+            {
+                continue;
+            }
+            input_buffer.set_pos(prev_byte_buf_pos);
+            m_start_pos = prev_byte_buf_pos;
+            state = m_dfa->get_root();
+            continue;
+        }
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
             && state->is_accepting())
         {
@@ -151,8 +163,9 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                 if (ErrorCode err = input_buffer.get_next_character(next_char);
                     ErrorCode::Success != err)
                 {
+                    // No state represents having skipped part of the input
                     m_asked_for_more_data = true;
-                    m_prev_state = state;
+                    m_prev_state = nullptr;
                     return err;
                 }
             }
-- 
2.43.0


From bc77afa775c8ca1da0bd848b73a80899bd6a24fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 02/24] fix: relocate positions at a buffer boundary correctly
 when the input grows

A position equal to the wrap point can be the start or the end of the full
buffer. The end of a match is always the end, and the start of the current
token is the end only if no input has been scanned since.
---
 src/log_surgeon/Lexer.tpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index af76922..1b8e3bf 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -19,14 +19,13 @@
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
 void Lexer<NFAStateType, DFAStateType>::flip_states(uint32_t old_storage_size) {
-    if (m_match_pos >= old_storage_size / 2) {
+    // The end of a match can be the end of the old storage, but cannot be its start
+    if (m_match_pos > old_storage_size / 2) {
         m_match_pos -= old_storage_size / 2;
     } else {
         m_match_pos += old_storage_size / 2;
     }
-    // TODO when m_start_pos == old_storage_size / 2, theres two possible cases
-    // currently so both options are potentially wrong
-    if (m_start_pos > old_storage_size / 2) {
+    if (m_start_pos >= old_storage_size / 2) {
         m_start_pos -= old_storage_size / 2;
     } else {
         m_start_pos += old_storage_size / 2;
@@ -321,8 +320,12 @@ auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuff
     if (old_storage_size < input_buffer.storage().size()) {
         if (flipped_static_buffer) {
             flip_states(old_storage_size);
+        } else if (0 == m_match_pos) {
+            m_match_pos = old_storage_size;
         }
-        if (0 == m_last_match_pos) {
+        // If no input was scanned since the last match, then it ended where the old storage ended.
+        // Otherwise, it ended where the old storage started.
+        if (0 == m_last_match_pos && m_dfa->get_root() == m_prev_state) {
             m_last_match_pos = old_storage_size;
             m_start_pos = old_storage_size;
         }
-- 
2.43.0


From 7fa3847e02a4f691f6c063170faacf70c066e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 03/24] fix: set the consumed position to the last consumed
 character

On a newline the position after the event was used, and position 0 was never
treated as consumed, so an event starting at position 1 of the buffer made the
buffer double without ever reading again until memory ran out.
---
 src/log_surgeon/LogParser.cpp         | 7 ++++++-
 src/log_surgeon/ParserInputBuffer.cpp | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b98e712..7c14c6f 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -245,7 +245,12 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-            m_input_buffer.set_consumed_pos(output_buffer->get_curr_token().m_end_pos);
+            auto const end_pos = output_buffer->get_curr_token().m_end_pos;
+            if (0 == end_pos) {
+                m_input_buffer.set_consumed_pos(m_input_buffer.storage().size() - 1);
+            } else {
+                m_input_buffer.set_consumed_pos(end_pos - 1);
+            }
             output_buffer->advance_to_next_token();
             parsing_action = ParsingAction::Compress;
             return ErrorCode::Success;
diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 15fde34..b39056e 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -25,7 +25,7 @@ auto ParserInputBuffer::read_is_safe() -> bool {
     // Check if the last log message ends in the buffer half last read.
     // This means the other half of the buffer has already been fully used.
     if ((!m_last_read_first_half && m_consumed_pos > m_storage.size() / 2)
-        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2 && m_consumed_pos > 0))
+        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2))
     {
         return true;
     }
-- 
2.43.0


From 84cd40dcd7a6ab16c1d8fa7b79067dd91937aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 04/24] fix: forget the start of the next log event when the
 log parser is reset

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 7c14c6f..d4c7a5a 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -158,6 +158,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 auto LogParser::reset() -> void {
     m_input_buffer.reset();
     m_lexer.reset();
+    m_has_start_of_log = false;
     m_lexer.prepend_start_of_file_char(m_input_buffer);
 }
 
-- 
2.43.0


From 52aaf8ba862e5ab4b0be34ceba65d3aabf1c0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 05/24] fix: return the offset of the first token of an
 incomplete event without a timestamp

---
 src/log_surgeon/BufferParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 292029e..51291d1 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -32,10 +32,10 @@ auto BufferParser::parse_next_event(
     LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
     ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
-        if (0 != m_log_parser.get_log_event_view().m_log_output_buffer->pos()) {
-            offset = m_log_parser.get_log_event_view()
-                             .m_log_output_buffer->get_token(0)
-                             .m_start_pos;
+        auto const& output_buffer = m_log_parser.get_log_event_view().m_log_output_buffer;
+        if (0 != output_buffer->pos()) {
+            // Without a timestamp the first token is at index 1
+            offset = output_buffer->get_token(output_buffer->has_timestamp() ? 0 : 1).m_start_pos;
         }
         reset();
         return error_code;
-- 
2.43.0


From 47ce9e65abf99537355f0ca9e33019cc44541762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 06/24] fix: keep the position of the tokens when copying an
 event without a timestamp

---
 src/log_surgeon/LogEvent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 709e62c..c3c9b6f 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -83,6 +83,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         throw std::runtime_error("token buffer_size <= 0");
     }
     m_buffer.resize(buffer_size);
+    m_log_output_buffer->set_pos(start);
     uint32_t curr_pos = 0;
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token& token = src.get_log_output_buffer()->get_mutable_token(i);
@@ -102,7 +103,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         m_log_output_buffer->set_curr_token(copied_token);
         m_log_output_buffer->advance_to_next_token();
     }
-    for (uint32_t i = 0; i < get_log_output_buffer()->pos(); i++) {
+    for (uint32_t i = start; i < get_log_output_buffer()->pos(); i++) {
         Token& token = get_log_output_buffer()->get_mutable_token(i);
         auto const& token_types = *token.m_type_ids_ptr;
         add_token(token_types[0], &token);
-- 
2.43.0


From 620bf21b94eb19154819f184b096124a262f6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 07/24] fix: continue reading a schema string where the last
 read ended

---
 src/log_surgeon/SchemaParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5676026..7e099cc 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -84,8 +84,8 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
 }
 
 auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_ptr<SchemaAST> {
+    uint32_t unparsed_string_pos = 0;
     Reader reader{[&](char* dst_buf, size_t count, size_t& read_to) -> ErrorCode {
-        uint32_t unparsed_string_pos = 0;
         std::span<char> const buf{dst_buf, count};
         if (unparsed_string_pos + count > schema_string.length()) {
             count = schema_string.length() - unparsed_string_pos;
-- 
2.43.0


From 1cd589dc5fde4d351287cbd7f0ffccf38a6a9fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 08/24] fix: complement an empty set of ranges to all
 characters

Also add no inverted range if the ranges end at the largest character.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index beeb588..5e29564 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1053,7 +1053,7 @@ auto RegexASTGroup<NFAStateType>::complement(std::vector<Range> const& ranges
         }
         low = end + 1;
     }
-    if (low > 0) {
+    if (low <= cUnicodeMax) {
         complemented.emplace_back(low, cUnicodeMax);
     }
     return complemented;
-- 
2.43.0


From c3bafcbc90b80b3d8e05a64726214c1a6f8ecc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 09/24] fix: match only the repetition of the same alternative

Both alternatives of an Or shared an end state. If one of them repeats at that
state, the repetition could follow the other alternative, e.g., `a+|b` matched
`ba`.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 47 +++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 5e29564..020fe66 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -77,6 +77,12 @@ public:
      */
     virtual auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void = 0;
 
+    /**
+     * @return Whether `add_to_nfa` adds transitions that start at the `end_state` it is given, i.e.,
+     * whether more input can be matched after reaching `end_state`.
+     */
+    [[nodiscard]] virtual auto repeats_at_end_state() const -> bool { return false; }
+
     /**
      * Serializes the AST with this node as the root.
      * @return A string representing the serialized AST.
@@ -121,6 +127,14 @@ public:
         }
     }
 
+    /**
+     * @return Whether `add_to_nfa_with_negative_tags` adds transitions that start at the `end_state`
+     * it is given.
+     */
+    [[nodiscard]] auto repeats_at_end_state_with_negative_tags() const -> bool {
+        return m_negative_tags.empty() && repeats_at_end_state();
+    }
+
 protected:
     RegexAST(RegexAST const& rhs) = default;
     auto operator=(RegexAST const& rhs) -> RegexAST& = default;
@@ -483,6 +497,27 @@ public:
     [[nodiscard]] auto get_right() const -> RegexAST<NFAStateType> const* { return m_right.get(); }
 
 private:
+    /**
+     * Adds one of the alternatives to the NFA. An alternative that may repeat at its end state gets
+     * an end state of its own, as the other alternative cannot be followed by the repetition.
+     * @param alternative
+     * @param nfa
+     * @param end_state
+     */
+    static auto add_alternative_to_nfa(
+            RegexAST<NFAStateType> const& alternative,
+            RegexNFA<NFAStateType>* nfa,
+            NFAStateType* end_state
+    ) -> void {
+        if (alternative.repeats_at_end_state_with_negative_tags()) {
+            NFAStateType* alternative_end_state = nfa->new_state();
+            alternative_end_state->add_epsilon_transition(end_state);
+            alternative.add_to_nfa_with_negative_tags(nfa, alternative_end_state);
+        } else {
+            alternative.add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    }
+
     std::unique_ptr<RegexAST<NFAStateType>> m_left;
     std::unique_ptr<RegexAST<NFAStateType>> m_right;
 };
@@ -539,6 +574,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto repeats_at_end_state() const -> bool override {
+        return m_right->repeats_at_end_state_with_negative_tags();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto get_left() const -> RegexAST<NFAStateType> const* { return m_left.get(); }
@@ -603,6 +642,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto repeats_at_end_state() const -> bool override {
+        return is_infinite() || m_operand->repeats_at_end_state_with_negative_tags();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto is_infinite() const -> bool { return this->m_max == 0; }
@@ -783,8 +826,8 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 template <typename NFAStateType>
 void RegexASTOr<NFAStateType>::add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
         const {
-    m_left->add_to_nfa_with_negative_tags(nfa, end_state);
-    m_right->add_to_nfa_with_negative_tags(nfa, end_state);
+    add_alternative_to_nfa(*m_left, nfa, end_state);
+    add_alternative_to_nfa(*m_right, nfa, end_state);
 }
 
 template <typename NFAStateType>
-- 
2.43.0


From 2d296d8182c6ad32f3694f615b2d92826b51353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 10/24] fix: let an empty regex match the empty string

`R*` and `R{0,N}` are parsed into `()|R+` and `()|R{1,N}`. As the empty
alternative was not added to the NFA they never matched without an `R`.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 020fe66..f094d3b 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -192,10 +192,10 @@ public:
     }
 
     auto add_to_nfa(
-            [[maybe_unused]] RegexNFA<NFAStateType>* nfa,
-            [[maybe_unused]] NFAStateType* end_state
+            RegexNFA<NFAStateType>* nfa,
+            NFAStateType* end_state
     ) const -> void override {
-        // Do nothing as adding an empty node to the NFA is a null operation.
+        nfa->get_root()->add_epsilon_transition(end_state);
     }
 
     [[nodiscard]] auto serialize() const -> std::u32string override;
-- 
2.43.0


From 070c9fb496721866bb689994ed81c465b019b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 11/24] fix: match nothing for a repetition of zero times

`R{0}` and `R{0,0}` were parsed into an unbounded repetition.
---
 src/log_surgeon/SchemaParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 7e099cc..3f0f801 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -225,6 +225,10 @@ static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
         reps += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
     }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
+    if (0 == reps) {
+        // A maximum of 0 would make the multiplication infinite
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     return unique_ptr<ParserAST>(new ParserValueRegex(
             unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
     ));
@@ -247,6 +251,11 @@ static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
 
+    if (0 == max) {
+        // A maximum of 0 would make the multiplication infinite
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
+
     if (0 == min) {
         // To handle negative tags we treat `R*` as `R+ | ∅`.
         return make_unique<ParserValueRegex>(make_unique<RegexASTOrByte>(
-- 
2.43.0


From a15868cf6ea4245b63e93a04aa0caace89bafa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 12/24] fix: order the names of a token by rule instead of by
 address

The names of the rules matching a token were ordered by the addresses of NFA
states, so the type of a token changed from run to run.
---
 src/log_surgeon/LexicalRule.hpp                   |  1 +
 src/log_surgeon/finite_automata/RegexDFA.hpp      |  1 +
 src/log_surgeon/finite_automata/RegexDFA.tpp      | 10 +++++++++-
 src/log_surgeon/finite_automata/RegexNFA.hpp      |  2 ++
 src/log_surgeon/finite_automata/RegexNFAState.hpp |  9 +++++++++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LexicalRule.hpp b/src/log_surgeon/LexicalRule.hpp
index 9aa9328..940c15b 100644
--- a/src/log_surgeon/LexicalRule.hpp
+++ b/src/log_surgeon/LexicalRule.hpp
@@ -40,6 +40,7 @@ void LexicalRule<NFAStateType>::add_to_nfa(finite_automata::RegexNFA<NFAStateTyp
     auto* end_state = nfa->new_state();
     end_state->set_accepting(true);
     end_state->set_matching_variable_id(m_variable_id);
+    end_state->set_matching_priority(nfa->get_num_states());
     m_regex->add_to_nfa_with_negative_tags(nfa, end_state);
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/finite_automata/RegexDFA.hpp b/src/log_surgeon/finite_automata/RegexDFA.hpp
index b549d7c..a3ca075 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <map>
 #include <memory>
 #include <set>
 #include <utility>
diff --git a/src/log_surgeon/finite_automata/RegexDFA.tpp b/src/log_surgeon/finite_automata/RegexDFA.tpp
index 458a556..3f84629 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.tpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.tpp
@@ -44,11 +44,19 @@ auto RegexDFA<DFAStateType>::new_state(std::set<NFAStateType*> const& nfa_state_
 ) -> DFAStateType* {
     m_states.emplace_back(std::make_unique<DFAStateType>());
     auto* dfa_state = m_states.back().get();
+    // Order by rule, as the set is ordered by address
+    std::map<uint32_t, uint32_t> priority_to_variable_id;
     for (auto const* nfa_state : nfa_state_set) {
         if (nfa_state->is_accepting()) {
-            dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
+            priority_to_variable_id.emplace(
+                    nfa_state->get_matching_priority(),
+                    nfa_state->get_matching_variable_id()
+            );
         }
     }
+    for (auto const& [priority, variable_id] : priority_to_variable_id) {
+        dfa_state->add_matching_variable_id(variable_id);
+    }
     return dfa_state;
 }
 
diff --git a/src/log_surgeon/finite_automata/RegexNFA.hpp b/src/log_surgeon/finite_automata/RegexNFA.hpp
index ba9791b..95881cc 100644
--- a/src/log_surgeon/finite_automata/RegexNFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFA.hpp
@@ -90,6 +90,8 @@ public:
 
     auto get_root() -> NFAStateType* { return m_root; }
 
+    [[nodiscard]] auto get_num_states() const -> uint32_t { return m_states.size(); }
+
 private:
     std::vector<std::unique_ptr<NFAStateType>> m_states;
     NFAStateType* m_root;
diff --git a/src/log_surgeon/finite_automata/RegexNFAState.hpp b/src/log_surgeon/finite_automata/RegexNFAState.hpp
index 8fce8cf..cc5ad28 100644
--- a/src/log_surgeon/finite_automata/RegexNFAState.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFAState.hpp
@@ -49,6 +49,14 @@ public:
         return m_matching_variable_id;
     }
 
+    auto set_matching_priority(uint32_t const priority) -> void { m_matching_priority = priority; }
+
+    /**
+     * @return The position of the rule matched by this accepting state relative to other rules. A
+     * rule added to the NFA earlier has a lower value.
+     */
+    [[nodiscard]] auto get_matching_priority() const -> uint32_t { return m_matching_priority; }
+
     auto
     add_positive_tagged_start_transition(Tag const* tag, RegexNFAState const* dest_state) -> void {
         m_positive_tagged_start_transitions.emplace_back(tag, dest_state);
@@ -110,6 +118,7 @@ public:
 private:
     bool m_accepting{false};
     uint32_t m_matching_variable_id{0};
+    uint32_t m_matching_priority{0};
     std::vector<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_start_transitions;
     std::optional<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_end_transition;
     std::optional<NegativeTaggedTransition<RegexNFAState>> m_negative_tagged_transition;
-- 
2.43.0


From 7fe34292ae134ad3c1c12daf4cf81d46b371d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 13/24] fix: return the start of the next log event as the
 offset of the buffer parser

---
 src/log_surgeon/Lexer.tpp     |  1 +
 src/log_surgeon/LogParser.cpp |  1 +
 src/log_surgeon/LogParser.hpp | 18 ++++++++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 1b8e3bf..058f0e6 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -353,6 +353,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
     m_asked_for_more_data = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
+    m_last_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
     m_type_ids = nullptr;
 }
diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index d4c7a5a..172e652 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -159,6 +159,7 @@ auto LogParser::reset() -> void {
     m_input_buffer.reset();
     m_lexer.reset();
     m_has_start_of_log = false;
+    m_is_start_of_input = true;
     m_lexer.prepend_start_of_file_char(m_input_buffer);
 }
 
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 9133914..62f6c46 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -86,12 +86,25 @@ public:
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
             -> void {
         m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
+        if (m_is_start_of_input) {
+            // Nothing was scanned since the reset, so the scan starts at pos instead of at 0
+            m_is_start_of_input = false;
+            m_lexer.prepend_start_of_file_char(m_input_buffer);
+        } else if (m_has_start_of_log) {
+            // The first token of the next log event was already scanned
+            m_input_buffer.set_pos(m_start_of_log_message.m_end_pos);
+        }
     }
 
     /**
-     * @return the current position inside the input buffer.
+     * @return the position inside the input buffer at which the next log event starts.
      */
-    auto get_input_pos() -> uint32_t { return m_input_buffer.storage().pos(); }
+    auto get_input_pos() -> uint32_t {
+        if (m_has_start_of_log) {
+            return m_start_of_log_message.m_start_pos;
+        }
+        return m_input_buffer.storage().pos();
+    }
 
     /**
      * Reads into the input buffer if only consumed data will be overwritten.
@@ -163,6 +176,7 @@ private:
     // TODO: move ownership of the buffer to the lexer
     ParserInputBuffer m_input_buffer;
     bool m_has_start_of_log{false};
+    bool m_is_start_of_input{false};
     Token m_start_of_log_message{};
     std::unique_ptr<LogEventView> m_log_event_view{nullptr};
 };
-- 
2.43.0


From e21bfa3944ba81894f43f875b364580298d90191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 14/24] fix: balance the interval tree by height and pop every
 overlapping interval

---
 .../finite_automata/UnicodeIntervalTree.tpp   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index e5b2413..eed300a 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -1,6 +1,7 @@
 #ifndef LOG_SURGEON_FINITE_AUTOMATA_UNICODE_INTERVAL_TREE_TPP
 #define LOG_SURGEON_FINITE_AUTOMATA_UNICODE_INTERVAL_TREE_TPP
 
+#include <algorithm>
 #include <cassert>
 #include <set>
 
@@ -55,7 +56,9 @@ template <typename T>
 auto UnicodeIntervalTree<T>::find(Interval interval
 ) -> std::unique_ptr<std::vector<typename UnicodeIntervalTree<T>::Data>> {
     std::unique_ptr<std::vector<Data>> results(new std::vector<Data>);
-    m_root->find(interval, results.get());
+    if (m_root != nullptr) {
+        m_root->find(interval, results.get());
+    }
     return results;
 }
 
@@ -107,7 +110,11 @@ auto UnicodeIntervalTree<T>::Node::pop(
         node->update();
         return Node::balance(std::move(node));
     }
-    assert(node->overlaps(interval));
+    if (false == node->overlaps(interval)) {
+        node->m_right = Node::pop(std::move(node->m_right), interval, ret);
+        node->update();
+        return Node::balance(std::move(node));
+    }
     ret->reset(node.release());
     if (((*ret)->m_left == nullptr) && ((*ret)->m_right == nullptr)) {
         return nullptr;
@@ -131,7 +138,6 @@ auto UnicodeIntervalTree<T>::Node::pop_min(std::unique_ptr<Node> node, std::uniq
         -> std::unique_ptr<typename UnicodeIntervalTree<T>::Node> {
     assert(node != nullptr);
     if (node->m_left == nullptr) {
-        assert(node->m_right != nullptr);
         std::unique_ptr<Node> right(std::move(node->m_right));
         ret->reset(node.release());
         return right;
@@ -148,11 +154,11 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
         m_lower = m_interval.first;
         m_upper = m_interval.second;
     } else if (m_left == nullptr) {
-        m_height = 2;
+        m_height = m_right->m_height + 1;
         m_lower = m_interval.first;
         m_upper = std::max(m_interval.second, m_right->m_upper);
     } else if (m_right == nullptr) {
-        m_height = 2;
+        m_height = m_left->m_height + 1;
         m_lower = m_left->m_lower;
         m_upper = std::max(m_interval.second, m_left->m_upper);
     } else {
@@ -164,7 +170,8 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
 
 template <class T>
 auto UnicodeIntervalTree<T>::Node::balance_factor() -> int {
-    return (m_right != nullptr ? m_right.get() : 0) - (m_left != nullptr ? m_left.get() : 0);
+    return (m_right != nullptr ? static_cast<int>(m_right->m_height) : 0)
+           - (m_left != nullptr ? static_cast<int>(m_left->m_height) : 0);
 }
 
 template <class T>
-- 
2.43.0


From 5b137096d29b2aeb30098f9268b2646061e8dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 15/24] fix: keep the first character of a variable without a
 delimiter out of the logtype

---
 src/log_surgeon/LogEvent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index c3c9b6f..bf23228 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -55,7 +55,10 @@ auto LogEventView::get_logtype() const -> std::string {
         if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenUncaughtString) {
             logtype += token.to_string_view();
         } else {
-            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)) {
+            // The first token of a log event might not be preceded by a delimiter
+            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)
+                && m_log_parser.m_lexer.is_delimiter(token.get_char(0)))
+            {
                 logtype += token.get_delimiter();
             }
             logtype += "<";
-- 
2.43.0


From 1f58de3d971cc6f066bb3f81fe9e328fb86a0f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 16/24] fix: report an event with text after its only newline
 as multiline

---
 src/log_surgeon/LogParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 172e652..ab6ed60 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -310,10 +310,12 @@ auto LogParser::generate_log_event_view_metadata() -> void {
             first_newline_pos = i;
         }
     }
-    // To be a multiline log there must be at least one token between the
-    // newline token and the last token in the output buffer.
+    // To be a multiline log there must be at least one character after the newline, in the token
+    // starting with the newline or in a later token.
     if (m_log_event_view->m_log_output_buffer->has_timestamp() && 0 < first_newline_pos
-        && first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos())
+        && (first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos()
+            || 1 < m_log_event_view->m_log_output_buffer->get_token(first_newline_pos).get_length()
+        ))
     {
         m_log_event_view->set_multiline(true);
     }
-- 
2.43.0


From 3c09515739c5cd6f999a773cdb44dfee03a0b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 17/24] fix: repetition of an operand with an unbounded end
 does not skip the operand

With a minimum of 0 repetitions, the end state is reachable without a match of the operand, so an operand
whose NFA loops at its end state could be entered in the middle (e.g. (a{2,inf}){0,1} accepted "a").
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index f094d3b..5576919 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -890,8 +890,15 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
         NFAStateType* end_state
 ) const {
     NFAStateType* saved_root = nfa->get_root();
+    // If no match of the operand is needed, then an operand that may repeat at its end state gets an
+    // end state of its own, as `end_state` cannot be followed by the repetition.
+    NFAStateType* operand_end_state = end_state;
     if (this->m_min == 0) {
         nfa->get_root()->add_epsilon_transition(end_state);
+        if (m_operand->repeats_at_end_state_with_negative_tags()) {
+            operand_end_state = nfa->new_state();
+            operand_end_state->add_epsilon_transition(end_state);
+        }
     } else {
         for (uint32_t i = 1; i < this->m_min; i++) {
             NFAStateType* intermediate_state = nfa->new_state();
@@ -902,7 +909,7 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
     }
     if (this->is_infinite()) {
         nfa->set_root(end_state);
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        m_operand->add_to_nfa_with_negative_tags(nfa, operand_end_state);
     } else if (this->m_max > this->m_min) {
         if (this->m_min != 0) {
             NFAStateType* intermediate_state = nfa->new_state();
@@ -910,12 +917,12 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
             nfa->set_root(intermediate_state);
         }
         for (uint32_t i = this->m_min + 1; i < this->m_max; ++i) {
-            m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+            m_operand->add_to_nfa_with_negative_tags(nfa, operand_end_state);
             NFAStateType* intermediate_state = nfa->new_state();
             m_operand->add_to_nfa_with_negative_tags(nfa, intermediate_state);
             nfa->set_root(intermediate_state);
         }
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        m_operand->add_to_nfa_with_negative_tags(nfa, operand_end_state);
     }
     nfa->set_root(saved_root);
 }
-- 
2.43.0


From 3874b8f10769080e820c3d0a587b2f43d07db192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 18/24] fix: an empty line is a log event by itself

Without timestamps a newline starts a new log event, but a newline in the first token of a log event was
not recognized, so an empty line was merged with the line after it.
---
 src/log_surgeon/LogParser.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index ab6ed60..b4418e3 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -182,8 +182,21 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             if (ErrorCode err = get_next_symbol(next_token); ErrorCode::Success != err) {
                 return err;
             }
+            auto const first_token_type = next_token.m_type_ids_ptr->at(0);
             if (false == output_buffer->has_timestamp()
-                && next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewlineTimestamp)
+                && first_token_type == (uint32_t)SymbolId::TokenNewline)
+            {
+                // An empty line is a log event with just the '\n' character
+                output_buffer->set_token(1, next_token);
+                output_buffer->set_pos(2);
+                m_input_buffer.set_consumed_pos(next_token.m_start_pos);
+                parsing_action = ParsingAction::Compress;
+                return ErrorCode::Success;
+            }
+            if (false == output_buffer->has_timestamp()
+                && first_token_type != (uint32_t)SymbolId::TokenEnd
+                && first_token_type != (uint32_t)SymbolId::TokenFirstTimestamp
+                && next_token.get_char(0) == '\n')
             {
                 // TODO: combine the below with found_start_of_next_message
                 // into 1 function
-- 
2.43.0


From 5421161f43ebf7126d0ed81a7c04c8192f8aeaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 19/24] fix: find tokens in text that only starts like a first
 timestamp

The failed attempt to match a timestamp at the start of the input skipped the delimiters it had read, so
the token after the last of them was lost.
---
 src/log_surgeon/Lexer.hpp |  1 +
 src/log_surgeon/Lexer.tpp | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index ddb12cf..2c8623f 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -158,6 +158,7 @@ private:
     bool m_has_delimiters{false};
     std::unique_ptr<finite_automata::RegexDFA<DFAStateType>> m_dfa;
     bool m_asked_for_more_data{false};
+    bool m_is_start_of_file_scan{false};
     DFAStateType const* m_prev_state{nullptr};
 };
 
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 058f0e6..d61a15b 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -62,6 +62,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         m_match_pos = input_buffer.storage().pos();
         m_match_line = m_line;
         m_type_ids = nullptr;
+        m_is_start_of_file_scan = false;
     }
     while (true) {
         uint32_t prev_byte_buf_pos = input_buffer.storage().pos();
@@ -92,6 +93,17 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_match_line = m_line;
         }
         DFAStateType* next = state->next(next_char);
+        if (m_is_start_of_file_scan && false == m_match && prev_byte_buf_pos != m_start_pos
+            && (next_char == '\n' || input_buffer.log_fully_consumed() || next == nullptr))
+        {
+            // Only a timestamp can contain delimiters, so unlike any other scan without a match, this
+            // one might have read delimiters that start a token
+            m_is_start_of_file_scan = false;
+            input_buffer.set_log_fully_consumed(false);
+            input_buffer.set_pos(m_start_pos);
+            state = nullptr;
+            continue;
+        }
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match) {
@@ -343,6 +355,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_last_match_line = 0;
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
+    m_is_start_of_file_scan = false;
     m_prev_state = nullptr;
 }
 
@@ -351,6 +364,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
 ) {
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
     m_asked_for_more_data = true;
+    m_is_start_of_file_scan = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
     m_last_match_pos = input_buffer.storage().pos();
-- 
2.43.0


From 0f13b47df1480b72cd4d1dae250b70050dde56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 20/24] fix: reuse the storage of the schema parser after every
 line and reject rules that exceed it

---
 src/log_surgeon/LALR1Parser.cpp  |  5 +++++
 src/log_surgeon/LALR1Parser.tpp  |  1 +
 src/log_surgeon/SchemaParser.cpp | 17 +++++++++++++----
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 5268091..b1dbc18 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,5 +1,7 @@
 #include "LALR1Parser.hpp"
 
+#include <stdexcept>
+
 namespace log_surgeon {
 MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
 
@@ -11,6 +13,9 @@ NonTerminal::NonTerminal(Production* p)
         : m_children_start(NonTerminal::m_next_children_start),
           m_production(p),
           m_ast(nullptr) {
+    if (NonTerminal::m_next_children_start + p->m_body.size() > cSizeOfAllChildren) {
+        throw std::runtime_error("A rule is too long to be parsed.");
+    }
     NonTerminal::m_next_children_start += p->m_body.size();
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2edfa29..60a634a 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -659,6 +659,7 @@ void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     while (!m_parse_stack_matches.empty()) {
         m_parse_stack_matches.pop();
     }
+    NonTerminal::m_next_children_start = 0;
     m_input_buffer.reset();
     this->m_lexer.reset();
 }
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 3f0f801..3115c41 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -104,6 +104,16 @@ auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_
     return sp.generate_schema_ast(reader);
 }
 
+/**
+ * Allows the storage of the children to be reused. Must only be called once a line of the schema has
+ * been reduced, as all children up to that point are then no longer needed.
+ */
+static auto reset_children_if_half_full() -> void {
+    if (NonTerminal::m_next_children_start > cSizeOfAllChildren / 2) {
+        NonTerminal::m_next_children_start = 0;
+    }
+}
+
 static auto new_identifier_rule(NonTerminal* m) -> unique_ptr<IdentifierAST> {
     string r1 = m->token_cast(0)->to_string();
     return make_unique<IdentifierAST>(IdentifierAST(r1[0]));
@@ -147,6 +157,7 @@ static auto existing_schema_rule_with_delimiter(NonTerminal* m) -> unique_ptr<Sc
     std::unique_ptr<SchemaAST> schema_ast(dynamic_cast<SchemaAST*>(r1.release()));
     unique_ptr<ParserAST>& r5 = m->non_terminal_cast(4)->get_parser_ast();
     schema_ast->add_delimiters(std::move(r5));
+    reset_children_if_half_full();
     return schema_ast;
 }
 
@@ -155,10 +166,7 @@ auto SchemaParser::existing_schema_rule(NonTerminal* m) -> unique_ptr<SchemaAST>
     std::unique_ptr<SchemaAST> schema_ast(dynamic_cast<SchemaAST*>(r1.release()));
     unique_ptr<ParserAST>& r2 = m->non_terminal_cast(2)->get_parser_ast();
     schema_ast->add_schema_var(std::move(r2));
-    // Can reset the buffers at this point and allow reading
-    if (NonTerminal::m_next_children_start > cSizeOfAllChildren / 2) {
-        NonTerminal::m_next_children_start = 0;
-    }
+    reset_children_if_half_full();
     return schema_ast;
 }
 
@@ -174,6 +182,7 @@ static auto regex_capture_rule(NonTerminal const* m) -> std::unique_ptr<ParserAS
 static auto identity_rule_ParserASTSchema(NonTerminal* m) -> unique_ptr<SchemaAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     std::unique_ptr<SchemaAST> schema_ast(dynamic_cast<SchemaAST*>(r1.release()));
+    reset_children_if_half_full();
     return schema_ast;
 }
 
-- 
2.43.0


From 5370ee568ee4da2205ba4c06b0a10f32bf60bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 21/24] fix: reject a group of characters in the delimiters
 rule

---
 src/log_surgeon/SchemaParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 3115c41..f2aa9c7 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -419,18 +419,26 @@ static auto regex_white_space_rule(NonTerminal* /* m */) -> unique_ptr<ParserAST
     );
 }
 
+static auto get_delimiter(RegexASTByte* regex_ast) -> uint32_t {
+    auto* literal = dynamic_cast<RegexASTLiteralByte*>(regex_ast);
+    if (nullptr == literal) {
+        throw std::runtime_error("The delimiters rule may only contain characters.");
+    }
+    return literal->get_character();
+}
+
 static auto existing_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     auto& r2 = m->non_terminal_cast(1)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r1_ptr = dynamic_cast<DelimiterStringAST*>(r1.get());
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r2.get())->get_character();
+    uint32_t character = get_delimiter(r2.get());
     r1_ptr->add_delimiter(character);
     return std::move(r1);
 }
 
 static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r1.get())->get_character();
+    uint32_t character = get_delimiter(r1.get());
     return make_unique<DelimiterStringAST>(character);
 }
 
-- 
2.43.0


From 7866d0ead376691bd97edf56f56f2c9a7e166dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 22/24] fix: reject a range whose ends are in the wrong order
 and accept a range of one character

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 5576919..d43d726 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1053,7 +1053,10 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(
         );
     }
     m_negate = false;
-    assert(right->get_character() > left->get_character());
+    if (right->get_character() < left->get_character()) {
+        throw std::runtime_error("RegexASTGroup3: the ends of a range in a bracket expression in "
+                                 "the schema are in the wrong order.");
+    }
     m_ranges.emplace_back(left->get_character(), right->get_character());
 }
 
-- 
2.43.0


From 41ed93d20791298638b1da647c305fe9b3b9fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 23/24] fix: do not treat the start of the file as a delimiter
 that a negated group matches

---
 src/log_surgeon/LogParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b4418e3..f40d71f 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -98,6 +98,10 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
         bool contains_delimiter = false;
         uint32_t delimiter_name = 0;
         for (uint32_t delimiter : delimiters) {
+            // The start of the file is no character of the input, but every negated group contains it
+            if (utf8::cCharStartOfFile == delimiter) {
+                continue;
+            }
             if (is_possible_input[delimiter]) {
                 contains_delimiter = true;
                 delimiter_name = delimiter;
-- 
2.43.0


From b2fa225035d66d917e3a707f1f44aae690b474b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:11 +0000
Subject: [PATCH 24/24] fix: do not read a character of the empty end token

---
 src/log_surgeon/LogParser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index f40d71f..2f0e2c8 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -252,15 +252,16 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         }
         output_buffer->set_curr_token(next_token);
         auto token_type = next_token.m_type_ids_ptr->at(0);
+        // The end token is empty, so it has no first character
+        if (token_type == (uint32_t)SymbolId::TokenEnd) {
+            parsing_action = ParsingAction::CompressAndFinish;
+            return ErrorCode::Success;
+        }
         bool found_start_of_next_message
                 = (output_buffer->has_timestamp()
                    && token_type == (uint32_t)SymbolId::TokenNewlineTimestamp)
                   || (!output_buffer->has_timestamp() && next_token.get_char(0) == '\n'
                       && token_type != (uint32_t)SymbolId::TokenNewline);
-        if (token_type == (uint32_t)SymbolId::TokenEnd) {
-            parsing_action = ParsingAction::CompressAndFinish;
-            return ErrorCode::Success;
-        }
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-- 
2.43.0

