#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that line anchors are maintained in one place)."""
import json, os
D = "src/log_surgeon/"
F = D + "finite_automata/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("P01", "The automaton of a pattern accepts exactly the pattern's language",
 "For every pattern built from literals, character sets, concatenation, alternation, bounded or unbounded repetition, the empty pattern and capture groups, the nondeterministic automaton built for it accepts exactly the strings that the pattern denotes. Building several rules into one automaton keeps them apart: a string is accepted with the id of a rule exactly if the pattern of that rule matches the whole string.",
 ["inputs", "programs"], "all patterns (any nesting, any repetition bounds with minimum at most maximum) and all strings over bytes",
 "the tests compare the printed automaton of a handful of patterns with a literal; the claim ranges over all patterns and all strings",
 [F+"RegexAST.hpp", F+"RegexNFA.hpp", F+"RegexNFAState.hpp", D+"LexicalRule.hpp"],
 [("add_to_nfa of every kind of pattern node", F+"RegexAST.hpp"), ("construction from the list of rules", F+"RegexNFA.hpp"), ("accepting state of a rule", D+"LexicalRule.hpp")],
 ["states and transitions of the automaton built from a list of rules", "types returned by the deterministic automaton"])

prop("P02", "Determinisation preserves matches, rule ids and their schema order",
 "For every nondeterministic automaton, the deterministic automaton computed from it accepts the same byte strings, and the ids it reports for a string are exactly the ids of the rules that accept the string. The ids are reported in the order in which the rules were added.",
 ["inputs", "programs"], "all nondeterministic byte automata (including cycles of empty transitions and tagged transitions, which are treated as empty transitions) and all byte strings",
 "the tests check the result through a few schemas; the claim is an equivalence of two automata over all inputs",
 [D+"Lexer.tpp", D+"Lexer.hpp", F+"RegexDFA.hpp", F+"RegexDFA.tpp"],
 [("epsilon_closure", D+"Lexer.tpp"), ("nfa_to_dfa", D+"Lexer.tpp"), ("RegexDFA::new_state", F+"RegexDFA.tpp"), ("RegexDFAState::next", F+"RegexDFA.tpp")],
 ["transition function and matching ids of the deterministic automaton"])

prop("P03", "A character set matches exactly the characters it lists",
 "A character set matches a character exactly if one of its ranges or characters contains it, and a negated set exactly if none does, for characters up to the largest code point. Merging and complementing the ranges of a set never changes which characters they cover, and removing the delimiters from a wildcard removes those characters and no others. The set of possible input characters reported for a pattern contains every character that can occur in a string it matches.",
 ["inputs"], "all character sets (any number of ranges, overlapping, adjacent or touching the ends of the code point range) and all code points",
 "the tests use one or two fixed sets; off-by-one errors need ranges that touch each other or the limits",
 [F+"RegexAST.hpp", F+"RegexNFAState.hpp"],
 [("RegexASTGroup constructors, add_range, add_literal, merge, complement", F+"RegexAST.hpp"), ("RegexASTGroup::add_to_nfa", F+"RegexAST.hpp"), ("remove_delimiters_from_wildcard, set_possible_inputs_to_true", F+"RegexAST.hpp"), ("RegexNFAState::add_interval", F+"RegexNFAState.hpp")],
 ["byte transitions created for a set", "ranges of a set after merging and complementing"])

prop("P04", "The intersection of two automata reports exactly the shared variable types",
 "Intersecting a deterministic automaton with another one reports a variable type exactly if some byte string is matched with that type by the first automaton and matched by the second one with any type. The computation ends for every pair of automata and changes neither of them.",
 ["inputs", "programs"], "all pairs of deterministic byte automata, with cycles, and all byte strings",
 "the tests intersect a few fixed schemas and search queries; the claim quantifies over all automata and strings",
 [F+"RegexDFA.hpp", F+"RegexDFA.tpp"],
 [("RegexDFA::get_intersect", F+"RegexDFA.tpp"), ("RegexDFAStatePair::get_reachable_pairs", F+"RegexDFA.tpp")],
 ["the returned set of types"])

prop("P05", "Every match path marks each capture group as matched or unmatched",
 "Every pattern node records the capture groups that a match of it leaves unmatched: the other alternatives of an alternation and the body of a repetition that matched zero times. On every accepting path of the automaton of a pattern in which no capture group is inside a repetition, each capture group of the pattern is marked exactly once, either as captured (its start marked before its end) or as unmatched.",
 ["inputs", "programs"], "all patterns with named capture groups, any nesting of alternation, repetition, concatenation and captures",
 "the tests print the automata of two fixed patterns; nested alternations of captures are not reached",
 [F+"RegexAST.hpp", F+"RegexNFA.hpp", F+"RegexNFAState.hpp", F+"TaggedTransition.hpp"],
 [("positive and negative tag sets set by node constructors", F+"RegexAST.hpp"), ("add_to_nfa_with_negative_tags", F+"RegexAST.hpp"), ("new_start_and_end_states_with_positive_tagged_transitions, new_state_with_negative_tagged_transition", F+"RegexNFA.hpp")],
 ["tags on the transitions along accepting paths"])

prop("P06", "The text of a schema denotes the patterns its documented syntax describes",
 "For every schema text in the documented syntax, the rules obtained from it have the written names, in the written order, and each pattern matches exactly the strings its text describes under the documented precedence of escapes, sets, negated sets, repetition, concatenation and alternation. Text that does not follow the syntax is rejected with an error instead of being read as something else.",
 ["inputs"], "all schema texts made of ASCII characters, with rules of up to 2000 characters and any nesting of the documented operators",
 "the tests read a few schema files; precedence and repetition bounds need combinations they do not contain",
 [D+"SchemaParser.cpp", D+"SchemaParser.hpp", D+"LALR1Parser.tpp", D+"LALR1Parser.hpp"],
 [("productions and semantic rules", D+"SchemaParser.cpp"), ("table generation and parsing", D+"LALR1Parser.tpp")],
 ["schema rules and patterns built from a text"])

prop("P07", "Schema rules are turned into lexer rules as documented",
 "Only the last delimiters rule of a schema takes effect and a schema without one is rejected. A variable rule whose pattern can match a delimiter is rejected, the wildcard stands for every character except a delimiter, and repeating a variable name adds an alternative to the same type. A variable added to a schema at a position is the rule at that position.",
 ["inputs", "configurations"], "all schemas: any delimiters, any variable rules in any order, repeated names",
 "the tests use a small number of schemas with one delimiters rule",
 [D+"LogParser.cpp", D+"Lexer.tpp", D+"Parser.tpp", D+"Schema.cpp", D+"SchemaParser.hpp"],
 [("LogParser::add_rules", D+"LogParser.cpp"), ("Lexer::add_delimiters", D+"Lexer.tpp"), ("Parser::add_rule", D+"Parser.tpp"), ("SchemaAST::add_schema_var", D+"SchemaParser.hpp")],
 ["construction of a parser succeeds or throws", "types of the parsed tokens"])

prop("P08", "Tokens tile the input: every character belongs to exactly one event",
 "Concatenating the text of the tokens of all events, in order, gives back the input text exactly: nothing is lost, duplicated, reordered or invented. Parsing always ends, after the end of the input has been reported once.",
 ["inputs", "configurations"], "all schemas and all input texts free of the byte reserved for the start of the file",
 "the tests check the tokens of a few short inputs",
 [D+"Lexer.tpp", D+"LogParser.cpp", D+"LogParserOutputBuffer.cpp", D+"LogEvent.cpp"],
 [("Lexer::scan", D+"Lexer.tpp"), ("LogParser::parse", D+"LogParser.cpp"), ("LogParserOutputBuffer::advance_to_next_token", D+"LogParserOutputBuffer.cpp")],
 ["text of the events returned by the parsers"])

prop("P09", "Tokens are the longest matches that end at a delimiter, typed by the schema",
 "At each point where a token can start, the parser takes the longest text, starting with a delimiter (or the start of the input) and followed by a delimiter or the end of the input, that a rule matches, and gives it the ids of all rules that match it, in schema order. Text at which no rule matches becomes static text, and a newline that no rule matches is a token of its own.",
 ["inputs", "configurations"], "all schemas whose delimiters include the newline and whose patterns neither match the empty text nor contain the byte reserved for the start of the file, and all input texts free of that byte",
 "the tests assert the token types of a few inputs; longest-match decisions depend on every schema and input",
 [D+"Lexer.tpp", D+"Lexer.hpp"],
 [("Lexer::scan", D+"Lexer.tpp"), ("Lexer::generate", D+"Lexer.tpp")],
 ["types and boundaries of tokens"])

prop("P10", "Results do not depend on where the input buffer wraps or grows",
 "Parsing a text through a reader gives the same events, tokens, types and token texts as parsing it from one buffer that holds all of it, for every length of the text, of its lines and of its tokens. In particular no character is overwritten before the event containing it has been consumed, and growing the input buffer in the middle of an event keeps every character and every position.",
 ["inputs", "histories"], "all texts, including lines and tokens longer than the initial buffer, and every alignment of tokens and events with the halves of the buffer",
 "the tests parse inputs far smaller than the buffer; the wrap and growth paths need tens of kilobytes with exact alignment",
 [D+"ParserInputBuffer.cpp", D+"ParserInputBuffer.hpp", D+"Buffer.hpp", D+"Lexer.tpp", D+"LogParser.cpp", D+"ReaderParser.cpp"],
 [("ParserInputBuffer::read_is_safe, read, increase_capacity, get_next_character", D+"ParserInputBuffer.cpp"), ("Lexer::flip_states, increase_buffer_capacity", D+"Lexer.tpp"), ("consumed position", D+"LogParser.cpp")],
 ["events of the reader parser"],
 [("circular input buffer", "half of the storage is read at a time; it grows by doubling", D+"ParserInputBuffer.hpp")])

prop("P11", "A timestamp or, without timestamps, a newline starts each event",
 "An event that starts with a timestamp ends right before the next timestamp that follows a newline, and contains everything up to and including that newline. An event that does not start with a timestamp ends after its first newline, and an event starts with a timestamp exactly if a timestamp stands at the start of the input or right after the newline that ended the previous event; a timestamp pattern is never matched inside an event.",
 ["inputs", "histories"], "all schemas whose delimiters include the newline and whose patterns neither match the empty text nor contain the byte reserved for the start of the file, with any number of timestamp rules whose patterns contain no newline, and all texts",
 "the tests cover a few lines with and without timestamps",
 [D+"LogParser.cpp", D+"LogParser.hpp"],
 [("LogParser::parse", D+"LogParser.cpp"), ("timestamp rules", D+"LogParser.cpp")],
 ["boundaries of the events"])

prop("P12", "The buffer parser resumes correctly however the text is split into calls",
 "Feeding a text to the buffer parser piece by piece, keeping the unparsed bytes and resetting when the buffer is moved, gives the same events as parsing it in one call. The offset is always where the next event starts: after a success it is the end of the parsed event, after a failure for lack of data it is unchanged, and the parser reports being done exactly after the last event of finished input. No byte outside of the given buffer is read.",
 ["inputs", "histories"], "all texts, all ways to split them into calls after an initial reset, with or without moving the remaining bytes between calls",
 "the tests call the parser once with the complete text",
 [D+"BufferParser.cpp", D+"LogParser.cpp", D+"LogParser.hpp", D+"Lexer.tpp", D+"ParserInputBuffer.cpp"],
 [("BufferParser::parse_next_event", D+"BufferParser.cpp"), ("LogParser::set_input_buffer, get_input_pos", D+"LogParser.hpp"), ("ParserInputBuffer::set_storage", D+"ParserInputBuffer.cpp")],
 ["error code, offset, done flag and event of each call"])

prop("P13", "A reset parser behaves like a newly built one",
 "After a reset, a parser gives for every input the same results as a newly built parser that was reset once, whatever it parsed before, including input that was abandoned in the middle of an event or failed.",
 ["histories", "inputs"], "all histories of calls before the reset and all inputs after it",
 "the tests never reset a parser that has been used",
 [D+"LogParser.cpp", D+"Lexer.tpp", D+"ParserInputBuffer.cpp", D+"Buffer.hpp", D+"ReaderParser.cpp", D+"BufferParser.cpp", D+"LogEvent.cpp"],
 [("LogParser::reset", D+"LogParser.cpp"), ("Lexer::reset", D+"Lexer.tpp"), ("ParserInputBuffer::reset", D+"ParserInputBuffer.cpp"), ("LogEventView::reset", D+"LogEvent.cpp")],
 ["events after a reset"])

prop("P14", "Event accessors and copies agree with the tokens of the event",
 "The text of an event is the concatenation of its tokens, the occurrences listed for a variable are exactly the tokens of the event whose first type is that variable, in order, and the logtype replaces each variable by its name and keeps all static text. An event that starts with a timestamp is multiline exactly if a character follows its first newline. A deep copy answers every such question like the original and stays valid when the parser goes on or is reset.",
 ["inputs", "histories"], "all events: any number of tokens, with or without a timestamp, with tokens that wrap around the input buffer",
 "the tests look at few events and never copy one",
 [D+"LogEvent.cpp", D+"LogEvent.hpp", D+"LogParser.cpp", D+"LogParserOutputBuffer.hpp"],
 [("LogEvent::LogEvent", D+"LogEvent.cpp"), ("LogEventView accessors", D+"LogEvent.cpp"), ("LogParser::generate_log_event_view_metadata", D+"LogParser.cpp")],
 ["accessors of views and of copies"])

prop("P15", "A token's text is the characters between its positions, also across the end",
 "The text, the view, the length and each character of a token describe the same sequence: the characters of its buffer from its start up to its end, continuing at the beginning of the buffer if the end precedes the start. Asking again gives the same answer, and no access leaves the buffer.",
 ["inputs"], "all buffers and all start and end positions inside them",
 "no test makes a token that wraps around the end of the buffer",
 [D+"Token.cpp", D+"Token.hpp"],
 [("Token::to_string, to_string_view, get_char, get_delimiter, get_length", D+"Token.cpp")],
 ["accessors of a token"])

prop("P16", "Growing a buffer preserves its contents, position and old pointers",
 "Growing a buffer doubles its size, keeps every stored item at its index, and leaves data that earlier pointers refer to unchanged until the buffer is reset. A reset returns the buffer to its initial size and position, and no store or read of an item within the reported size leaves the storage.",
 ["inputs", "histories"], "all sequences of stores, position changes, growth, resets and reads",
 "no test grows a buffer",
 [D+"Buffer.hpp", D+"LogParserOutputBuffer.cpp", D+"LogParserOutputBuffer.hpp"],
 [("Buffer::double_size, copy, reset, set_active_buffer", D+"Buffer.hpp"), ("LogParserOutputBuffer::advance_to_next_token", D+"LogParserOutputBuffer.cpp")],
 ["items read back from a buffer"])

prop("P17", "Registers keep the full position history of every tag",
 "A register returns the positions appended to it, newest first, where setting replaces only its newest position and copying makes the destination continue from the source's history without affecting the source. Inserting a position never changes the history behind any existing node, and node or register numbers that do not exist are rejected with an error and without any change.",
 ["inputs", "histories"], "all sequences of additions, sets, copies and appends, with any numbers of registers and positions",
 "the tests run a few short sequences on at most three registers",
 [F+"PrefixTree.hpp", F+"PrefixTree.cpp", F+"RegisterHandler.hpp"],
 [("PrefixTree::insert, set, get_reversed_positions", F+"PrefixTree.hpp"), ("RegisterHandler", F+"RegisterHandler.hpp")],
 ["positions returned for a register"],
 [("tree of positions", "each node refers to an earlier node, up to the root", F+"PrefixTree.hpp")])

prop("P18", "Variable names and ids form a bijection",
 "Every rule name has exactly one id and every id exactly one name, the lookup in one direction is the inverse of the other, and adding a rule under a known name keeps its id while a new name gets an unused one. The ids of the reserved names are the documented constants, and unknown names are reported as absent.",
 ["inputs", "configurations"], "all sequences of rule names",
 "the tests look up one or two names",
 [D+"Parser.tpp", D+"LogParser.cpp", D+"LogParser.hpp"],
 [("Parser constructor and add_rule", D+"Parser.tpp"), ("LogParser::get_symbol_id, get_id_symbol", D+"LogParser.cpp")],
 ["lookup of names and ids"])

prop("P19", "Reading a file returns its bytes, and its lines up to the delimiter",
 "Reading blocks from a file returns its bytes in order and reports the end exactly when none is left. Reading to a delimiter returns the bytes up to it, with the delimiter only if it was asked for, appending to or replacing the given text as asked, and reports a missing file, or a block read from an unopened reader, as an error.",
 ["inputs", "fault_sequences"], "all file contents (empty files, missing last delimiter, embedded zero bytes, long lines) and all block sizes",
 "the tests only read schema files completely",
 [D+"FileReader.cpp", D+"FileReader.hpp"],
 [("FileReader::read, try_open, try_read_to_delimiter", D+"FileReader.cpp")],
 ["error codes and returned bytes"])

prop("P20", "The interval tree behaves like an ordered map from intervals to values",
 "Inserting an interval sets its value and leaves all others unchanged, listing returns all intervals in ascending order with their latest values, finding returns exactly the stored intervals that overlap the query, and popping returns exactly those and removes them and nothing else. The tree stays balanced, so that its height is logarithmic in the number of intervals.",
 ["inputs", "histories"], "all sequences of insertions, lookups and removals of intervals over code points",
 "no test touches the tree",
 [F+"UnicodeIntervalTree.hpp", F+"UnicodeIntervalTree.tpp"],
 [("insert, find, pop, all", F+"UnicodeIntervalTree.tpp"), ("balance, rotate, update", F+"UnicodeIntervalTree.tpp")],
 ["intervals and values returned"])

prop("P21", "The printed automaton lists every reachable state once, with all transitions",
 "The printed form of a nondeterministic automaton lists each state that is reachable from the root exactly once, the root first, numbered in breadth-first order, and each line shows exactly the transitions and the accepting id of its state. Printing changes nothing.",
 ["inputs", "programs"], "all automata, including cyclic ones and ones with tagged transitions",
 "the tests print two fixed automata",
 [F+"RegexNFA.hpp", F+"RegexNFAState.hpp", F+"TaggedTransition.hpp"],
 [("get_bfs_traversal_order, serialize", F+"RegexNFA.hpp"), ("RegexNFAState::serialize", F+"RegexNFAState.hpp")],
 ["printed text"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
