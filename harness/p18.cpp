// P18: names and ids, against a map kept next to the parser.
#include "log.hpp"
using namespace log_surgeon;
using NS = finite_automata::RegexNFAByteState;
using DS = finite_automata::RegexDFAByteState;
static std::vector<std::pair<std::string, uint32_t>> const reserved{{"$end", 0}, {"$UncaughtString", 1}, {"int", 2}, {"float", 3},
    {"hex", 4}, {"firstTimestamp", 5}, {"newLineTimestamp", 6}, {"newLine", 7}};
static std::string nm(H::Rng& rng) {
    static std::vector<std::string> const pool{"int", "float", "hex", "a", "b", "ab", "timestamp2", "key", "K", "newLineTimestam", "end", "x1", "newline"};
    if (rng.chance(2, 3)) return rng.pick(pool);
    std::string s; size_t n = 1 + rng(6);
    for (size_t i = 0; i < n; i++) s += static_cast<char>('a' + rng(3));
    return s;
}
template <class P> static void compare(P& p, std::map<std::string, uint32_t> const& want, H::Rng& rng) {
    auto& l = p.m_lexer;
    H::check_eq<size_t>(l.m_symbol_id.size(), want.size(), "number of names");
    H::check_eq<size_t>(l.m_id_symbol.size(), want.size(), "number of ids");
    for (auto const& [n, i] : want) {
        auto a = l.m_symbol_id.find(n);
        H::check(a != l.m_symbol_id.end(), "the name " + n + " has an id");
        H::check_eq<uint64_t>(a->second, i, "id of " + n);
        auto b = l.m_id_symbol.find(i);
        H::check(b != l.m_id_symbol.end(), "the id " + std::to_string(i) + " has a name");
        H::check_eq(b->second, n, "name of the id " + std::to_string(i));
    }
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        std::map<std::string, uint32_t> want(reserved.begin(), reserved.end());
        if (it % 3 != 0) {  // names added one at a time
            Parser<NS, DS> p;
            size_t n = rng(it % 20 == 1 ? 400 : 30);
            std::string d = "names added one by one:";
            std::vector<std::string> names;
            for (size_t i = 0; i < n; i++) { names.push_back(it % 20 == 1 && rng.chance(3, 4) ? "v" + std::to_string(rng(500)) : nm(rng)); d += " " + names.back(); }
            H::begin(d);
            compare(p, want, rng);
            for (auto const& s : names) {
                if (!want.count(s)) { auto k = want.size(); want[s] = static_cast<uint32_t>(k); }
                if (rng.chance(1, 2)) p.add_token(s, static_cast<char>('a' + rng(26)));
                else p.add_rule(s, std::make_unique<finite_automata::RegexASTLiteral<NS>>('a'));
                if (names.size() < 60 || rng.chance(1, 20)) compare(p, want, rng);
            }
            compare(p, want, rng);
            continue;
        }
        L::Sch s;
        s.delims = {' ', '\n', ':'};
        size_t n = 1 + rng(8);
        for (size_t i = 0; i < n; i++) s.vars.push_back({rng.chance(1, 6) ? "timestamp" : nm(rng), R::lit(static_cast<uint32_t>('a' + rng(26)))});
        s.finish();
        H::begin(s.txt);
        for (auto const& [v, p] : s.vars) if (v != "timestamp" && !want.count(v)) { auto k = want.size(); want[v] = static_cast<uint32_t>(k); }
        bool reader = rng.chance(1, 2);
        std::string in = "a b";
        size_t pos = 0;
        Reader rd{[&](char* b, size_t c, size_t& k) -> ErrorCode { k = std::min(c, in.size() - pos); memcpy(b, in.data() + pos, k); pos += k; return k ? ErrorCode::Success : ErrorCode::EndOfFile; }};
        ReaderParser rp{SchemaParser::try_schema_string(s.txt)};
        BufferParser bp{SchemaParser::try_schema_string(s.txt)};
        auto ask = [&](std::string const& v) { return reader ? rp.get_variable_id(v) : bp.get_variable_id(v); };
        LogParser const& lp = reader ? rp.get_log_parser() : bp.get_log_parser();
        compare(lp, want, rng);
        std::set<std::string> q{"", "nothing", "$end", "timestamp", "aa", "Int", "int "};
        for (auto const& [v, i] : want) { q.insert(v); q.insert(v + "x"); if (!v.empty()) q.insert(v.substr(1)); H::check_eq(lp.get_id_symbol(i), v, "name of the id " + std::to_string(i)); }
        for (auto const& v : q) {
            auto a = ask(v); auto b = lp.get_symbol_id(v);
            H::check_eq<bool>(a.has_value(), want.count(v) > 0, "\"" + v + "\" is known");
            H::check_eq<bool>(b.has_value(), want.count(v) > 0, "\"" + v + "\" is known to the log parser");
            if (a) { H::check_eq<uint64_t>(*a, want[v], "id of \"" + v + "\""); H::check_eq<uint64_t>(*b, want[v], "id of \"" + v + "\""); }
        }
        bool threw = false;
        try { (void)lp.get_id_symbol(static_cast<uint32_t>(want.size() + rng(3))); } catch (std::exception const&) { threw = true; }
        H::check(threw, "an id that does not exist is rejected");
        compare(lp, want, rng);
    }
}
