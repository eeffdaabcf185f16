// P06: schema texts against an independent reader of the documented syntax.
#include "log.hpp"
#include <fstream>
using namespace R;
using log_surgeon::SchemaParser;
struct Bad {};    // not in the syntax
struct Undef {};  // outside of what the documentation settles
struct Doc {
    std::string const& s;
    size_t i{0};
    bool at(char c) const { return i < s.size() && s[i] == c; }
    void eat(char c) { if (!at(c)) throw Bad{}; i++; }
    static bool plain(char c) { return isalnum(static_cast<unsigned char>(c)) || strchr(" !\"#$%&',/:;=@_`~", c) != nullptr; }
    uint32_t number() {
        if (i >= s.size() || !isdigit(static_cast<unsigned char>(s[i]))) throw Bad{};
        uint64_t n = 0;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) { n = std::min<uint64_t>(n * 10 + (s[i] - '0'), 1000000); i++; }
        return static_cast<uint32_t>(n);
    }
    P literal() {
        if (i >= s.size()) throw Bad{};
        char c = s[i];
        if (c == '\\') {
            if (i + 1 >= s.size()) throw Bad{};
            char d = s[i + 1]; i += 2;
            switch (d) { case 't': return lit('\t'); case 'n': return lit('\n'); case 'v': return lit('\v'); case 'f': return lit('\f'); case 'r': return lit('\r'); default: break; }
            if (d == 0 || strchr("()*+-.[]\\^{}|<>?", d) == nullptr) throw Bad{};
            return lit(static_cast<unsigned char>(d));
        }
        if (c == '(') {
            i++;
            if (at('?')) {
                i++; eat('<');
                std::string n;
                while (i < s.size() && isalnum(static_cast<unsigned char>(s[i]))) n += s[i++];
                if (n.empty()) throw Bad{};
                eat('>');
                auto p = regex(); eat(')');
                return cap(p, n);
            }
            auto p = regex(); eat(')');
            return p;
        }
        if (c == 0 || !plain(c)) throw Bad{};
        i++;
        return lit(static_cast<unsigned char>(c));
    }
    P atom() {
        if (at('.')) { i++; return mk(Any); }
        if (at('\\') && i + 1 < s.size() && s[i + 1] == 'd') { i += 2; return mk(Digit); }
        if (at('\\') && i + 1 < s.size() && s[i + 1] == 's') { i += 2; return mk(Space); }
        if (at('[')) {
            i++;
            auto p = mk(Set);
            if (at('^')) { p->neg = true; i++; }
            else if (at(']')) throw Bad{};
            bool undef = false, bad = false;
            while (!at(']')) {
                if (i >= s.size()) throw Bad{};
                if (s[i] == '(') undef = true;
                if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'd') { i += 2; p->items.push_back({'0', '9'}); continue; }
                if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 's') { i += 2; undef = true; continue; }
                auto a = literal();
                if (at('-')) {
                    i++;
                    if (at('(')) undef = true;
                    auto b = literal();
                    if (b->c < a->c) bad = true;
                    p->items.push_back({a->c, b->c});
                } else p->items.push_back({a->c, a->c});
            }
            i++;
            if (undef) und = true;
            if (bad) rev = true;
            return p;
        }
        return literal();
    }
    bool und{false}, rev{false};
    P orr() {
        auto p = atom();
        if (at('*')) { i++; p = rep(p, 0, 0); }
        else if (at('+')) { i++; p = rep(p, 1, 0); }
        else if (at('{')) {
            i++;
            uint32_t a = number(), b = a;
            if (at(',')) { i++; b = number(); }
            eat('}');
            if (b == 0) p = mk(Empty); else { if (b < a) und = true; if (b > 40) und = true; p = rep(p, a, b); }
        }
        while (at('|')) { i++; p = bin(Or, p, literal()); }
        return p;
    }
    P regex() {
        P p = orr();
        while (i < s.size() && s[i] != ')') p = bin(Cat, p, orr());
        return p;
    }
    P whole() { auto p = regex(); if (i != s.size()) throw Bad{}; if (und) throw Undef{}; if (rev) throw Bad{}; return p; }
};
struct Rule { std::string name, txt; P p; };
static void expect(log_surgeon::SchemaAST const& ast, std::vector<Rule> const& rules, std::vector<std::vector<uint32_t>> const& delims) {
    H::check_eq(ast.m_schema_vars.size(), rules.size(), "number of rules");
    H::check_eq(ast.m_delimiters.size(), delims.size(), "number of delimiter rules");
    for (size_t i = 0; i < delims.size(); i++) {
        auto* d = dynamic_cast<log_surgeon::DelimiterStringAST*>(ast.m_delimiters[i].get());
        H::check(d != nullptr, "a delimiters rule without delimiters");
        H::check_eq(ids_str(d->m_delimiters), ids_str(delims[i]), "delimiters");
    }
    std::vector<uint32_t> bytes;
    for (uint32_t c = 0; c < 128; c++) bytes.push_back(c);
    bytes.push_back(200);
    CS all; all.set();
    for (size_t i = 0; i < rules.size(); i++) {
        auto* v = dynamic_cast<log_surgeon::SchemaVarAST*>(ast.m_schema_vars[i].get());
        H::check(v != nullptr, "a rule without a pattern");
        H::check_eq(v->m_name, rules[i].name, "name of rule " + std::to_string(i));
        std::string save = H::cur_case;
        H::cur_case = "rule " + rules[i].name + ":" + rules[i].txt + "\n" + H::cur_case;
        if (weight(*rules[i].p) < 150) {
            std::vector<log_surgeon::LexicalRule<NS>> lr;
            lr.emplace_back(3, AstP(v->m_regex_ptr->clone()));
            fa::RegexNFA<NS> nfa(std::move(lr));
            compare_nfa(nfa, Ref({rules[i].p}, all), {3}, bytes, 60);
        }
        H::cur_case = save;
    }
}
static bool parse(std::string const& t, std::unique_ptr<log_surgeon::SchemaAST>& a, bool file) {
    try {
        if (file) {
            { std::ofstream f("schema_p06.txt", std::ios::binary); f << t; }
            a = SchemaParser::try_schema_file("schema_p06.txt");
            unlink("schema_p06.txt");
        } else a = SchemaParser::try_schema_string(t);
        return a != nullptr;
    } catch (std::runtime_error const&) { return false; }
}
static void verdict(std::string const& pat) {  // one pattern text
    if (pat.find("delimiters") != std::string::npos) return;
    std::string t = "delimiters:,\nr1:a\nx:" + pat + "\nr2:b";
    H::begin("schema:\n" + t);
    P want; int kind = 0;
    try { Doc d{pat}; want = d.whole(); } catch (Bad&) { kind = 1; } catch (Undef&) { kind = 2; }
    std::unique_ptr<log_surgeon::SchemaAST> a;
    if (kind == 2) return;
    bool ok = parse(t, a, false);
    if (kind == 1) { H::check(!ok, "text that is not in the syntax is accepted"); return; }
    H::check(ok, "text that is in the syntax is rejected");
    expect(*a, {{"r1", "a", lit('a')}, {"x", pat, want}, {"r2", "b", lit('b')}}, {{','}});
}
void run(H::Rng& rng) {
    // fixed texts first
    for (char const* p : {"a|b", "ab|c", "a|b|c", "a*|b", "a|b*", "a|(b*)", "ab*", "(ab)*", "a{3}", "a{0}", "a{0,2}", "a{1,3}", "a{12}", "a{10,21}", "[a-c]", "[^a-c]", "[a-cx-z]", "[^]", "[\\d]", "[a\\d]", "[^\\d]",
                          "[\\]]", "[\\-a]", "[a\\-z]", "[z-a]", "[a-a]", "\\d+", "\\s", "\\.", "\\t\\n\\v\\f\\r", "\\(\\)\\*\\+\\-\\.\\[\\]\\\\\\^\\{\\}\\|\\<\\>\\?", "t", "n\\n", "dsnrtfv", "D", "(?<n>a)", "x(?<n>a|b)*y",
                          "(?<n>(?<m>a)b)c", "(?<delim>a)", "a b", " ", "!\"#$%&',/:;=@_`~", "//", ".", ".*", "0", "{2}", "a{", "a{}", "a{,2}", "a{2,}", "a{2", "a{b}", "a**", "a+*", "a{2}{3}", "*", "+a", "|a", "a|", "a||b",
                          "(", ")", "()", "(a", "a)", "[", "]", "[]", "[a", "a]", "[a-]", "[-a]", "[a--]", "-", "a-b", "^", "^a", "a$", "?", "a?", "<", ">", "\\", "\\q", "\\a", "\\ ", "\\d\\", "(?a)", "(?<>a)", "(?<n>)", "(?<n>a", "(?<n a)",
                          "(<n>a)", "(?<n_1>a)", "{", "}", "a}", "[a^]", "[^^]", "[\\^]", "[.]", "[*]", "[|]", "[a|b]", "[(]", "\t", "a\tb"})
        verdict(p);
    static std::string const specials = "()*+-.[]\\^{}|<>?,01d:a";
    for (uint64_t it = 0; H::time_left(); it++) {
        Gen g{rng}; g.unbounded_min = false; g.captures = true; g.caps_in_reps = true; g.wide = rng.chance(1, 2); g.hi = 127;
        g.alpha = rng.chance(1, 2) ? std::vector<uint32_t>{'a', 'b', '1', 'd', 't', '-', ']'} : std::vector<uint32_t>{'/', ' ', 's', '\\', '\n', '^', 'n', ':', '0', '9'};
        auto ok_chars = [](std::string const& s) { for (unsigned char c : s) if (c < 32 || c > 126) return false; return s.find("delimiters") == std::string::npos; };
        if (it % 3 != 0) {
            auto p = g.gen(3);
            if (weight(*p) > 60) continue;
            std::string t = text(*p);
            size_t m = rng(4);
            for (size_t k = 0; k < m; k++) {
                size_t at = rng(t.size() + 1);
                char c = specials[rng(specials.size())];
                switch (rng(3)) { case 0: t.insert(at, 1, c); break; case 1: if (at < t.size()) t.erase(at, 1); break; default: if (at < t.size()) t[at] = c; }
            }
            if (!ok_chars(t) || t.empty()) continue;
            verdict(t);
            continue;
        }
        // a whole schema
        std::string t; std::vector<Rule> rules; std::vector<std::vector<uint32_t>> delims;
        bool crlf = rng.chance(1, 3), longone = it % 24 == 3 || (it % 96 == 6);
        std::string nl = crlf ? "\r\n" : "\n";
        size_t target = longone ? 24000 + rng(it % 96 == 6 ? 60000 : 200) : rng(1500);
        if (it % 24 == 3) target = 23900 + rng(400);
        size_t comments_only = rng.chance(1, 6) ? 12000 : 0;
        bool first = true;
        while (t.size() < target || first || comments_only > t.size()) {
            std::string line;
            unsigned k = static_cast<unsigned>(rng(8));
            if (first && rng.chance(1, 2)) k = 0;
            if (t.size() < comments_only) k = 1;
            if (k == 0) {
                std::vector<uint32_t> d;
                line = "delimiters:";
                size_t n = 1 + rng(6);
                for (size_t i = 0; i < n; i++) { uint32_t c = rng.chance(1, 3) ? rng.pick(std::vector<uint32_t>{'\n', '\t', '\r', '\v', '\f'}) : 32 + static_cast<uint32_t>(rng(95)); if (c == '\\' && rng.chance(1, 2)) c = '-'; d.push_back(c); line += chr(c); }
                if (line.find("delimiters", 10) != std::string::npos) continue;
                delims.push_back(d);
            } else if (k == 1) {
                line = "//";
                size_t n = 1 + rng(90);
                for (size_t i = 0; i < n; i++) line += static_cast<char>(32 + rng(95));
                if (rng.chance(1, 3)) line += rng.chance(1, 2) ? " delimiters: x" : "\ta:b";
            } else if (k == 2 && !first) {
                line = "";
            } else {
                if (rng.chance(1, 6)) line += std::string(1 + rng(3), ' ');
                std::string n;
                static std::string const al = "abcdnrstvfxyzABCXYZ0123456789delimitrs";
                size_t nn = 1 + rng(12);
                for (size_t i = 0; i < nn; i++) n += al[rng(al.size())];
                if (n.find("delimiters") != std::string::npos) continue;
                P p; std::string pt;
                for (int tries = 0; tries < 50; tries++) { p = g.gen(static_cast<int>(rng(5))); pt = text(*p); if (weight(*p) < 60 && pt.size() < 400 && ok_chars(pt)) break; p = nullptr; }
                if (!p) { p = lit('a'); pt = "a"; }
                if (rng.chance(1, 20)) { for (int i = 0; i < 200; i++) { pt += "x"; p = bin(Cat, p, lit('x')); } }
                line += n + ":" + pt;
                rules.push_back({n, pt, p});
            }
            t += (first ? "" : nl) + line;
            first = false;
        }
        if (rng.chance(1, 2)) t += nl;
        bool file = rng.chance(1, 3);
        H::begin(std::string(file ? "schema file" : "schema") + " of " + std::to_string(t.size()) + " bytes:\n" + (t.size() < 6000 ? t : t.substr(0, 6000) + "..."));
        std::unique_ptr<log_surgeon::SchemaAST> a;
        H::check(parse(t, a, file), "a schema in the syntax is rejected");
        expect(*a, rules, delims);
    }
    std::unique_ptr<log_surgeon::SchemaAST> a;
    H::begin("a schema file that does not exist");
    bool threw = false;
    try { a = SchemaParser::try_schema_file("does_not_exist_p06"); } catch (std::runtime_error const&) { threw = true; }
    H::check(threw, "no error");
}
