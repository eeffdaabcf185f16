// P07: the rules that a schema denotes.
#include "log.hpp"
#include <fstream>
using namespace L;
static bool build(std::string const& t, std::unique_ptr<BufferParser>& p) {
    auto a = SchemaParser::try_schema_string(t);  // the text is in the syntax
    try { p = std::make_unique<BufferParser>(std::move(a)); return true; } catch (std::runtime_error const&) { return false; }
}
static std::vector<uint32_t> types(BufferParser& p, std::string const& t) {
    p.reset();
    size_t off = 0;
    std::vector<char> b(t.begin(), t.end());
    H::check(p.parse_next_event(b.data(), b.size(), off, true) == ErrorCode::Success, "parsing fails");
    auto e = read_event(p.get_log_parser().get_log_event_view(), p.done());
    if (e.toks.size() != 1 || e.toks[0].second != t) return {};
    return e.toks[0].first;
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        static char const* const names[] = {"aa", "int", "v1", "hex", "bb", "float", "Z9", "x", "timestampx", "newline"};
        static std::string const pool = "\n \t:,;!=#/%&'\"@_`~ab1-.[";
        unsigned mode = static_cast<unsigned>(it % 4);
        if (mode == 0) {  // delimiters: the last rule counts, patterns with delimiters are rejected
            std::vector<std::vector<unsigned char>> ds;
            size_t n = rng(4);
            for (size_t i = 0; i < n; i++) { std::vector<unsigned char> d; size_t m = 1 + rng(5); for (size_t k = 0; k < m; k++) d.push_back(static_cast<unsigned char>(pool[rng(rng.chance(1, 3) ? pool.size() : 12)])); ds.push_back(d); }
            std::vector<std::pair<std::string, P>> vars;
            std::vector<unsigned char> last = ds.empty() ? std::vector<unsigned char>{} : ds.back();
            size_t nv = rng(4);
            R::CS any; any.set(); for (auto c : last) any.reset(c);
            for (size_t i = 0; i < nv; i++) {
                R::Gen g{rng}; g.unbounded_min = false; g.captures = rng.chance(1, 3); g.caps_in_reps = true; g.space = rng.chance(1, 6); g.alpha = {'c', 'd', 'e', '7', 'x', static_cast<uint32_t>(pool[rng(pool.size())])};
                P p; for (int k = 0; k < 50; k++) { p = g.gen(static_cast<int>(rng(4))); if (R::weight(*p) < 50 && R::text(*p).size() < 200) break; p = R::lit('c'); }
                if (rng.chance(2, 3)) {  // without negated sets most patterns are admissible
                    std::function<bool(R::Pat const&)> neg = [&](R::Pat const& q) { return (q.k == R::Set && q.neg) || (q.l && neg(*q.l)) || (q.r && neg(*q.r)); };
                    if (neg(*p)) p = R::mk(R::Any);
                }
                vars.push_back({rng.chance(1, 8) ? "timestamp" : names[rng(10)], p});
            }
            if (!last.empty() && rng.chance(1, 2)) {  // a negated group whose ranges cover the delimiters barely, or all but one
                auto q = R::mk(R::Set);
                q->neg = true;
                size_t skip = rng.chance(1, 3) ? rng(last.size()) : last.size();
                auto ok = [](uint32_t c) { return c >= 33 && c < 127; };
                for (size_t i = 0; i < last.size(); i++) {
                    if (i == skip) continue;
                    uint32_t c = last[i], lo = c, hi = c;
                    if (rng.chance(2, 3)) { uint32_t k = static_cast<uint32_t>(rng(4)); if (ok(c) && ok(c - k)) lo = c - k; }
                    if (rng.chance(1, 2)) { uint32_t k = static_cast<uint32_t>(rng(4)); if (ok(c) && ok(c + k)) hi = c + k; }
                    q->items.push_back({lo, hi});
                }
                if (!q->items.empty()) vars.push_back({names[rng(10)], rng.chance(1, 2) ? q : R::rep(q, 1, 0)});
            }
            std::string t; std::vector<std::string> lines;
            for (auto const& d : ds) { std::string l = "delimiters:"; for (auto c : d) l += R::chr(c); lines.push_back(l); }
            // the order of the delimiters rules among each other is kept, the other rules are in between
            for (auto const& [nm, p] : vars) lines.insert(lines.begin() + static_cast<long>(rng(lines.size() + 1)), nm + ":" + R::text(*p));
            if (lines.empty()) continue;
            for (size_t i = 0; i < lines.size(); i++) t += (i ? "\n" : "") + lines[i];
            if (t.find("delimiters", t.find("delimiters") + 1) != std::string::npos && ds.size() < 2) continue;
            H::begin("schema:\n" + t);
            bool want = !ds.empty();
            for (auto const& [nm, p] : vars) if (nm != "timestamp") { auto o = R::occurring(*p, any); for (auto c : last) if (o[c]) want = false; }
            std::unique_ptr<BufferParser> bp;
            bool got = build(t, bp);
            H::check(got == want, want ? "the schema is rejected" : "the schema is accepted although it has no delimiters or a rule that can match one");
            if (!got) continue;
            for (uint32_t c = 0; c < 256; c++) if (c != 0xFD) H::check(bp->get_log_parser().m_lexer.is_delimiter(static_cast<uint8_t>(c)) == (std::find(last.begin(), last.end(), c) != last.end()), "delimiter status of character " + std::to_string(c));
        } else if (mode == 1) {  // the wildcard
            std::vector<unsigned char> d{'\n'};
            size_t m = rng(8); for (size_t k = 0; k < m; k++) d.push_back(static_cast<unsigned char>(rng.chance(1, 2) ? 32 + rng(95) : pool[rng(pool.size())]));
            std::string t = "delimiters:"; for (auto c : d) t += R::chr(c);
            static char const* const forms[] = {".", "(.)", "(?<c>.)", ".+", ".{1,3}", "(.|(.))", "(.)|(.)", "(.){1}"};
            std::string f = forms[rng(8)];
            t += std::string("\nw:") + f;
            H::begin("schema:\n" + t);
            std::unique_ptr<BufferParser> bp;
            H::check(build(t, bp), "the schema is rejected");
            uint32_t id = bp->get_log_parser().m_lexer.m_symbol_id.at("w");
            for (uint32_t c = 1; c < 256; c++) {
                if (c == 0xFD) continue;
                bool isd = std::find(d.begin(), d.end(), c) != d.end();
                auto ty = types(*bp, std::string(1, static_cast<char>(c)));
                if (c == '\n') continue;
                H::check((ty == std::vector<uint32_t>{id}) == !isd, "the wildcard and character " + std::to_string(c));
            }
        } else if (mode == 2) {  // repeated names: one type, both patterns
            static char const* const words[] = {"a", "b", "ab", "1", "abc", "c", "11", "bb"};
            std::vector<std::pair<std::string, std::string>> rules;
            size_t n = 2 + rng(6);
            for (size_t i = 0; i < n; i++) rules.push_back({names[rng(4)], words[rng(8)]});
            std::string t = "delimiters: \\n";
            for (auto const& [a, b] : rules) t += "\n" + a + ":" + b;
            H::begin("schema:\n" + t);
            std::unique_ptr<BufferParser> bp;
            H::check(build(t, bp), "the schema is rejected");
            for (auto const& w : words) {
                std::vector<std::string> want, got;
                for (auto const& [a, b] : rules) if (b == w) want.push_back(a);
                auto ty = types(*bp, w);
                for (auto i : ty) got.push_back(bp->get_log_parser().get_id_symbol(i));
                if (want.empty()) want.push_back("$UncaughtString");
                std::string a, b;
                for (auto const& s : got) a += s + " ";
                for (auto const& s : want) b += s + " ";
                if (a.empty()) a = "(not one token)";
                // a name that matches by two of its rules may be listed once or twice
                std::vector<std::string> ug, uw;
                for (auto const& s : got) if (std::find(ug.begin(), ug.end(), s) == ug.end()) ug.push_back(s);
                for (auto const& s : want) if (std::find(uw.begin(), uw.end(), s) == uw.end()) uw.push_back(s);
                H::check(ug == uw, std::string("types of \"") + w + "\": got " + a + ", expected " + b);
            }
        } else {  // adding variables
            bool file = rng.chance(1, 2);
            std::vector<std::string> want;
            std::unique_ptr<Schema> s;
            std::string desc;
            if (file) {
                std::string t = "delimiters: \\n";
                size_t n = rng(4);
                for (size_t i = 0; i < n; i++) { std::string v = std::string(names[rng(10)]); t += "\n" + v + ":" + static_cast<char>('a' + i); want.push_back(v); }
                { std::ofstream f("schema_p07.txt"); f << t; }
                desc = "schema file:\n" + t + "\n";
                H::begin(desc);
                s = std::make_unique<Schema>("schema_p07.txt");
                unlink("schema_p07.txt");
            } else s = std::make_unique<Schema>();
            size_t n = 1 + rng(6);
            for (size_t i = 0; i < n; i++) {
                int pos = rng.chance(1, 3) ? -1 : static_cast<int>(rng(want.size() + 1));
                std::string v = std::string(names[rng(10)]) + std::to_string(i);
                std::string text = v + ":" + static_cast<char>('h' + i);
                if (rng.chance(1, 4)) text = "// comment\n" + text;
                if (rng.chance(1, 4)) text += "\nother:z";
                desc += "add_variable(\"" + H::esc(text) + "\", " + std::to_string(pos) + ")\n";
                H::begin(desc);
                s->add_variable(text, pos);
                want.insert(pos < 0 ? want.end() : want.begin() + pos, v);
            }
            auto a = s->release_schema_ast_ptr();
            H::check_eq(a->m_schema_vars.size(), want.size(), "number of rules");
            for (size_t i = 0; i < want.size(); i++) H::check_eq(dynamic_cast<SchemaVarAST&>(*a->m_schema_vars[i]).m_name, want[i], "rule " + std::to_string(i));
            H::check_eq(a->m_delimiters.size(), size_t(file ? 1 : 0), "number of delimiters rules");
            auto b = s->release_schema_ast_ptr();
            H::check(b && b->m_schema_vars.empty() && b->m_delimiters.empty(), "the schema is not empty after it was released");
        }
    }
}
