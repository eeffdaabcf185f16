// P14: what an event says about itself against its tokens, and deep copies after the parser went on.
#include "log.hpp"
using namespace L;
struct Facts {
    std::string text, logtype; bool ts, multi; std::vector<std::pair<std::vector<uint32_t>, std::string>> toks; std::vector<std::vector<std::string>> occ; std::string stamp;
};
static Facts facts(LogEventView const& v) {
    Facts f;
    f.ts = v.get_log_output_buffer()->has_timestamp();
    f.multi = v.is_multiline();
    f.text = v.to_string();
    f.logtype = v.get_logtype();
    f.toks = read_event(v, false).toks;
    f.stamp = v.get_timestamp() == nullptr ? "(none)" : v.get_timestamp()->to_string();
    size_t n = v.get_log_parser().m_lexer.m_id_symbol.size();
    for (size_t i = 0; i < n; i++) { f.occ.emplace_back(); for (auto* t : v.get_variables(i)) f.occ.back().push_back(t->to_string()); }
    return f;
}
static void check(Facts const& f, Model const& m, std::string const& how) {
    std::string text;
    for (auto const& t : f.toks) text += t.second;
    H::check_eq(f.text, text, how + ": text of the event");
    std::vector<std::vector<std::string>> occ(f.occ.size());
    for (auto const& t : f.toks) { H::check(t.first[0] < occ.size(), how + ": a type without occurrences"); occ[t.first[0]].push_back(t.second); }
    for (size_t i = 0; i < occ.size(); i++) if (occ[i] != f.occ[i]) {
        std::string a, b; for (auto& s : f.occ[i]) a += "\"" + H::esc(s) + "\" "; for (auto& s : occ[i]) b += "\"" + H::esc(s) + "\" ";
        H::fail(how + ": occurrences of type " + std::to_string(i) + ": got " + a + ", the tokens are " + b);
    }
    H::check_eq(f.stamp, f.ts ? f.toks.at(0).second : std::string("(none)"), how + ": timestamp");
    std::map<uint32_t, std::string> nm;
    for (auto const& [n, i] : m.ids) nm[i] = n;
    std::string lt;
    for (size_t i = f.ts ? 1 : 0; i < f.toks.size(); i++) {
        auto const& [ids, t] = f.toks[i];
        if (ids[0] == STATIC) { lt += t; continue; }
        if (ids[0] != NL && m.sch.is_delim(static_cast<unsigned char>(t[0]))) lt += t[0];
        lt += "<" + nm.at(ids[0]) + ">";
    }
    H::check_eq(H::esc(f.logtype), H::esc(lt), how + ": logtype");
    if (f.ts) {
        auto p = text.find('\n');
        H::check_eq(f.multi, p != std::string::npos && p + 1 < text.size(), how + ": multiline");
    }
}
static void equal(Facts const& a, Facts const& b, std::string const& how) {
    H::check_eq(H::esc(a.text), H::esc(b.text), how + ": text");
    H::check_eq(H::esc(a.logtype), H::esc(b.logtype), how + ": logtype");
    H::check(a.ts == b.ts && a.stamp == b.stamp, how + ": timestamp");
    H::check_eq(a.multi, b.multi, how + ": multiline");
    H::check(a.toks == b.toks, how + ": tokens");
    H::check(a.occ == b.occ, how + ": occurrences");
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        Src src(rng); src.schema();
        if (rng.chance(1, 2)) { bool has = false; for (auto& [n, p] : src.sch.vars) has |= n == "timestamp"; if (!has) { src.sch.vars.push_back({"timestamp", R::bin(R::Cat, R::rep(R::mk(R::Digit), 1, 0), R::lit(':'))}); src.sch.finish(); } }
        Model m(src.sch);
        H::begin("schema:\n" + src.sch.txt);
        BufferParser bp(ast(src.sch)); ReaderParser rp(ast(src.sch));
        for (int k = 0; k < 60 && H::time_left(); k++) {
            auto T = src.text(k % 10 == 0 ? 80 : 16);
            bool many = k == 58, lng = k == 59;
            if (many) { T.clear(); while (T.size() < 30000) { T += src.piece(); if (T.size() % 97 == 0) T += '\n'; if (T.size() < 26000) T.erase(std::remove(T.begin(), T.end(), '\n'), T.end()); } }
            if (lng) T += std::string(20000 + rng(60000), 'a') + src.text(40);
            H::begin("schema:\n" + src.sch.txt + "input: \"" + shorten(T) + "\"");
            std::vector<Facts> fs; std::vector<std::unique_ptr<LogEvent>> copies;
            auto keep = [&](LogEventView const& v, size_t i) {
                auto f = facts(v);
                check(f, m, "event " + std::to_string(i));
                if (!f.text.empty() && (copies.size() < 40 || rng.chance(1, 10))) {
                    if (rng.chance(1, 2)) copies.push_back(std::make_unique<LogEvent>(v.deep_copy())); else copies.push_back(std::make_unique<LogEvent>(v));
                    equal(facts(*copies.back()), f, "copy of event " + std::to_string(i));
                    auto g = facts(v);
                    equal(g, f, "event " + std::to_string(i) + " after it was copied");
                    fs.push_back(f);
                }
            };
            if (k % 2) by_reader(rp, T, [&](ReaderParser& p, size_t i) { keep(p.get_log_parser().get_log_event_view(), i); });
            else by_buffer(bp, T, [&](BufferParser& p, size_t i, size_t) { keep(p.get_log_parser().get_log_event_view(), i); });
            if (rng.chance(1, 2)) { by_reader(rp, src.text(10)); by_buffer(bp, src.text(10)); bp.reset(); }
            for (size_t i = 0; i < copies.size(); i++) {
                equal(facts(*copies[i]), fs[i], "copy of an event (" + H::esc(fs[i].text.substr(0, 100)) + ") after the parser went on");
                if (rng.chance(1, 4)) { LogEvent c2(static_cast<LogEventView const&>(*copies[i])); copies[i].reset(); equal(facts(c2), fs[i], "copy of a copy"); }
            }
        }
    }
}
