// Reference for parsing: tokens and events computed from the whole text at once.
#pragma once
#include "ref.hpp"
#include <log_surgeon/BufferParser.hpp>
#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/SchemaParser.hpp>
#include <log_surgeon/Schema.hpp>

namespace L {
using namespace log_surgeon;
using R::P;
struct Tok { size_t s, e; std::vector<uint32_t> ids; };
struct Ev {
    bool ts{false}, done{false};
    std::vector<std::pair<std::vector<uint32_t>, std::string>> toks;
    size_t s{0}, e{0};
    std::string text() const { std::string r; for (auto const& t : toks) r += t.second; return r; }
};
static uint32_t const END = 0, STATIC = 1, FTS = 5, NTS = 6, NL = 7;
struct Sch {
    std::vector<unsigned char> delims;
    std::vector<std::pair<std::string, P>> vars;
    std::string txt;
    bool is_delim(unsigned char c) const { return std::find(delims.begin(), delims.end(), c) != delims.end(); }
    void finish() {
        txt = "delimiters:";
        for (auto c : delims) txt += R::chr(c);
        txt += "\n";
        for (auto const& [n, p] : vars) txt += n + ":" + R::text(*p) + "\n";
    }
};
inline P no_wild(P const& p, std::vector<unsigned char> const& d) {
    auto q = std::make_shared<R::Pat>(*p);
    if (q->k == R::Any) { q->k = R::Set; q->neg = true; for (auto c : d) q->items.push_back({c, c}); q->items.push_back({0xFD, 0xFD}); return q; }
    if (q->l) q->l = no_wild(q->l, d);
    if (q->r) q->r = no_wild(q->r, d);
    return q;
}
struct Model {
    Sch sch;
    std::map<std::string, uint32_t> ids{{"$end", 0}, {"$UncaughtString", 1}, {"int", 2}, {"float", 3}, {"hex", 4}, {"firstTimestamp", 5}, {"newLineTimestamp", 6}, {"newLine", 7}};
    std::vector<uint32_t> rule_ids;
    std::unique_ptr<R::RefDfa> dfa;
    std::vector<std::vector<uint32_t>> acc_ids;
    explicit Model(Sch s) : sch(std::move(s)) {
        std::vector<P> ps{R::lit('\n')}; rule_ids.push_back(NL);
        auto dset = R::mk(R::Set);
        for (auto c : sch.delims) dset->items.push_back({c, c});
        dset->items.push_back({0xFD, 0xFD});
        for (auto const& [n, p] : sch.vars) {
            if (n == "timestamp") {
                ps.push_back(R::bin(R::Cat, R::lit(0xFD), p)); rule_ids.push_back(FTS);
                ps.push_back(R::bin(R::Cat, R::lit('\n'), p)); rule_ids.push_back(NTS);
            } else {
                if (!ids.count(n)) { auto k = ids.size(); ids[n] = static_cast<uint32_t>(k); }
                ps.push_back(R::bin(R::Cat, dset, no_wild(p, sch.delims))); rule_ids.push_back(ids[n]);
            }
        }
        R::CS all; all.set();
        dfa = std::make_unique<R::RefDfa>(ps, all);
    }
    std::vector<uint32_t> acc(int s) {
        std::vector<uint32_t> r;
        if (s >= 0) for (int i : dfa->accs[s]) r.push_back(rule_ids[i]);
        return r;
    }
    std::vector<Tok> tokens(std::string const& T) {
        std::vector<Tok> r;
        size_t n = T.size(), s = 0, last = 0;
        bool sof = true;
        while (true) {
            int st = sof ? dfa->step(0, 0xFD) : 0;
            size_t j = s; long best = -1; std::vector<uint32_t> ids;
            size_t s0 = s;
            if (st >= 0) while (true) {
                if ((j == n || sch.is_delim(static_cast<unsigned char>(T[j]))) && !dfa->accs[st].empty()) { best = static_cast<long>(j); ids = acc(st); }
                if (j == n) break;
                unsigned char c = static_cast<unsigned char>(T[j]);
                if (c == '\n' && best < 0) {
                    if (sof && j > s0) break;
                    s = j; st = dfa->step(0, c); best = static_cast<long>(j) + 1; ids = acc(st); j++;
                    continue;
                }
                st = dfa->step(st, c);
                if (st < 0) break;
                j++;
            }
            if (best >= 0) {
                if (last < s) r.push_back({last, s, {STATIC}});
                r.push_back({s, static_cast<size_t>(best), ids});
                last = s = static_cast<size_t>(best); sof = false;
                continue;
            }
            // no match: the next delimiter that starts a rule
            size_t k = sof ? s0 : s0 + 1;
            while (k < n && !(sch.is_delim(static_cast<unsigned char>(T[k])) && dfa->step(0, static_cast<unsigned char>(T[k])) >= 0)) k++;
            sof = false;
            if (k >= n) { if (last < n) r.push_back({last, n, {STATIC}}); return r; }
            s = k;
        }
    }
    std::vector<Ev> events(std::string const& T) {
        auto tk = tokens(T);
        std::vector<Ev> r;
        size_t i = 0;
        bool carry = false; Tok ct{};
        auto add = [&](Ev& e, std::vector<uint32_t> ids, size_t a, size_t b) { if (e.toks.empty()) e.s = a; e.toks.push_back({ids, T.substr(a, b - a)}); e.e = b; };
        while (true) {
            Ev e; e.s = e.e = r.empty() ? 0 : r.back().e;
            bool first = true;
            bool ended = false;
            while (true) {
                Tok t;
                bool from_carry = false;
                if (carry) { t = ct; carry = false; from_carry = true; }
                else if (i < tk.size()) t = tk[i++];
                else break;
                if (first && (t.ids[0] == FTS || (from_carry && t.ids[0] == NTS))) { e.ts = true; add(e, t.ids, t.s, t.e); first = false; continue; }
                bool bound = e.ts ? t.ids[0] == NTS : (T[t.s] == '\n' && !from_carry);
                first = false;
                if (!bound) { add(e, t.ids, t.s, t.e); continue; }
                if (t.ids[0] == NL) add(e, t.ids, t.s, t.e);
                else { add(e, {STATIC}, t.s, t.s + 1); ct = Tok{t.s + 1, t.e, t.ids}; carry = true; }
                ended = true;
                break;
            }
            e.done = !ended;
            r.push_back(e);
            if (!ended) return r;
        }
    }
};
inline std::string show(Ev const& e) {
    std::string o = e.ts ? "ts " : "";
    for (auto const& [ids, t] : e.toks) o += "<" + R::ids_str(ids) + "\"" + H::esc(t.size() > 200 ? t.substr(0, 100) + "..." + t.substr(t.size() - 100) : t) + "\"> ";
    return o + (e.done ? "(done)" : "");
}
inline Ev read_event(LogEventView const& v, bool done) {
    Ev e; e.done = done;
    auto const& ob = v.get_log_output_buffer();
    e.ts = ob->has_timestamp();
    for (uint32_t i = e.ts ? 0 : 1; i < ob->pos(); i++) { auto& t = ob->get_mutable_token(i); e.toks.push_back({*t.m_type_ids_ptr, t.to_string()}); }
    return e;
}
inline void same(Ev const& got, Ev const& want, std::string const& where, bool done_too = true) {
    if (got.ts != want.ts || got.toks != want.toks || (done_too && got.done != want.done))
        H::fail(where + ": got " + show(got) + "\nexpected " + show(want));
}
inline std::string sample(R::Pat const& p, H::Rng& rng, R::CS const& any) {
    switch (p.k) {
        case R::Empty: return "";
        case R::Cat: { auto a = sample(*p.l, rng, any); return a + sample(*p.r, rng, any); }
        case R::Or: return sample(rng.chance(1, 2) ? *p.l : *p.r, rng, any);
        case R::Cap: return sample(*p.l, rng, any);
        case R::Rep: {
            uint32_t n = p.max == 0 ? p.min + static_cast<uint32_t>(rng(3)) : p.min + static_cast<uint32_t>(rng(p.max - p.min + 1));
            std::string r; for (uint32_t i = 0; i < n; i++) r += sample(*p.l, rng, any);
            return r;
        }
        default: {
            auto s = R::chars(p, any); std::vector<int> c;
            for (int i = 32; i < 127; i++) if (s[i]) c.push_back(i);
            if (c.empty()) for (int i = 1; i < 256; i++) if (s[i]) c.push_back(i);
            if (c.empty()) return "";
            return std::string(1, static_cast<char>(rng.pick(c)));
        }
    }
}
struct Src {
    H::Rng& rng; Sch sch; R::CS any;
    explicit Src(H::Rng& r) : rng(r) {}
    void schema() {
        static std::string const pool = " \t:,;!=#/";
        sch = Sch{};
        sch.delims.push_back('\n');
        size_t nd = 1 + rng(4);
        for (size_t i = 0; i < nd; i++) { auto c = static_cast<unsigned char>(pool[rng(pool.size())]); if (!sch.is_delim(c)) sch.delims.push_back(c); }
        if (rng.chance(1, 3)) std::swap(sch.delims[0], sch.delims.back());
        any.set(); for (auto c : sch.delims) any.reset(c); any.reset(0xFD);
        static char const* const names[] = {"aa", "int", "v1", "hex", "bb", "float", "Z9"};
        size_t nv = rng(5);
        unsigned tsmode = static_cast<unsigned>(rng(4));
        for (size_t i = 0; i < nv + 2; i++) {
            if (tsmode > 0 && (i == 0 || (tsmode == 2 && i == 1))) {
                // timestamps contain delimiters
                auto d = R::lit(sch.delims[rng(sch.delims.size())]);
                if (d->c == '\n') d = R::lit('-');
                P p = R::bin(R::Cat, R::bin(R::Cat, R::rep(R::mk(R::Digit), 1, 1 + static_cast<uint32_t>(rng(3))), d), rng.chance(1, 2) ? R::mk(R::Digit) : R::rep(R::mk(R::Digit), 1, 0));
                if (rng.chance(1, 3)) p = R::bin(R::Cat, p, R::rep(R::bin(R::Cat, R::lit('.'), R::mk(R::Digit)), 0, 1));
                if (rng.chance(1, 4)) p = R::bin(R::Cat, R::lit('['), R::bin(R::Cat, p, R::lit(']')));
                if (rng.chance(1, 4)) p = R::bin(R::Cat, p, R::bin(R::Cat, d, R::bin(R::Or, R::lit('a'), R::lit('b'))));
                sch.vars.push_back({"timestamp", p});
                continue;
            }
            R::Gen g{rng}; g.alpha = {'a', 'b', '1', '-', 'c'}; g.empty = false; g.space = false; g.unbounded_min = false; g.captures = rng.chance(1, 3);
            P p;
            for (int tries = 0; tries < 30; tries++) {
                p = rng.chance(1, 3) ? g.gen(1) : g.gen(3);
                // a negated set has to exclude the delimiters
                std::function<void(R::Pat&)> excl = [&](R::Pat& q) {
                    if (q.k == R::Set && q.neg) for (auto c : sch.delims) q.items.insert(q.items.begin() + static_cast<long>(rng(q.items.size() + 1)), {c, c});
                    if (q.l) excl(*q.l);
                    if (q.r) excl(*q.r);
                };
                excl(*p);
                bool hasd = false; auto o = R::occurring(*p, any); for (auto c : sch.delims) if (o[c]) hasd = true;
                if (!R::nullable(*p) && !hasd && R::weight(*p) < 50) break;
                p = nullptr;
            }
            if (!p) p = R::lit('a');
            sch.vars.push_back({names[rng(7)], p});
        }
        if (rng.chance(1, 2)) for (size_t i = sch.vars.size(); i > 1; i--) std::swap(sch.vars[i - 1], sch.vars[rng(i)]);
        sch.finish();
    }
    std::string piece() {
        unsigned k = static_cast<unsigned>(rng(12));
        if (k < 4 && !sch.vars.empty()) { auto const& [n, p] = rng.pick(sch.vars); auto s = sample(*p, rng, any); if (n == "timestamp" && rng.chance(1, 2)) s = "\n" + s; if (rng.chance(1, 6) && !s.empty()) s.resize(rng(s.size())); return s; }
        if (k < 7) return std::string(1, static_cast<char>(rng.pick(sch.delims)));
        if (k == 7) return "\n";
        if (k == 8) return std::string(1 + rng(3), rng.chance(1, 2) ? '\n' : static_cast<char>(rng.pick(sch.delims)));
        if (k == 9) return std::string(1, static_cast<char>(rng.pick(std::vector<int>{'a', 'b', '1', 'c', '-', 'z', '\r', 0xE4, 0xFF, 0xFE, 1})));
        static char const* const w[] = {"a", "ab", "abc", "1", "11", "word", "zzz", "1-1", "b"};
        return w[rng(9)];
    }
    std::string text(size_t max_pieces) { std::string s; size_t n = rng(max_pieces); for (size_t i = 0; i < n; i++) s += piece(); return s; }
};
inline std::unique_ptr<SchemaAST> ast(Sch const& s) { return SchemaParser::try_schema_string(s.txt); }
// all events of a text through a reader that returns the whole blocks asked for
inline std::vector<Ev> by_reader(ReaderParser& p, std::string const& T, std::function<void(ReaderParser&, size_t)> each = {}, size_t max_events = SIZE_MAX) {
    size_t at = 0;
    Reader rd{[&](char* b, size_t n, size_t& got) -> ErrorCode { got = std::min(n, T.size() - at); if (got == 0) return ErrorCode::EndOfFile; memcpy(b, T.data() + at, got); at += got; return ErrorCode::Success; }};
    p.reset_and_set_reader(rd);
    std::vector<Ev> r;
    while (!p.done()) {
        auto err = p.parse_next_event();
        H::check(err == ErrorCode::Success, "parsing through a reader fails");
        r.push_back(read_event(p.get_log_parser().get_log_event_view(), p.done()));
        if (each) each(p, r.size() - 1);
        H::check(r.size() <= T.size() + 2, "parsing does not end");
        if (r.size() >= max_events) break;
    }
    return r;
}
inline std::vector<Ev> by_buffer(BufferParser& p, std::string T, std::function<void(BufferParser&, size_t, size_t)> each = {}, size_t max_events = SIZE_MAX) {
    p.reset();
    std::vector<Ev> r;
    size_t off = 0;
    std::vector<char> buf(T.begin(), T.end());
    if (buf.empty()) buf.push_back('?');
    while (!p.done()) {
        auto err = p.parse_next_event(buf.data(), T.size(), off, true);
        H::check(err == ErrorCode::Success, "parsing a buffer fails");
        r.push_back(read_event(p.get_log_parser().get_log_event_view(), p.done()));
        if (each) each(p, r.size() - 1, off);
        H::check(r.size() <= T.size() + 2, "parsing does not end");
        if (r.size() >= max_events) break;
    }
    return r;
}
inline std::string shorten(std::string const& t) { return t.size() < 4000 ? H::esc(t) : H::esc(t.substr(0, 1500)) + " ...(" + std::to_string(t.size()) + " bytes)... " + H::esc(t.substr(t.size() - 500)); }
inline void compare(std::vector<Ev> const& got, std::vector<Ev> const& want, std::string const& how) {
    for (size_t i = 0; i < std::min(got.size(), want.size()); i++) same(got[i], want[i], how + ", event " + std::to_string(i));
    H::check(got.size() == want.size(), how + ": " + std::to_string(got.size()) + " events instead of " + std::to_string(want.size()));
}
}  // namespace L
