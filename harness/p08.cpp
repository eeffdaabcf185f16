// P08: the tokens of all events, one after the other, are the input, and parsing ends.
#include "log.hpp"
using namespace L;
static void tile(std::vector<Ev> const& ev, std::string const& T, std::string const& how) {
    size_t at = 0;
    for (size_t i = 0; i < ev.size(); i++) {
        for (auto const& [ids, t] : ev[i].toks) {
            H::check(!ids.empty(), how + ": a token without a type");
            H::check(!t.empty(), how + ": an empty token at " + std::to_string(at));
            if (T.compare(at, t.size(), t) != 0) H::fail(how + ": event " + std::to_string(i) + " has the token \"" + shorten(t) + "\" where the input has \"" + shorten(T.substr(at, t.size())) + "\" (position " + std::to_string(at) + ")");
            at += t.size();
        }
        H::check(ev[i].done == (i + 1 == ev.size()), how + ": the end is reported at event " + std::to_string(i) + " of " + std::to_string(ev.size()));
    }
    if (at != T.size()) H::fail(how + ": only " + std::to_string(at) + " of " + std::to_string(T.size()) + " characters belong to an event");
}
static std::string big(Src& src, H::Rng& rng, size_t n) {
    std::string s;
    while (s.size() < n) {
        unsigned k = static_cast<unsigned>(rng(6));
        size_t len = rng.chance(1, 4) ? 1 + rng(30000) : 1 + rng(300);
        if (k == 0) s += std::string(len, static_cast<char>("ab1c-z"[rng(6)]));
        else if (k == 1) s += std::string(1 + rng(3), '\n');
        else for (size_t e = s.size() + len; s.size() < e;) s += src.piece();
    }
    s.resize(n);
    return s;
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        Src src(rng); src.schema();
        H::begin("schema:\n" + src.sch.txt);
        BufferParser bp(ast(src.sch)); ReaderParser rp(ast(src.sch));
        for (int k = 0; k < 60 && H::time_left(); k++) {
            auto T = k % 15 == 14 ? big(src, rng, rng.chance(1, 2) ? 23990 + rng(20) + 24000 * rng(5) : rng(120000)) : src.text(k % 10 == 0 ? 80 : 14);
            if (k % 12 == 5) { std::string r; for (size_t i = rng(40); i > 0; i--) { auto c = static_cast<char>(rng(256)); r += c == static_cast<char>(0xFD) ? '?' : c; } T = r; }
            H::begin("schema:\n" + src.sch.txt + "input: \"" + shorten(T) + "\"");
            tile(by_buffer(bp, T), T, "buffer parser");
            tile(by_reader(rp, T), T, "reader parser");
        }
    }
}
