// P11: where events begin and end.
#include "log.hpp"
using namespace L;
static void bounds(std::vector<Ev> const& got, std::vector<Ev> const& want, std::string const& how) {
    for (size_t i = 0; i < std::min(got.size(), want.size()); i++) {
        if (got[i].text() != want[i].text() || got[i].ts != want[i].ts || got[i].done != want[i].done)
            H::fail(how + ": event " + std::to_string(i) + " is " + (got[i].ts ? "(with timestamp) \"" : "\"") + shorten(got[i].text()) + "\", expected " + (want[i].ts ? "(with timestamp) \"" : "\"") + shorten(want[i].text()) + "\"");
        // a text that is also matched by a variable of higher priority is that variable
        for (size_t k = 0; k < got[i].toks.size(); k++) { auto id = got[i].toks[k].first[0]; H::check((id != FTS && id != NTS) || (k == 0 && got[i].ts), how + ": a timestamp inside of event " + std::to_string(i) + ": " + show(got[i])); }
        H::check(!got[i].ts || (!got[i].toks.empty() && (got[i].toks[0].first[0] == FTS || got[i].toks[0].first[0] == NTS)), how + ": the timestamp of event " + std::to_string(i) + " is not its first token");
    }
    H::check(got.size() == want.size(), how + ": " + std::to_string(got.size()) + " events instead of " + std::to_string(want.size()));
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        Src src(rng);
        bool has = false;
        for (int k = 0; k < 20 && !has; k++) { src.schema(); for (auto const& [n, p] : src.sch.vars) has = has || n == "timestamp"; if (rng.chance(1, 5)) break; }
        P ts;
        for (auto const& [n, p] : src.sch.vars) if (n == "timestamp") ts = p;
        Model m(src.sch);
        H::begin("schema:\n" + src.sch.txt);
        BufferParser bp(ast(src.sch)); ReaderParser rp(ast(src.sch));
        for (int k = 0; k < 150 && H::time_left(); k++) {
            std::string T;
            size_t n = rng(k % 10 == 0 ? 60 : 14);
            for (size_t i = 0; i < n; i++) {
                unsigned q = static_cast<unsigned>(rng(8));
                if (q < 2 && ts) { auto s = sample(*ts, rng, src.any); if (rng.chance(2, 3)) s = "\n" + s; if (rng.chance(1, 6) && !s.empty()) s.resize(rng(s.size())); T += s; if (rng.chance(1, 2)) T += static_cast<char>(rng.pick(src.sch.delims)); }
                else if (q == 2) T += std::string(1 + rng(2), '\n');
                else T += src.piece();
            }
            H::begin("schema:\n" + src.sch.txt + "input: \"" + shorten(T) + "\"");
            auto want = m.events(T);
            bounds(by_buffer(bp, T), want, "buffer parser");
            if (k % 3 == 0) bounds(by_reader(rp, T), want, "reader parser");
        }
    }
}
