// P12: the buffer parser fed piece by piece against one call on the whole text.
#include "log.hpp"
#include <sanitizer/asan_interface.h>
using namespace L;
static Ev norm(Ev e) { for (auto& t : e.toks) for (auto& i : t.first) if (i == FTS) i = NTS; return e; }
static void piecewise(BufferParser& p, std::string const& T, std::vector<Ev> const& want, H::Rng& rng, unsigned style) {
    std::vector<char> buf(T.size() + 1, '\n');  // what lies behind the valid bytes must not matter
    for (auto& c : buf) c = "\n ,a1"[rng(5)];
    size_t base = 0, valid = 0, off = 0, i = 0, pos = 0, calls = 0;
    std::string log;
    bool shiftable = rng.chance(1, 2);
    p.reset();
    auto say = [&](std::string const& m) { H::fail(m + "\ncalls: " + log); };
    while (!p.done()) {
        bool fin = base + valid == T.size() && (rng.chance(3, 4) || calls > 4 * T.size() + 20);
        size_t off0 = off;
        // the parser reads no byte outside of the buffer it is given
        ASAN_POISON_MEMORY_REGION(buf.data() + valid, buf.size() - valid);
        auto err = p.parse_next_event(buf.data(), valid, off, fin);
        ASAN_UNPOISON_MEMORY_REGION(buf.data() + valid, buf.size() - valid);
        log += "parse(size " + std::to_string(valid) + ", offset " + std::to_string(off0) + (fin ? ", finished" : "") + ") -> " + (err == ErrorCode::Success ? "event" : "error") + ", offset " + std::to_string(off) + "\n";
        if (log.size() > 6000) log.erase(0, 3000);
        if (++calls > 20 * T.size() + 200) say("no progress");
        if (err == ErrorCode::Success) {
            if (i >= want.size()) say("more events than in one call");
            auto got = read_event(p.get_log_parser().get_log_event_view(), p.done());
            auto g = norm(got), w = norm(want[i]);
            if (g.ts != w.ts || g.toks != w.toks || g.done != w.done) say("event " + std::to_string(i) + ": got " + show(g) + "\nin one call " + show(w));
            pos += want[i].text().size();
            if (base + off != pos) say("the offset after event " + std::to_string(i) + " is " + std::to_string(base + off) + ", the event ends at " + std::to_string(pos));
            i++;
            if (!shiftable || rng.chance(1, 2) || p.done()) continue;
            p.reset();
            log += "reset\n";
        } else {
            if (err != ErrorCode::BufferOutOfBounds) say("unexpected error");
            if (fin) say("the parser asks for more of a finished input");
            if (off != off0) say("the offset changes although there is no event");
            if (p.done()) say("the parser is done although there was no event");
        }
        if (rng.chance(1, 2)) {
            memmove(buf.data(), buf.data() + off, valid - off);
            base += off; valid -= off; off = 0;
            log += "moved the unparsed bytes to the front\n";
        }
        size_t k = std::min<size_t>(style == 0 ? 1 : style == 1 ? rng(6) : rng(T.size() + 1), T.size() - base - valid);
        memcpy(buf.data() + valid, T.data() + base + valid, k);
        valid += k;
    }
    if (i != want.size()) say("done after " + std::to_string(i) + " of " + std::to_string(want.size()) + " events");
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        Src src(rng); src.schema();
        H::begin("schema:\n" + src.sch.txt);
        BufferParser bp(ast(src.sch));
        for (int k = 0; k < 80 && H::time_left(); k++) {
            auto T = src.text(k % 10 == 0 ? 60 : 14);
            H::begin("schema:\n" + src.sch.txt + "input: \"" + shorten(T) + "\"");
            size_t at = 0, n = 0;
            auto want = by_buffer(bp, T, [&](BufferParser& p, size_t i, size_t off) {
                at += read_event(p.get_log_parser().get_log_event_view(), false).text().size();
                H::check_eq(off, at, "the offset after event " + std::to_string(i) + " in one buffer");
                n++;
            });
            H::check_eq(at, T.size(), "the end of the last event");
            for (int r = 0; r < 4; r++) piecewise(bp, T, want, rng, static_cast<unsigned>(rng(3)));
        }
    }
}
