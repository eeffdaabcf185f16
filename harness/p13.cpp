// P13: a parser that was used and reset against a new one.
#include "log.hpp"
using namespace L;
static std::string flags(LogEventView const& v) { return std::string(v.is_multiline() ? "multiline " : "") + v.get_logtype() + "|" + v.to_string(); }
struct Res { std::vector<Ev> ev; std::vector<std::string> fl; std::vector<size_t> off; };
static Res rd(ReaderParser& p, std::string const& T, size_t max_events = SIZE_MAX) {
    Res r;
    r.ev = by_reader(p, T, [&](ReaderParser& q, size_t) { r.fl.push_back(flags(q.get_log_parser().get_log_event_view())); }, max_events);
    return r;
}
static Res bf(BufferParser& p, std::string const& T, size_t max_events = SIZE_MAX) {
    Res r;
    r.ev = by_buffer(p, T, [&](BufferParser& q, size_t, size_t off) { r.fl.push_back(flags(q.get_log_parser().get_log_event_view())); r.off.push_back(off); }, max_events);
    return r;
}
static void eq(Res const& a, Res const& b, std::string const& how) {
    compare(a.ev, b.ev, how);
    for (size_t i = 0; i < a.fl.size(); i++) H::check_eq(a.fl[i], b.fl[i], how + ", properties of event " + std::to_string(i));
    for (size_t i = 0; i < a.off.size(); i++) H::check_eq(a.off[i], b.off[i], how + ", offset of event " + std::to_string(i));
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        Src src(rng); src.schema();
        H::begin("schema:\n" + src.sch.txt);
        BufferParser bp(ast(src.sch)); ReaderParser rp(ast(src.sch));
        std::string hist;
        for (int k = 0; k < 12 && H::time_left(); k++) {
            // something to leave traces: complete, abandoned, failed, or long enough to grow the buffer
            auto A = src.text(20);
            unsigned kind = static_cast<unsigned>(rng(5));
            if (kind == 4) { A += std::string(rng(60000), rng.chance(1, 2) ? 'a' : '\n'); A += src.text(10); if (rng.chance(1, 2)) A += std::string(50000 + rng(60000), 'b'); A += src.text(10); }
            size_t cut = rng(4);
            hist = "before: \"" + shorten(A) + "\"" + (kind == 0 ? " completely" : kind == 1 ? " failing reader or unfinished buffer" : " at most " + std::to_string(cut) + " events");
            auto T = src.text(k % 4 == 0 ? 40 : 14);
            if (rng.chance(1, 6)) T += std::string(rng(60000), 'a') + src.text(10);
            H::begin("schema:\n" + src.sch.txt + hist + "\ninput after the reset: \"" + shorten(T) + "\"");
            if (kind == 0) { rd(rp, A); bf(bp, A); }
            else if (kind == 1) {
                // the reader fails in the middle
                size_t at = 0, fail_at = rng(3), calls = 0;
                Reader r{[&](char* b, size_t n, size_t& got) -> ErrorCode { if (calls++ >= fail_at) return ErrorCode::Errno; got = std::min(n, A.size() - at); if (got == 0) return ErrorCode::EndOfFile; memcpy(b, A.data() + at, got); at += got; return ErrorCode::Success; }};
                rp.reset_and_set_reader(r);
                for (size_t i = 0; i < cut && !rp.done(); i++) if (rp.parse_next_event() != ErrorCode::Success) break;
                bp.reset();
                size_t off = 0; std::vector<char> b(A.begin(), A.end()); if (b.empty()) b.push_back('x');
                for (size_t i = 0; i < cut; i++) if (bp.parse_next_event(b.data(), A.size(), off, false) != ErrorCode::Success) break;
            } else { rd(rp, A, cut + 1); bf(bp, A, cut + 1); }
            BufferParser nb(ast(src.sch)); ReaderParser nr(ast(src.sch));
            eq(bf(bp, T), bf(nb, T), "buffer parser");
            eq(rd(rp, T), rd(nr, T), "reader parser");
        }
    }
}
