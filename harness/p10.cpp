// P10: a reader that fills the wrapping and growing buffer against one buffer that holds the whole text.
#include "log.hpp"
using namespace L;
void run(H::Rng& rng) {
    size_t const half = cStaticByteBuffSize / 2;
    for (uint64_t it = 0; H::time_left(); it++) {
        Src src(rng); src.schema();
        // patterns for long tokens
        if (rng.chance(2, 3)) src.sch.vars.push_back({"long", R::rep(R::lit('a'), 1, 0)});
        if (rng.chance(1, 3)) src.sch.vars.push_back({"alt", R::rep(R::bin(R::Cat, R::lit('a'), R::lit('b')), 1, 0)});
        src.sch.finish();
        H::begin("schema:\n" + src.sch.txt);
        BufferParser bp(ast(src.sch)); ReaderParser rp(ast(src.sch));
        for (int k = 0; k < 10 && H::time_left(); k++) {
            std::string T;
            size_t target = half * (1 + rng(k == 9 ? 20 : 6)) + rng(7) - 3;
            if (rng.chance(1, 3)) target = rng(6 * half);
            unsigned style = static_cast<unsigned>(rng(4));
            while (T.size() < target) {
                // the next piece often ends just before, at or behind a boundary of the buffer
                size_t to_b = half - T.size() % half;
                size_t len;
                switch (rng(style == 0 ? 2 : 5)) {
                    case 0: len = to_b + rng(5) - 2; break;
                    case 1: len = to_b + half * rng(3) + rng(5) - 2; break;
                    case 2: len = rng(200); break;
                    case 3: len = rng(3000); break;
                    default: len = rng(half * 2); break;
                }
                if (len > 6 * half) len = 1;
                switch (rng(5)) {
                    case 0: T += std::string(len, 'a'); break;
                    case 1: for (size_t i = 0; i < len; i++) T += i % 2 ? 'b' : 'a'; break;
                    case 2: T += std::string(len, static_cast<char>(src.sch.delims.back())); break;
                    case 3: T += std::string(std::min<size_t>(len, 3000), "z1-"[rng(3)]); break;
                    default: for (size_t e = T.size() + len; T.size() < e;) T += src.piece();
                }
                for (size_t m = rng(4); m > 0; m--) T += src.piece();
                if (style != 1 && rng.chance(1, 2)) T += '\n';
            }
            if (rng.chance(1, 2)) T.resize(target);
            H::begin("schema:\n" + src.sch.txt + "input: \"" + shorten(T) + "\"");
            auto want = by_buffer(bp, T);
            compare(by_reader(rp, T), want, "reader parser");
        }
    }
}
