// P09: tokens of random texts under random schemas against the reference tokenizer.
#include "log.hpp"
using namespace L;
void run(H::Rng& rng) {
    while (H::time_left()) {
        Src src(rng); src.schema();
        Model m(src.sch);
        std::unique_ptr<BufferParser> bp; std::unique_ptr<ReaderParser> rp;
        H::begin("schema:\n" + src.sch.txt);
        bp = std::make_unique<BufferParser>(ast(src.sch));
        rp = std::make_unique<ReaderParser>(ast(src.sch));
        for (int k = 0; k < 150 && H::time_left(); k++) {
            auto T = src.text(k % 10 == 0 ? 60 : 14);
            H::begin("schema:\n" + src.sch.txt + "input: \"" + shorten(T) + "\"");
            auto want = m.events(T);
            compare(by_buffer(*bp, T), want, "buffer parser");
            if (k % 3 == 0) compare(by_reader(*rp, T), want, "reader parser");
        }
    }
}
