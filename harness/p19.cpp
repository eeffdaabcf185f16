// P19: file reader against the bytes written to a scratch file.
#include "common.hpp"
#include <log_surgeon/FileReader.hpp>
using namespace log_surgeon;
void run(H::Rng& rng) {
    std::string const path = "p19_scratch_" + std::to_string(getpid()) + ".bin";
    auto S = [](ErrorCode e) { return static_cast<int>(e); };
    FileReader shared;
    for (uint64_t it = 0; H::time_left(); it++) {
        std::string T;
        std::vector<char> const ds{'\n', '\0', ':', '\xff', 'a'};
        char d = rng.pick(ds);
        size_t n = it % 7 == 0 ? 0 : it % 31 == 1 ? rng(30000) : rng(40);
        unsigned style = static_cast<unsigned>(rng(4));
        for (size_t i = 0; i < n; i++) T += style == 0 ? static_cast<char>(rng(256)) : style == 1 ? d : rng.chance(1, 6) ? d : rng.chance(1, 8) ? rng.pick(ds) : static_cast<char>('b' + rng(5));
        { FILE* f = fopen(path.c_str(), "wb"); fwrite(T.data(), 1, T.size(), f); fclose(f); }
        std::string log = "file of " + std::to_string(T.size()) + " bytes: " + H::esc(T.substr(0, 300)) + "\n";
        H::begin(log);
        auto line = [&](std::string const& x) { log += x + "; "; H::cur_case = log; };
        FileReader fresh;
        FileReader& r = rng.chance(1, 2) ? shared : fresh;
        size_t k = 99; char c1[4];
        if (&r == &fresh) {
            line("read before open");
            H::check_eq(S(r.read(c1, 1, k)), S(ErrorCode::NotInit), "reading an unopened file");
        }
        if (rng.chance(1, 5)) {
            line("open of a missing file");
            H::check_eq(S(r.try_open(path + ".missing")), S(ErrorCode::FileNotFound), "opening a missing file");
            H::check_eq(S(r.read(c1, 1, k)), S(ErrorCode::NotInit), "reading after a failed open");
        }
        if (rng.chance(1, 10)) {
            line("open of a path below a file");
            H::check_eq(S(r.try_open(path + "/x")), S(ErrorCode::Errno), "opening a path that cannot exist");
        }
        line("open");
        H::check_eq(S(r.try_open(path)), S(ErrorCode::Success), "opening the file");
        if (rng.chance(1, 10)) { line("read to nullptr"); H::check_eq(S(r.read(nullptr, 1, k)), S(ErrorCode::BadParam), "reading to a null pointer"); }
        size_t pos = 0; std::string str = "old";
        unsigned mode = static_cast<unsigned>(rng(3)), after = 0;
        for (int step = 0; step < 4000; step++) {
            if (mode == 0 || (mode == 2 && rng.chance(1, 2))) {
                size_t want = it % 31 == 1 ? rng(9000) : rng(12);
                size_t off = 8;
                std::vector<char> buf(want + 16, '\x5a');
                size_t got = 777;
                line("read " + std::to_string(want));
                auto e = r.read(buf.data() + off, want, got);
                size_t exp = std::min(want, T.size() - pos);
                H::check_eq<size_t>(got, exp, "bytes read at " + std::to_string(pos));
                H::check_eq(S(e), S(want > 0 && exp == 0 ? ErrorCode::EndOfFile : ErrorCode::Success), "result of the read at " + std::to_string(pos));
                H::check(std::string(buf.data() + off, exp) == T.substr(pos, exp), "content read at " + std::to_string(pos));
                for (size_t i = 0; i < buf.size(); i++) if (i < off || i >= off + exp) H::check(buf[i] == '\x5a', "a byte outside the bytes read was written");
                pos += exp;
                if (want > 0 && exp == 0 && ++after > 2) break;
            } else {
                char dd = rng.chance(3, 4) ? d : rng.pick(ds);
                bool keep = rng.chance(1, 2), app = rng.chance(1, 2);
                line("line " + std::to_string(static_cast<unsigned char>(dd)) + (keep ? " keep" : "") + (app ? " append" : ""));
                std::string want = app ? str : "";
                auto e = r.try_read_to_delimiter(dd, keep, app, str);
                bool end = pos == T.size();
                if (!end) {
                    size_t q = T.find(dd, pos);
                    size_t stop = q == std::string::npos ? T.size() : q + 1;
                    want += T.substr(pos, stop - pos - (q != std::string::npos && !keep ? 1 : 0));
                    pos = stop;
                }
                H::check_eq(S(e), S(end ? ErrorCode::EndOfFile : ErrorCode::Success), "result of reading to the delimiter");
                H::check(str == want, "text after reading to the delimiter: got " + H::esc(str.substr(0, 200)) + ", expected " + H::esc(want.substr(0, 200)));
                if (str.size() > 50000) str.clear();
                if (end && ++after > 2) break;
            }
        }
        if (rng.chance(1, 2)) {
            line("close");
            r.close();
            H::check_eq(S(r.read(c1, 1, k)), S(ErrorCode::NotInit), "reading a closed file");
            if (rng.chance(1, 3)) r.close();
        }
        // a directory opens, but reading it is an error
        if (rng.chance(1, 20)) {
            line("directory");
            if (r.try_open(".") == ErrorCode::Success) {
                H::check_eq(S(r.read(c1, 1, k)), S(ErrorCode::Errno), "reading a directory");
            }
        }
    }
    unlink(path.c_str());
}
