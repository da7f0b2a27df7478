// Shared by the storage harnesses
#ifndef F_COMMON_HPP
#define F_COMMON_HPP
namespace fc {
    inline std::string esc(const std::string& s, size_t m = 80) {
        std::string r;
        for (size_t i = 0; i < s.size() && i < m; ++i) {
            if (s[i] == '\n') r += "\\n"; else if (s[i] == '\r') r += "\\r"; else if (s[i] == '\t') r += "\\t";
            else if (s[i] < 32 || s[i] > 126) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)s[i]); r += b; }
            else r += s[i];
        }
        if (s.size() > m) r += "...";
        return r;
    }
    inline std::string diff(const std::string& got, const std::string& exp) {
        size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) ++i;
        char b[128]; snprintf(b, sizeof b, "%zu bytes instead of %zu, first difference at byte %zu: ", got.size(), exp.size(), i);
        return b + std::string("'") + esc(got.substr(i), 30) + "' instead of '" + esc(exp.substr(i), 30) + "'";
    }
    // How a simulated process that may legitimately report an error ended
    inline bool reported(const sim::outcome& r) {
        REQUIRE(r.kind != sim::outcome::signaled, "killed", "the process was killed by signal %d", r.code);
        REQUIRE(r.kind != sim::outcome::exited || r.code != 0, "exit-success", "the process ended with exit(0)");
        return r.kind == sim::outcome::exited;
    }
    // content made of all bytes, with a recognisable position
    inline std::string blob(size_t n, uint32_t seed) {
        std::string s(n, 0); uint64_t x = seed*2654435761u + 12345;
        for (size_t i = 0; i < n; ++i) { x = x*6364136223846793005ull + 1442695040888963407ull; s[i] = char(x >> 56); }
        return s;
    }
    inline uint32_t size_choice() {
        switch (sim::work(5)) {
            case 0: return sim::work(8);
            case 1: return sim::work(200);
            case 2: return 4090 + sim::work(12);
            case 3: return 8180 + sim::work(24);
            default: return sim::work(40000);
        }
    }
}
#endif
