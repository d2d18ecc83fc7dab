// Shared driver plumbing: script reader, frame projection, crash-isolating
// batch runner. A driver executes script lines against the real code and
// records what it observed; it never judges.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include "ron/ron.hpp"

namespace vf {

using Tokens = std::vector<std::string>;

inline std::string hex64(uint64_t v) {
    char b[24];
    snprintf(b, sizeof b, "%llx", (unsigned long long)v);
    return b;
}

inline std::string unhex(const std::string& h) {  // "-" is the empty string
    std::string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        r.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}

inline std::string tohex(const std::string& s) {
    if (s.empty()) return "-";
    static const char* D = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
        r.push_back(D[c >> 4]);
        r.push_back(D[c & 15]);
    }
    return r;
}

inline std::string pid(const ron::Uuid& u) {
    return hex64(u.value.as_u64) + "." + hex64(u.origin.as_u64);
}

inline ron::Uuid unpid(const std::string& s) {
    size_t d = s.find('.');
    return ron::Uuid{ron::Word{(uint64_t)std::stoull(s.substr(0, d), nullptr, 16)},
                     ron::Word{(uint64_t)std::stoull(s.substr(d + 1), nullptr, 16)}};
}

inline std::string pstatus(const ron::Status& st) {
    if (st == ron::Status::OK) return "OK";
    return st.code().value.str();
}

// Codepoints of a string atom, independently of utf8append.
template <class Cursor>
std::string pstring(const Cursor& c, ron::Atom a) {
    std::string r;
    if (a.value.cp != 0) return hex64(a.value.cp);
    size_t n = 0;
    while (true) {
        ron::Result re = c.NextCodepoint(a);
        if (re != ron::OK) {
            if (re != ron::ENDOFINPUT) r += "!" + re.str();
            break;
        }
        if (n++) r.push_back('.');
        r += hex64(a.value.cp);
        if (n > 100000) { r += "!LOOP"; break; }
    }
    return r;
}

template <class Cursor>
std::string pvalue(const Cursor& c, ron::fsize_t i) {
    ron::Atom a = c.atom(i);
    switch (a.type()) {
        case ron::ATOM::INT: {
            char b[32];
            snprintf(b, sizeof b, "i%lld", (long long)a.value.as_integer);
            return b;
        }
        case ron::ATOM::FLOAT: {
            uint64_t w;
            double d = a.value.as_float;
            memcpy(&w, &d, 8);
            return "f" + hex64(w);
        }
        case ron::ATOM::UUID:
            return "u" + hex64(a.value.as_u64) + "." + hex64(a.origin.as_u64);
        case ron::ATOM::STRING:
            return "s" + pstring(c, a);
    }
    return "?";
}

template <class Cursor>
std::string pop1(const Cursor& c) {
    std::string r = pid(c.id()) + "|" + pid(c.ref()) + "|";
    for (ron::fsize_t i = 2; i < c.op().size(); ++i) {
        if (i > 2) r.push_back(';');
        r += pvalue(c, i);
    }
    r.push_back('|');
    r.push_back((char)ron::TERM_PUNCT[c.term()]);
    return r;
}

// Projection of the ops from the cursor's current op on, up to its end.
template <class Cursor>
std::string pops(Cursor cur, size_t limit = 1000000) {
    std::string r;
    size_t n = 0;
    while (cur.valid()) {
        if (n++) r.push_back('/');
        r += pop1(cur);
        if (n > limit) { r += "/LOOP"; break; }
        cur.Next();
    }
    return n ? r : std::string("-");
}

template <class Frame>
std::string pframe(const Frame& f) {
    auto cur = f.cursor();
    cur.Next();
    return pops(cur);
}

// The whole reading of a text: ops, then "~" and the status that ended it.
inline std::string pread(const std::string& text) {
    ron::TextFrame f{text};
    auto cur = f.cursor();
    std::string r;
    size_t n = 0;
    ron::Status st;
    while ((st = cur.Next())) {
        if (n++) r.push_back('/');
        r += pop1(cur);
        if (n > 1000000) { r += "/LOOP"; break; }
    }
    if (!n) r = "-";
    return r + "~" + pstatus(st);
}

using Handler = std::string (*)(const Tokens&);

inline Tokens split(const std::string& l, char by = ' ') {
    Tokens t;
    std::string w;
    std::istringstream is(l);
    while (std::getline(is, w, by))
        if (!w.empty()) t.push_back(w);
    return t;
}

// Time zones, as POSIX spells them: no tables needed.
inline void zone(const std::string& name) {
    const char* tz = name == "cet" ? "CET-1CEST,M3.5.0,M10.5.0/3" : name == "nst" ? "NST3:30" : "UTC0";
    setenv("TZ", tz, 1);
    tzset();
}

// Runs every line of `script`; each answer is one line "<seq> <answer>".
// A line that kills the process is answered CRASH and, in stateful scripts,
// the lines up to the next "reset" are answered SKIP.
inline int run(const char* script, const char* out, Handler h, bool stateful,
               int limit_s) {
    std::ifstream in(script);
    std::vector<std::string> lines;
    std::string l;
    while (std::getline(in, l))
        if (!l.empty()) lines.push_back(l);
    int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd < 0) return 3;
    size_t* at = (size_t*)mmap(nullptr, sizeof(size_t), PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *at = 0;
    auto put = [&](const std::string& s) {
        size_t done = 0;
        while (done < s.size()) {
            ssize_t w = write(fd, s.data() + done, s.size() - done);
            if (w <= 0) _exit(98);
            done += w;
        }
    };
    while (*at < lines.size()) {
        pid_t p = fork();
        if (p < 0) return 4;
        if (p == 0) {
            std::string buf;
            for (; *at < lines.size();) {
                Tokens t = split(lines[*at]);
                alarm(limit_s);
                std::string ans;
                ans = h(Tokens(t.begin() + 1, t.end()));
                alarm(0);
                put(t[0] + " " + ans + "\n");
                ++*at;
            }
            _exit(0);
        }
        int ws = 0;
        waitpid(p, &ws, 0);
        if (*at >= lines.size()) break;
        Tokens t = split(lines[*at]);
        std::string why = "CRASH";
        if (WIFSIGNALED(ws))
            why += WTERMSIG(ws) == SIGALRM ? " HANG" : " SIG" + std::to_string(WTERMSIG(ws));
        else
            why += " EXIT" + std::to_string(WEXITSTATUS(ws));
        put(t[0] + " " + why + "\n");
        ++*at;
        if (stateful) {
            while (*at < lines.size()) {
                Tokens s = split(lines[*at]);
                if (s.size() > 1 && s[1] == "reset") break;
                put(s[0] + " SKIP\n");
                ++*at;
            }
        }
    }
    close(fd);
    return 0;
}

}  // namespace vf
#endif
