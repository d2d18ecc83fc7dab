// Driver for the text encoding: reading, writing, comparing, recoding.
#include "common.hpp"

using namespace ron;
using Frame = TextFrame;
using Cursor = Frame::Cursor;
using Builder = Frame::Builder;

// A heap copy of exactly the bytes given: a read outside is an ASan report.
struct Exact {
    char* p;
    size_t n;
    explicit Exact(const std::string& s) : p{new char[s.size()]}, n{s.size()} {
        memcpy(p, s.data(), n);
    }
    ~Exact() { delete[] p; }
    Slice slice() const { return Slice{p, n}; }
};

static std::string ops_of(Slice s, size_t limit = 200000) {
    Cursor cur{s};
    std::string r;
    size_t n = 0;
    Status st;
    while ((st = cur.Next())) {
        if (n++) r.push_back('/');
        r += vf::pop1(cur);
        if (n > limit) return "LOOP LOOP 0";
    }
    if (!n) r = "-";
    // an end is an end
    int more = 0;
    for (int i = 0; i < 3; i++)
        if (cur.Next() || cur.valid()) ++more;
    return r + " " + vf::pstatus(st) + " " + std::to_string(more);
}

static std::string read_frame(const std::string& t) {
    Exact e{t};
    return ops_of(e.slice());
}

static Atom push_value(Op& op, const std::string& v) {
    std::string r = v.substr(1);
    switch (v[0]) {
        case 'i':
            op.WriteAtoms((Integer)std::stoll(r));
            break;
        case 'f': {
            uint64_t w = std::stoull(r, nullptr, 16);
            double d;
            memcpy(&d, &w, 8);
            op.WriteAtoms((Float)d);
            break;
        }
        case 'u':
            op.WriteAtoms(vf::unpid(r));
            break;
        case 's':  // the string's bytes
            op.WriteAtoms(vf::unhex(r));
            break;
    }
    return op.atoms_.back();
}

static TERM term_of(char c) { return chr2term((Char)c); }

static std::string handle(const vf::Tokens& t) {
    const std::string& c = t[0];
    if (c == "read") return read_frame(vf::unhex(t[1]));
    if (c == "readslice") {  // a frame made of a slice
        Exact e{vf::unhex(t[1])};
        Frame f{e.slice()};
        return read_frame(f.data());
    }
    if (c == "wr") {  // wr <op>...    op: id|ref|v;v|term
        Builder b;
        for (size_t i = 1; i < t.size(); ++i) {
            std::vector<std::string> p;
            std::string w;
            std::istringstream is(t[i]);
            while (std::getline(is, w, '|')) p.push_back(w);
            Op op{vf::unpid(p[0]), vf::unpid(p[1])};
            for (auto& v : vf::split(p[2], ';')) push_value(op, v);
            b.AppendOp(op);
            TERM term = term_of(p[3][0]);
            if (term != REDUCED) b.EndChunk(term);
        }
        String out;
        b.Release(out);
        return read_frame(out) + " " + vf::tohex(out);
    }
    if (c == "rt") {  // rt <frame>: re-serialised, once and twice
        String one = vf::unhex(t[1]), two;
        std::string r;
        for (int i = 0; i < 2; i++) {
            Builder b;
            Exact e{one};
            Cursor cur{e.slice()};
            if (cur.Next()) AppendAll<Frame>(b, cur);
            b.Release(two);
            r += (i ? " " : "") + read_frame(two) + " " + vf::tohex(two);
            one = two;
        }
        return r;
    }
    if (c == "reser") {  // reser <frame>...: what a list of cursors becomes
        std::vector<Cursor> cs;
        std::vector<String> txt;
        for (size_t i = 1; i < t.size(); ++i) txt.push_back(vf::unhex(t[i]));
        for (auto& x : txt) {
            Cursor k{x};
            k.Next();
            cs.push_back(k);
        }
        std::vector<Frame> fs;
        Status st = Reserialize<Frame>(fs, cs);
        std::string r = vf::pstatus(st);
        for (auto& f : fs) r += " " + vf::tohex(f.data());
        return r;
    }
    if (c == "amend") {  // amend <id> <ref> <frame>: every op, under a new name
        Uuid id = vf::unpid(t[1]), ref = vf::unpid(t[2]);
        std::string x = vf::unhex(t[3]);
        Cursor cur{x};
        Builder b;
        while (cur.Next()) {
            b.AppendOp(Op::Amend(id, ref, cur));
            ref = id;
            ++id;
        }
        String out;
        b.Release(out);
        return read_frame(out) + " " + vf::tohex(out);
    }
    if (c == "reamend") {  // an op made from an op made from text
        std::string x = vf::unhex(t[1]);
        Cursor cur{x};
        Builder b;
        while (cur.Next()) {
            Op a = Op::Amend(Uuid::COMMENT, Uuid::NIL, cur);
            b.AppendOp(Op::Amend(cur.id(), cur.ref(), a));
        }
        String out;
        b.Release(out);
        return read_frame(out) + " " + vf::tohex(out);
    }
    if (c == "cmp") {
        Frame a{vf::unhex(t[1])}, b{vf::unhex(t[2])};
        Status ab = CompareFrames(a, b), ba = CompareFrames(b, a);
        return vf::pstatus(ab) + " " + vf::pstatus(ba);
    }
    if (c == "split") {
        std::vector<Frame> to;
        Frame f{vf::unhex(t[1])};
        Status st = f.Split(to);
        std::string r = vf::pstatus(st);
        for (auto& x : to) r += " " + vf::tohex(x.data());
        return r;
    }
    if (c == "str") {  // str <frame>: every string value, UTF-8 and UTF-16
        std::string x = vf::unhex(t[1]);
        Cursor cur{x};
        std::string r;
        while (cur.Next())
            for (fsize_t i = 2; i < cur.op().size(); ++i) {
                if (cur.atom(i).type() != STRING) continue;
                String s;
                String16 s16;
                Result a = ReadString(s, cur, i);
                Result b = ReadString16(s16, cur, cur.atom(i));
                if (!r.empty()) r += " ";
                r += (a == OK ? "" : "!") + vf::tohex(s) + "/" + (b == OK ? "" : "!");
                if (s16.empty()) r += "-";
                for (size_t k = 0; k < s16.size(); ++k)
                    r += (k ? "." : "") + vf::hex64(s16[k]);
            }
        return r.empty() ? "-" : r;
    }
    if (c == "enc") {  // enc <cp>...: both encodings of each codepoint and back
        std::string r;
        for (size_t i = 1; i < t.size(); ++i) {
            Codepoint cp = std::stoul(t[i], nullptr, 16);
            String a;
            a.reserve(32);
            utf8append(a, cp);
            String16 b;
            b.reserve(32);
            utf16append(b, cp);
            String::const_iterator ai = a.begin();
            Codepoint ra = utf8read(ai, a.end());
            String16::const_iterator bi = b.begin();
            Codepoint rb = utf16read(bi, b.end());
            r += (i > 1 ? " " : "") + vf::tohex(a) + "," + vf::hex64(ra) + "," +
                 std::to_string(ai - a.begin()) + ",";
            for (size_t k = 0; k < b.size(); ++k) r += (k ? "." : "") + vf::hex64(b[k]);
            r += "," + vf::hex64(rb) + "," + std::to_string(bi - b.begin());
        }
        return r;
    }
    if (c == "utf8") {  // utf8 <bytes>: the validating decoder, then the raw one
        String s = vf::unhex(t[1]);
        s.shrink_to_fit();
        Codepoints cps;
        Result re = ParseUtf8(cps, s);
        std::string r = re == OK ? "OK" : re.str();
        r += " ";
        if (cps.empty()) r += "-";
        for (size_t k = 0; k < cps.size(); ++k) r += (k ? "." : "") + vf::hex64(cps[k]);
        r += " ";
        String::const_iterator at = s.begin();
        std::string q;
        while (at < s.end()) {
            auto was = at;
            Codepoint cp = utf8read(at, s.end());
            if (!q.empty()) q += ".";
            q += vf::hex64(cp);
            if (cp == CP_ERROR) {
                q += at > s.end() ? "!OVER" : "";
                break;
            }
            if (at > s.end()) { q += "!OVER"; break; }
            if (at == was) { q += "!LOOP"; break; }
        }
        return r + (q.empty() ? "-" : q);
    }
    if (c == "utf16") {  // utf16 <unit>...
        String16 s;
        s.reserve(32);
        for (size_t i = 1; i < t.size(); ++i) s.push_back(std::stoul(t[i], nullptr, 16));
        String16::const_iterator at = s.begin();
        std::string q;
        while (at < s.end()) {
            Codepoint cp = utf16read(at, s.end());
            if (!q.empty()) q += ".";
            q += vf::hex64(cp);
            if (cp == CP_ERROR || at > s.end()) break;
        }
        return (q.empty() ? "-" : q) + (at > s.end() ? " OVER" : " IN");
    }
    return "?";
}

int main(int, char** v) { return vf::run(v[1], v[2], handle, false, 20); }
