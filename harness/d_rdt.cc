// Driver for the data types: merging, compaction, scanning, log splitting.
#include <unordered_map>
#include "common.hpp"
#include <cmath>
#include <deque>
#include "rdt/rdt.hpp"
#include "rdt/lww_obj.hpp"

using namespace ron;
using Frame = TextFrame;
using Cursor = Frame::Cursor;
using Cursors = Frame::Cursors;
using Builder = Frame::Builder;

// Registers hold real frames, so merges can be fed earlier real results.
static std::unordered_map<std::string, std::string> reg;

static std::string text_of(const std::string& tok) {
    if (tok[0] == '$') return reg[tok];
    return vf::unhex(tok);
}

static std::string handle(const vf::Tokens& t) {
    const std::string& c = t[0];
    if (c == "reset") {
        reg.clear();
        return "OK";
    }
    if (c == "merge") {  // merge <route> <dst> <form> <frame>...
        std::vector<std::string> texts;
        std::string r;
        for (size_t i = 4; i < t.size(); ++i) texts.push_back(text_of(t[i]));
        for (auto& x : texts) r += " " + vf::pframe(Frame{x});
        FORM form = FORM(std::stoi(t[3]));
        String out;
        Status st;
        if (t[1] == "strings") {
            st = MergeStrings<Frame>(out, form, texts);
        } else if (t[1] == "frames") {
            std::vector<Frame> fs;
            for (auto& x : texts) fs.emplace_back(x);
            Frame f;
            st = MergeFrames<Frame>(f, fs);
            if (st) out = f.data();
        } else {  // master
            Cursors cs;
            for (auto& x : texts) {
                cs.emplace_back(Slice{x});
                if (!cs.back().Next()) cs.pop_back();
            }
            Builder b;
            MasterRDT<Frame> m;
            st = m.Merge(b, form, cs);
            b.Release(out);
        }
        if (!st) out.clear();
        if (t[2] != "-") reg[t[2]] = out;
        return vf::pstatus(st) + " " + vf::pframe(Frame{out}) + " " + vf::tohex(out) + r;
    }
    if (c == "gc") {  // gc <frame>
        std::string x = text_of(t[1]);
        LastWriteWinsRDT<Frame> lww;
        Builder b;
        Status st = lww.GC(b, Frame{x});
        String out;
        b.Release(out);
        return vf::pstatus(st) + " " + vf::pframe(Frame{out}) + " " + vf::pframe(Frame{x});
    }
    if (c == "mergegc") {  // mergegc <frame>...
        std::vector<std::string> texts;
        std::string r;
        for (size_t i = 1; i < t.size(); ++i) texts.push_back(text_of(t[i]));
        Cursors cs;
        for (auto& x : texts) {
            r += " " + vf::pframe(Frame{x});
            cs.emplace_back(Slice{x});
            if (!cs.back().Next()) cs.pop_back();
        }
        LastWriteWinsRDT<Frame> lww;
        Builder b;
        Status st = lww.MergeGC(b, cs);
        String out;
        b.Release(out);
        return vf::pstatus(st) + " " + vf::pframe(Frame{out}) + r;
    }
    if (c == "scan") {  // scan <frame>
        std::string x = text_of(t[1]);
        Booleans tombs;
        Status st = ScanRGA<Frame>(tombs, Frame{x});
        std::string bits;
        for (bool b : tombs) bits.push_back(b ? '1' : '0');
        if (bits.empty()) bits = "-";
        return vf::pstatus(st) + " " + bits + " " + vf::pframe(Frame{x});
    }
    if (c == "chains" || c == "state") {  // <cutoff|-> <frame>
        std::string x = text_of(t[2]);
        Uuid cut = t[1] == "-" ? Uuid::FATAL : vf::unpid(t[1]);
        Frame f{x};
        if (c == "chains") {
            Cursors cs;
            Status st = t[1] == "-" ? SplitLogIntoChains<Frame>(cs, f)
                                    : SplitLogIntoChains<Frame>(cs, f, cut);
            std::string r = vf::pstatus(st) + " " + vf::pframe(f);
            for (auto& k : cs) r += " " + vf::pops(k);
            return r;
        }
        Frame out;
        Status st = t[1] == "-" ? ObjectLogToState<Frame>(out, f)
                                : ObjectLogToState<Frame>(out, f, cut);
        return vf::pstatus(st) + " " + vf::pframe(out) + " " + vf::pframe(f);
    }
    // an object's view: view <state> <step>...
    if (c == "view") {
        std::string r = "OK";
        std::deque<Frame> own;      // the view does not own what it reads
        auto keep = [&](const std::string& tok) -> Frame& {
            // its own buffer, not longer than its text
            own.emplace_back(text_of(tok));
            return own.back();
        };
        LWWObject<Frame> obj{keep(t[1])};
        r += " " + vf::pframe(own.back());
        for (size_t i = 2; i < t.size(); ++i) {
            auto p = vf::split(t[i], ':');
            if (p[0] == "u") {      // what came later, whole
                Frame& f = keep(p[1]);
                obj.Update(f);
                r += " " + vf::pframe(f);
            } else if (p[0] == "o") {      // op by op
                Frame& f = keep(p[1]);
                Cursor cur{f};
                while (cur.Next()) obj.Update(cur);
                r += " " + vf::pframe(f);
            } else if (p[0] == "k") {
                Uuid key = vf::unpid(p[1]);
                double d = obj.number(key);
                std::string n = "nan";
                if (!std::isnan(d)) {
                    uint64_t bits;
                    memcpy(&bits, &d, 8);
                    char b[20];
                    snprintf(b, 20, "%016lx", bits);
                    n = b;
                }
                r += " " + vf::pid(obj.uuid(key)) + "," + n + ",x" + vf::tohex(obj.string(key));
            } else if (p[0] == "w" || p[0] == "W") {      // w:<id>:<key>:<type>:<value>; W: and takes note
                Uuid id = vf::unpid(p[1]), key = vf::unpid(p[2]);
                Frame f = p[3] == "i"   ? obj.Write(id, key, Integer(std::stoll(p[4])))
                          : p[3] == "u" ? obj.Write(id, key, vf::unpid(p[4]))
                                        : obj.Write(id, key, String(vf::unhex(p[4])));
                r += " " + vf::pframe(f);
                if (p[0] == "W") {
                    own.push_back(f);
                    obj.Update(own.back());
                }
            }
        }
        return r;
    }
    return "?";
}

int main(int, char** v) { return vf::run(v[1], v[2], handle, false, 20); }
