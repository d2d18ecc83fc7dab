// Driver for the stores: durable, in-memory, joined.
#include <rocksdb/db.h>
#include <map>
#include <memory>
#include "common.hpp"
#include "crash.hpp"
#include "db/joined_store.hpp"
#include "db/key.hpp"
#include "db/mem_store.hpp"
#include "db/rocks_store.hpp"

using namespace ron;
using Frame = TextFrame;
using Rocks = RocksDBStore<Frame>;
using Mem = InMemoryStore<Frame>;
using JoinRM = JoinedStore<Rocks, Mem>;
using JoinMM = JoinedStore<Mem, Mem>;

struct Slot {
    std::shared_ptr<Rocks> r;
    std::shared_ptr<Mem> m;
    std::shared_ptr<JoinRM> rm;
    std::shared_ptr<JoinMM> mm;
};
struct Iter {
    std::shared_ptr<Rocks::Iterator> r;
    std::shared_ptr<Mem::Iterator> m;
    std::shared_ptr<JoinRM::Iterator> rm;
    std::shared_ptr<JoinMM::Iterator> mm;
};

static std::map<std::string, Slot> slots;
static std::map<std::string, Iter> iters;
static std::string dir;
static int serial = 0;
static std::shared_ptr<rocksdb::MergeOperator> merger;

static void forget() {
    iters.clear();
    for (auto& s : slots) s.second.rm.reset(), s.second.mm.reset();
    slots.clear();
}

static void know(Rocks& r) {
    if (merger || !r.open()) return;
    merger = std::static_pointer_cast<rocksdb::DB>(r.db())->GetOptions().merge_operator;
}

static Slot& at(const std::string& n) {
    Slot& s = slots[n];
    if (!s.r && !s.m && !s.rm && !s.mm) s.r = std::make_shared<Rocks>();
    return s;
}

static Key key_of(const std::string& t) {
    if (t == "END") return Key::END;
    if (t == "ZERO") return Key::ZERO;
    size_t c = t.find(':');
    return Key{vf::unpid(t.substr(c + 1)), FORM(std::stoi(t.substr(0, c)))};
}

static std::string image(const Key& k) {
    uint64pair be = k.be();
    return vf::tohex(std::string((const char*)&be, sizeof be));
}

static Uuid branch_of(const std::string& t) { return t == "0" ? Uuid::NIL : vf::unpid(t); }

static Frame frame_of(const std::string& t) { return Frame{vf::unhex(t)}; }

template <class It>
static std::string value_of(It& i) {
    auto v = i.value();
    v.Next();
    return vf::pops(v);
}

template <class It>
static std::string stand(Status ok, It& i) {
    std::string k = image(i.key());
    return vf::pstatus(ok) + " " + k + " " + (i.key() == Key::END ? "-" : value_of(i));
}

template <class Store>
static std::string dump(Store& s) {
    typename Store::Iterator i{s};
    Status ok = i.SeekTo(Key::ZERO);
    std::string r = vf::pstatus(ok);
    size_t n = 0;
    while (i.key() != Key::END) {
        r += " " + image(i.key()) + "=" + value_of(i);
        if (++n > 100000) return r + " LOOP";
        i.Next();
    }
    return r;
}

// An independent pass over a closed database: every branch is flushed and
// compacted level by level with the merge operator the store itself uses.
static std::string tidy() {
    if (!merger) return "OK";
    rocksdb::Options o;
    o.merge_operator = merger;
    std::vector<std::string> names;
    if (!rocksdb::DB::ListColumnFamilies(o, dir, &names).ok()) return "OK";
    std::vector<rocksdb::ColumnFamilyDescriptor> cfs;
    for (auto& n : names) cfs.emplace_back(n, rocksdb::ColumnFamilyOptions(o));
    std::vector<rocksdb::ColumnFamilyHandle*> hs;
    rocksdb::DB* db = nullptr;
    rocksdb::Status s = rocksdb::DB::Open(o, dir, cfs, &hs, &db);
    if (!s.ok()) return "TIDYOPEN";
    for (auto* h : hs) {
        rocksdb::Status f = db->Flush(rocksdb::FlushOptions(), h);
        if (f.ok()) f = db->CompactRange(rocksdb::CompactRangeOptions(), h, nullptr, nullptr);
        if (!f.ok()) s = f;
    }
    for (auto* h : hs) db->DestroyColumnFamilyHandle(h);
    delete db;
    return s.ok() ? "OK" : "TIDYFAIL";
}

static std::string handle(const vf::Tokens& t) {
    const std::string& c = t[0];
    if (c == "reset") {
        forget();
        if (!dir.empty()) vf::wipe(dir);
        dir = vf::scratch + "/" + std::to_string(getpid()) + "-" + std::to_string(serial++);
        ROCKSDB_STORE_DIR = dir;
        return "OK";
    }
    if (c == "create") {  // create <slot> <branch> [from]
        Slot& s = at(t[1]);
        if (!s.r->open() && t.size() > 3) {
            auto& f = at(t[3]);
            if (f.r && f.r->open()) {
                s.r = std::make_shared<Rocks>(f.r->db());
                Status ok = s.r->Create(branch_of(t[2]));
                if (!ok) s.r = std::make_shared<Rocks>();
                return vf::pstatus(ok);
            }
        }
        Status ok = s.r->Create(branch_of(t[2]));
        know(*s.r);
        return vf::pstatus(ok);
    }
    if (c == "open") return vf::pstatus(at(t[1]).r->Open(branch_of(t[2])));
    if (c == "openall") {
        Rocks::Branches all;
        Status ok = Rocks::OpenAll(all);
        std::string r = vf::pstatus(ok);
        if (ok)
            for (auto& b : all) {
                std::string n = b.first == Uuid::NIL ? "0" : vf::pid(b.first);
                Slot s;
                s.r = std::make_shared<Rocks>(b.second);
                know(*s.r);
                slots[n] = s;
                r += " " + n;
            }
        return r;
    }
    if (c == "close") {
        Slot& s = at(t[1]);
        return vf::pstatus(s.r ? s.r->Close() : s.m->Close());
    }
    if (c == "drop") return vf::pstatus(at(t[1]).r->Drop());
    if (c == "mem") {
        Slot s;
        s.m = std::make_shared<Mem>();
        slots[t[1]] = s;
        return "OK";
    }
    if (c == "memopen") return vf::pstatus(at(t[1]).m->Open(vf::unpid(t[2])));
    if (c == "join") {
        Slot &a = at(t[2]), &b = at(t[3]);
        Slot s;
        if (a.r)
            s.rm = std::make_shared<JoinRM>(*a.r, *b.m);
        else
            s.mm = std::make_shared<JoinMM>(*a.m, *b.m);
        slots[t[1]] = s;
        return "OK";
    }
    if (c == "write") {
        Slot& s = at(t[1]);
        Key k = key_of(t[2]);
        Frame f = frame_of(t[3]);
        return vf::pstatus(s.r ? s.r->Write(k, f) : s.m ? s.m->Write(k, f) : s.rm ? s.rm->Write(k, f) : s.mm->Write(k, f));
    }
    if (c == "batch") {
        Slot& s = at(t[1]);
        std::vector<std::pair<Key, Frame>> recs;
        for (size_t i = 2; i + 1 < t.size(); i += 2) recs.emplace_back(key_of(t[i]), frame_of(t[i + 1]));
        return vf::pstatus(s.r ? s.r->Write(recs) : s.m ? s.m->Write(recs) : s.rm ? s.rm->Write(recs) : s.mm->Write(recs));
    }
    if (c == "release") {  // release <mem> <to>
        Mem::Records recs;
        at(t[1]).m->Release(recs);
        return vf::pstatus(at(t[2]).r->Write(recs));
    }
    if (c == "read") {
        Slot& s = at(t[1]);
        Key k = key_of(t[2]);
        Frame f;
        Status ok = s.r ? s.r->Read(k, f) : s.m ? s.m->Read(k, f) : s.rm ? s.rm->Read(k, f) : s.mm->Read(k, f);
        return vf::pstatus(ok) + " " + (ok ? vf::pframe(f) : "-");
    }
    if (c == "dump") {
        Slot& s = at(t[1]);
        return s.r ? dump(*s.r) : s.m ? dump(*s.m) : s.rm ? dump(*s.rm) : dump(*s.mm);
    }
    if (c == "iter") {  // iter <name> <slot>
        Slot& s = at(t[2]);
        Iter i;
        if (s.r) i.r = std::make_shared<Rocks::Iterator>(*s.r);
        if (s.m) i.m = std::make_shared<Mem::Iterator>(*s.m);
        if (s.rm) i.rm = std::make_shared<JoinRM::Iterator>(*s.rm);
        if (s.mm) i.mm = std::make_shared<JoinMM::Iterator>(*s.mm);
        iters[t[1]] = i;
        return "OK";
    }
    if (c == "seek") {  // seek <name> <key> <prev>
        Iter& i = iters[t[1]];
        Key k = key_of(t[2]);
        bool p = t[3] == "1";
        if (i.r) return stand(i.r->SeekTo(k, p), *i.r);
        if (i.m) return stand(i.m->SeekTo(k, p), *i.m);
        if (i.rm) return stand(i.rm->SeekTo(k, p), *i.rm);
        return stand(i.mm->SeekTo(k, p), *i.mm);
    }
    if (c == "next") {
        Iter& i = iters[t[1]];
        if (i.r) return stand(i.r->Next(), *i.r);
        if (i.m) return stand(i.m->Next(), *i.m);
        if (i.rm) return stand(i.rm->Next(), *i.rm);
        return stand(i.mm->Next(), *i.mm);
    }
    if (c == "istop") {  // the iterator's own Close()
        Iter& i = iters[t[1]];
        return vf::pstatus(i.r ? i.r->Close() : i.m->Close());
    }
    if (c == "iclose") {
        iters.erase(t[1]);
        return "OK";
    }
    if (c == "flush" || c == "compact") {  // of an open database, through any slot
        Slot& s = at(t[1]);
        if (!s.r || !s.r->open()) return "OK";
        auto db = std::static_pointer_cast<rocksdb::DB>(s.r->db());
        rocksdb::Status st;
        if (c == "flush") {
            std::vector<std::string> files;
            uint64_t size;
            st = db->GetLiveFiles(files, &size, true);  // every branch
        } else {
            st = db->CompactRange(rocksdb::CompactRangeOptions(), nullptr, nullptr);
        }
        return st.ok() ? "OK" : "MAINTFAIL";
    }
    if (c == "tidy") return tidy();
    if (c == "repair") return vf::pstatus(Rocks::Repair());
    if (c == "crash") {
        forget();
        return vf::crash(t, dir);
    }
    return "?";
}

int main(int n, char** v) {
    if (n > 2 && !strcmp(v[1], "--child")) {
        dir = v[5];
        vf::scratch = dir;
        ROCKSDB_STORE_DIR = dir;
        return vf::child(v, handle);
    }
    vf::make_scratch();
    int r = vf::run(v[1], v[2], handle, true, 60);
    vf::wipe(vf::scratch);
    return r;
}
