// Driver for the replica: branches, received frames, local writes, the clock.
#include <rocksdb/db.h>
#include <map>
#include <memory>
#include "common.hpp"
#include "crash.hpp"
#include "db/replica.hpp"

using namespace ron;
using Frame = TextFrame;
using Builder = Frame::Builder;
using Cursor = Frame::Cursor;
using Rocks = RocksDBStore<Frame>;
using Rep = Replica<Rocks>;
using Commit = Rep::Commit;

// The wall clock, as the code under test sees it (and no library).
static long clock_s = 0, clock_us = 0;
extern char __executable_start, etext;
static bool ours(void* caller) { return caller >= &__executable_start && caller < &etext; }
extern "C" time_t time(time_t* t) __THROW {
    time_t r = clock_s;
    if (!ours(__builtin_return_address(0))) {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    }
    if (t) *t = r;
    return r;
}
extern "C" int gettimeofday(struct timeval* tv, void*) __THROW {
    if (ours(__builtin_return_address(0))) {
        tv->tv_sec = clock_s;
        tv->tv_usec = clock_us;
        return 0;
    }
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

static std::unique_ptr<Rep> rep;
static std::string dir;
static int serial = 0;

static Rep& R() {
    if (!rep) rep.reset(new Rep{});
    return *rep;
}

static Word yarn(const std::string& t) { return Word{(uint64_t)std::stoull(t, nullptr, 16)}; }

static std::string st(const Status& s) {
    if (s) return "OK";
    std::string c = s.code().value.str();
    if (getenv("VF_LOUD")) std::cerr << c << " " << s.comment() << "\n";
    return c.empty() ? "?" : c;
}

static std::string image(const Key& k) {
    uint64pair be = k.be();
    return vf::tohex(std::string((const char*)&be, sizeof be));
}

static std::string dump(Rocks& s) {
    Rocks::Iterator i{s};
    Status ok = i.SeekTo(Key::ZERO);
    std::string r = st(ok);
    size_t n = 0;
    while (i.key() != Key::END) {
        Cursor v = i.value();
        v.Next();
        r += " " + image(i.key()) + "=" + vf::pops(v);
        if (++n > 100000) return r + " LOOP";
        i.Next();
    }
    return r;
}

// Ids the replica has made up, in order; a script refers to them as $n$
// ($n-$ for the derived id).
static std::vector<Uuid> known;

static std::string named(const std::string& t) {
    std::string r;
    size_t i = 0;
    while (i < t.size()) {
        size_t e = t[i] == '$' ? t.find('$', i + 1) : std::string::npos;
        if (e == std::string::npos) {
            r += t[i++];
            continue;
        }
        size_t n = std::stoul(t.substr(i + 1, e - i - 1));
        Uuid id = n < known.size() ? known[n] : Uuid{"zz+zz"};
        r += t[e - 1] == '-' ? id.derived().str() : id.str();
        i = e + 1;
    }
    return r;
}

static Uuid idof(const std::string& t) {
    if (t[0] == '$') {
        size_t n = std::stoul(t.substr(1));
        return n < known.size() ? known[n] : Uuid{"zz+zz"};
    }
    return vf::unpid(t);
}

static void all_events(Rocks& s, std::vector<Uuid>& ids) {
    Rocks::Iterator i{s};
    i.SeekTo(Key::ZERO);
    size_t n = 0;
    while (i.key() != Key::END && ++n < 100000) {
        if (i.key().form() == LOG_RAW_FORM) {
            Cursor c = i.value();
            while (c.Next() && ++n < 100000) ids.push_back(c.id());
        }
        i.Next();
    }
}

// events of the branch's own yarn after the given one
static std::string made(Rocks& s, const Uuid& tip) {
    std::vector<Uuid> ids, own;
    all_events(s, ids);
    for (auto& u : ids)
        if (u.origin == tip.origin && u.value > tip.value) own.push_back(u);
    std::sort(own.begin(), own.end(), [](const Uuid& a, const Uuid& b) { return a.value < b.value; });
    std::string r;
    for (auto& u : own) {
        known.push_back(u);
        r += (r.empty() ? "" : ",") + vf::pid(u);
    }
    return r.empty() ? "-" : r;
}

static std::string made_branch(Rep& r, const Status& ok, const std::string& y) {
    if (!ok) return st(ok) + " -";
    Uuid id = Rep::yarn2branch(yarn(y));
    if (!r.HasStore(id)) return "LOST -";
    known.push_back(r.GetStore(id).tip);
    return "OK " + vf::pid(known.back());
}

static std::string handle0(const vf::Tokens& t) {
    const std::string& c = t[0];
    if (c == "reset") {
        vf::zone(t.size() > 1 ? t[1] : "utc");
        rep.reset();
        known.clear();
        if (!dir.empty()) vf::wipe(dir);
        dir = vf::scratch + "/" + std::to_string(getpid()) + "-" + std::to_string(serial++);
        ROCKSDB_STORE_DIR = dir;
        return "OK";
    }
    if (c == "clock") {
        clock_s = std::stol(t[1]);
        clock_us = std::stol(t[2]);
        return "OK";
    }
    if (c == "create") {
        return st(Rep::CreateReplica());
    }
    if (c == "open") return st(R().Open());
    if (c == "close") {
        Status ok = R().Close();
        if (t.size() > 1) rep.reset();  // a new object next time
        return st(ok);
    }
    if (c == "crash") {
        rep.reset();
        std::string all = "known";
        for (auto& u : known) all += "," + vf::pid(u);
        vf::Tokens t2{t};
        if (t2[3].compare(0, 6, "known^") == 0) t2[3] = all + t2[3].substr(5);
        return vf::crash(t2, dir);
    }
    if (c == "known") {
        known.clear();
        for (size_t i = 1; i < t.size(); i++) known.push_back(vf::unpid(t[i]));
        return "OK";
    }
    Rep& r = R();
    if (c == "now") {
        return "OK " + vf::pid(r.Now(t.size() > 1 ? yarn(t[1]) : Word{}));
    }
    if (c == "see") return st(r.See(idof(t[1])));
    if (!r.open()) {  // what can be asked of a replica that is not open
        if (c == "recv") {
            Builder re;
            return st(r.ReceiveFrame(re, Frame{vf::unhex(t[2])}, yarn(t[1]))) + " - -";
        }
        return "CLOSED";
    }
    if (c == "stores") {
        Uuids ids;
        Status ok = r.ListStores(ids);
        std::string s = st(ok) + " " + vf::pid(r.active_store());
        for (auto& i : ids) s += " " + vf::pid(i);
        return s;
    }
    if (c == "branch") {
        return made_branch(r, r.CreateBranch(yarn(t[1]), t[2] == "1"), t[1]);
    }
    if (c == "fork") {
        return made_branch(r, r.ForkBranch(yarn(t[1]), yarn(t[2])), t[1]);
    }
    if (c == "drop") return st(r.DropStore(vf::unpid(t[1])));
    if (c == "activate") {
        return st(r.SetActiveStore(vf::unpid(t[1])));
    }
    if (c == "recv") {
        Builder re;
        Uuid store_id = t[1] == "0" ? r.active_store() : Rep::yarn2branch(yarn(t[1]));
        bool there = r.HasStore(store_id);
        Uuid tip = there ? r.GetStore(store_id).tip : Uuid::NIL;
        Status ok = r.ReceiveFrame(re, Frame{named(vf::unhex(t[2]))}, yarn(t[1]));
        return st(ok) + " " + vf::pframe(re.Release()) + " " + (ok && there ? made(r.GetStore(store_id), tip) : "-");
    }
    if (c == "sync") {  // what one branch answers is what another one takes
        Builder q, said, re;
        q.AppendOp(Op{idof(t[3]), LOG_FORM_UUID});
        q.EndChunk(QUERY);
        Status ok = r.ReceiveFrame(said, q.Release(), yarn(t[1]));
        Frame log = said.Release();
        std::string s = st(ok) + " " + vf::pframe(log);
        if (!ok) return s;
        Uuid store_id = Rep::yarn2branch(yarn(t[2]));
        bool there = r.HasStore(store_id);
        Uuid tip = there ? r.GetStore(store_id).tip : Uuid::NIL;
        ok = r.ReceiveFrame(re, log, yarn(t[2]));
        return s + " " + st(ok) + " " + vf::pframe(re.Release()) + " " +
               (ok && there ? made(r.GetStore(store_id), tip) : "-");
    }
    if (c == "flush" || c == "compact") {
        auto db = std::static_pointer_cast<rocksdb::DB>(r.GetMetaStore().db());
        rocksdb::Status s;
        if (c == "flush") {
            std::vector<std::string> files;
            uint64_t size;
            s = db->GetLiveFiles(files, &size, true);
        } else {
            s = db->CompactRange(rocksdb::CompactRangeOptions(), nullptr, nullptr);
        }
        return s.ok() ? "OK" : "MAINTFAIL";
    }
    // the rest is about one branch
    Uuid branch = t[1] == "0" ? Uuid::NIL : Uuid::Time(NEVER, yarn(t[1]));
    if (!r.HasStore(branch)) return "NOBRANCH";
    Rocks& store = r.GetStore(branch);
    if (c == "dump") return dump(store);
    Commit commit{r, store};
    if (c == "tip") return "OK " + vf::pid(commit.tip());
    if (c == "meta") {
        OpMeta m;
        Status ok = commit.FindOpMeta(m, idof(t[2]));
        if (!ok) return st(ok);
        return "OK " + vf::pid(m.id) + " " + vf::pid(m.object) + " " + vf::pid(m.rdt) + " " + m.hash.hex();
    }
    if (c == "metas") {  // of every event in the logs
        std::vector<Uuid> ids;
        all_events(store, ids);
        std::string s = "OK";
        for (auto& u : ids) {
            OpMeta m;
            Status ok = commit.FindOpMeta(m, u);
            s += " " + vf::pid(u) + ",";
            s += ok && m.id == u ? vf::pid(m.object) + "," + vf::pid(m.rdt) + "," + m.hash.hex() : "-";
        }
        return s;
    }
    if (c == "version") {
        Frame state;
        Status ok = commit.GetObjectVersion(state, idof(t[2]), idof(t[3]));
        return st(ok) + " " + (ok ? vf::pframe(state) : "-");
    }
    if (c == "object") {
        Frame state;
        Status ok = commit.GetObject(state, idof(t[2]), idof(t[3]));
        return st(ok) + " " + (ok ? vf::pframe(state) : "-");
    }
    if (c == "log") {
        Frame log;
        Status ok = commit.GetObjectLog(log, idof(t[2]));
        return st(ok) + " " + (ok ? vf::pframe(log) : "-");
    }
    if (c == "new") {
        Status ok = commit.NewObject(idof(t[2]));
        Uuid tip = store.tip;
        if (ok) ok = commit.Save();
        return st(ok) + " " + (ok ? made(store, tip) : "-");
    }
    if (c == "abandon") {  // chains are saved into a transaction that never ends
        Frame fr{named(vf::unhex(t[2]))};
        Cursor cu{fr};
        Status ok = cu.Next();
        Builder re;
        while (ok && cu.valid()) ok = commit.SaveChain(re, cu);
        return st(ok);
    }
    if (c == "name") return st(commit.WriteName(idof(t[2]), idof(t[3])));
    if (c == "names") {
        Rep::Names names;
        Status ok = commit.ReadNames(names);
        std::string s = st(ok);
        for (auto& n : names) s += " " + vf::pid(n.first) + "=" + vf::pid(n.second);
        return s;
    }
    return "?";
}

static std::string handle(const vf::Tokens& t) { return handle0(t); }

int main(int n, char** v) {
    if (n > 2 && !strcmp(v[1], "--child")) {
        dir = v[5];
        vf::scratch = dir;
        ROCKSDB_STORE_DIR = dir;
        return vf::child(v, handle);
    }
    vf::make_scratch();
    int r = vf::run(v[1], v[2], handle, true, 60);
    vf::wipe(vf::scratch);
    return r;
}
