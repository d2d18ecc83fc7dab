// Driver for the command line tool: its commands, run one by one as separate
// processes would run them, and what they print.
#define main replica_driver_main
#include "d_replica.cc"
#undef main
#include <deque>
#include <dlfcn.h>
#include <iostream>
#include <sstream>
static std::deque<int> dice;
extern "C" int rand() __THROW {
    if (ours(__builtin_return_address(0)) && !dice.empty()) {
        int r = dice.front();
        dice.pop_front();
        return r;
    }
    static auto real = (int (*)())dlsym(RTLD_NEXT, "rand");
    return real();
}
int swarmdb_main(int, char**);

static std::map<Uuid, Uuid> tips;

// the events a command has made: all branches are looked at
static std::string news() {
    if (access(dir.c_str(), F_OK)) return "-";
    Rep r{};
    if (!r.Open()) return "-";
    Uuids ids;
    r.ListStores(ids);
    std::sort(ids.begin(), ids.end());
    std::string s;
    for (auto& i : ids) {
        Rocks& store = r.GetStore(i);
        std::string m = "-";
        auto was = tips.find(i);
        if (was != tips.end()) {
            m = made(store, was->second);
        } else {
            m = vf::pid(store.tip);
            if (i != Uuid::NIL) known.push_back(store.tip);
        }
        tips[i] = store.tip;
        if (m != "-") s += (s.empty() ? "" : ",") + m;
    }
    for (auto i = tips.begin(); i != tips.end();) i = r.HasStore(i->first) ? std::next(i) : tips.erase(i);
    r.Close();
    return s.empty() ? "-" : s;
}

static std::string idtext(const std::string& t) {
    Uuid u{t};
    return u == Uuid::FATAL && t != "FATAL" ? "?" + vf::tohex(t) : vf::pid(u);
}

// what was printed, as tokens: frames, records, or lines of ids
static std::string read_out(const std::string& kind, const std::string& out) {
    if (kind == "frame") return vf::pframe(Frame{out});
    std::string r;
    if (kind == "records") {  // *form#id TAB frame
        size_t i = 0;
        while (i < out.size()) {
            size_t e = out.find("\n*", i);
            std::string rec = out.substr(i, e == std::string::npos ? e : e + 1 - i);
            i = e == std::string::npos ? out.size() : e + 1;
            size_t tab = rec.find('\t'), hash = rec.find('#');
            if (tab == std::string::npos || hash > tab || rec[0] != '*') return r + " ?" + vf::tohex(rec);
            Uuid form{rec.substr(1, hash - 1)};
            Key key{Uuid{rec.substr(hash + 1, tab - hash - 1)}, uuid2form(form)};
            Cursor v{Frame{rec.substr(tab + 1)}};
            Frame f{rec.substr(tab + 1)};
            r += " " + image(key) + "=" + vf::pframe(f);
        }
        return r.empty() ? "-" : r.substr(1);
    }
    std::istringstream in{out};
    std::string line;
    while (std::getline(in, line)) {
        std::string l, f;
        std::istringstream fields{line};
        while (std::getline(fields, f, '\t')) l += (l.empty() ? "" : ",") + idtext(f);
        r += (r.empty() ? "" : " ") + l;
    }
    return r.empty() ? "-" : r;
}

static std::string handle_cli(const vf::Tokens& t) {
    if (t[0] == "reset") tips.clear();
    if (t[0] == "draws") {  // <n> replicas on <n> machines, all within a second: what they call their branches
        std::string all;
        bool ok = true;
        for (int n = std::stoi(t[1]); n; n--) {
            vf::wipe(dir);
            tips.clear();
            for (auto verb : {"init", "create", "create", "fork"}) {
                std::string a = handle_cli({"cli", "ids", "-", "-", vf::tohex(verb)});
                ok = ok && a.compare(0, 3, "OK ") == 0;
                if (strcmp(verb, "init")) all += " " + a.substr(a.rfind(' ') + 1);
            }
        }
        return (ok ? "OK" : "ERR") + all;
    }
    if (t[0] != "cli") return handle0(t);
    // cli <kind> <yarn to be drawn> <file> <args...>
    dice.clear();
    if (t[2] != "-") dice = {(int)(std::stoull(t[2], nullptr, 16) >> 30), (int)(std::stoull(t[2], nullptr, 16) & 0x3fffffff)};
    std::string file = dir + ".ron";
    if (t[3] != "-") {
        FILE* f = fopen(file.c_str(), "w");
        std::string text = named(vf::unhex(t[3]));
        fwrite(text.data(), 1, text.size(), f);
        fclose(f);
    }
    std::vector<std::string> args{"swarmdb"};
    for (size_t i = 4; i < t.size(); i++) {
        std::string a = named(vf::unhex(t[i]));
        args.push_back(a == "FILE" ? file : a);
    }
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(&a[0]);
    std::ostringstream out, err;
    auto* was_out = std::cout.rdbuf(out.rdbuf());
    auto* was_err = std::cerr.rdbuf(err.rdbuf());
    int rc = swarmdb_main((int)argv.size(), argv.data());
    std::cout.rdbuf(was_out);
    std::cerr.rdbuf(was_err);
    if (getenv("VF_LOUD")) std::cerr << out.str() << err.str();
    unlink(file.c_str());
    std::string ids = news();
    return std::string(rc ? "ERR" : "OK") + " " + ids + " " + read_out(t[1], out.str());
}

int main(int n, char** v) {
    vf::make_scratch();
    int r = vf::run(v[1], v[2], handle_cli, true, 60);
    vf::wipe(vf::scratch);
    return r;
}
