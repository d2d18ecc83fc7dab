// Driver for ids, keys, forms, timestamps, hashes, op metadata, id stacks.
#include <map>
#include "common.hpp"
#include "db/key.hpp"
#include "ron/hash.hpp"
#include "ron/opmeta.hpp"

using namespace ron;
using Frame = TextFrame;
using Cursor = Frame::Cursor;
using Builder = Frame::Builder;

static Uuid parse_exact(const std::string& s) {
    std::vector<char> copy(s.begin(), s.end());  // a read outside is an ASan report
    return Uuid{Slice{copy.data(), copy.size()}};
}

static std::string b(bool v) { return v ? " 1" : " 0"; }

static std::string image(const Key& k) {
    uint64pair be = k.be();
    return std::string((const char*)&be, sizeof be);
}

static std::string sha(const SHA2& h) {
    return std::to_string(h.known_bits()) + ":" + vf::tohex(h.bits_);
}

static SHA2 parse_hash(char how, const std::string& t) {
    return how == 'h' ? SHA2::ParseHex(t) : SHA2::ParseBase64(t);
}

// What a chain walk tells of every op: hash, object, type, predecessor, chain
static std::string walk(const std::string& text) {
    std::vector<char> copy(text.begin(), text.end());
    Cursor cur{Slice{copy.data(), copy.size()}};
    std::map<std::string, OpMeta> metas, tips;
    std::string r;
    while (cur.Next()) {
        Uuid id = cur.id(), ref = cur.ref();
        OpMeta yarn;  // an empty yarn starts with its own zero event
        yarn.id = Uuid{ZERO, id.origin};
        yarn.hash = SHA2{yarn.id};
        auto t = tips.find(vf::hex64(id.origin.as_u64));
        if (t != tips.end()) yarn = t->second;
        OpMeta meta = yarn;
        std::string next = meta.is_next(cur) ? "1" : "0", check = meta.is_check(cur) ? "1" : "0";
        Status ok = Status::OK;
        SHA2 refhash;
        if (ref.version() == NAME) {
            meta = OpMeta{cur, yarn};
            refhash = SHA2{ref};
        } else {
            auto m = metas.find(vf::pid(ref));
            if (m == metas.end()) return "BADHISTORY";
            refhash = m->second.hash;
            ok = meta.Next(cur, m->second);
        }
        metas.insert(std::make_pair(vf::pid(id), meta));
        tips.erase(vf::hex64(id.origin.as_u64));
        tips.insert(std::make_pair(vf::hex64(id.origin.as_u64), meta));
        SHA2 direct = SHA2::OpMerkleHash(cur, yarn.hash, refhash), third;
        hash_op<Frame>(cur, third, yarn.hash, refhash);
        if (!r.empty()) r += "/";
        r += vf::pid(id) + "|" + vf::pid(meta.id) + "|" + vf::pid(meta.object) + "|" + vf::pid(meta.rdt) + "|" +
             vf::hex64(meta.prev.as_u64) + "|" + vf::hex64(meta.chain.as_u64) + "|" + (meta.is_head() ? "1" : "0") +
             next + check + "|" + vf::pid(meta.chain_id()) + "|" + sha(yarn.hash) + "|" + sha(refhash) + "|" +
             sha(meta.hash) + "|" + sha(direct) + "|" + vf::tohex(third.bits_) + "|" + vf::pstatus(ok);
    }
    return r.empty() ? "-" : r;
}

template <class T>
static std::string show(const T& v);
template <>
std::string show<uint32_t>(const uint32_t& v) { return std::to_string(v); }
template <>
std::string show<Uuid>(const Uuid& v) { return vf::pid(v); }
template <class T>
static T make(const std::string& s);
template <>
uint32_t make<uint32_t>(const std::string& s) { return (uint32_t)std::stoul(s); }
template <>
Uuid make<Uuid>(const std::string& s) { return vf::unpid(s); }

// stack <script>: +v push, - pop, *v.n push a run, ~n pop many, ? look, ! look at the ends; @n advance from the start by n;
// >k.m skip: walk the stack in skips of at most m, starting k steps in
template <class T>
static std::string stack(const vf::Tokens& t, size_t from) {
    inc_stack<T> s;
    std::string r;
    for (size_t i = from; i < t.size(); ++i) {
        if (!r.empty()) r += " ";
        const std::string a = t[i].substr(1);
        switch (t[i][0]) {
            case '+':
                s.push_back(make<T>(a));
                r += "+";
                break;
            case '-':
                s.pop_back();
                r += "-";
                break;
            case '*': {      // a run: v.n pushes
                size_t d = a.rfind('.');
                T v = make<T>(a.substr(0, d));
                for (uint32_t n = (uint32_t)std::stoul(a.substr(d + 1)), k = 0; k < n; ++k) s.push_back(v + k);
                r += "*";
                break;
            }
            case '~':
                for (uint32_t n = (uint32_t)std::stoul(a); n > 0; --n) s.pop_back();
                r += "~";
                break;
            case '!':
                r += std::to_string(s.size()) + (s.empty() ? "e" : "n");
                if (!s.empty()) r += "|" + show<T>(s.front()) + "|" + show<T>(s.back());
                break;
            case '?': {
                r += std::to_string(s.size()) + (s.empty() ? "e" : "n");
                if (!s.empty()) r += "|" + show<T>(s.front()) + "|" + show<T>(s.back());
                size_t n = 0;
                for (auto it = s.begin(); it != s.end() && n <= s.size(); ++it, ++n) r += "|" + show<T>(*it);
                break;
            }
            case '@': {
                size_t d = a.find('.');
                auto it = s.begin();
                it += (uint32_t)std::stoul(a.substr(0, d));
                it += (uint32_t)std::stoul(a.substr(d + 1));
                r += it == s.end() ? std::string("end") : show<T>(*it);
                break;
            }
            case '>': {
                size_t d = a.find('.');
                auto it = s.begin();
                for (int k = std::stoi(a.substr(0, d)); k > 0; --k) ++it;
                uint32_t m = std::stoul(a.substr(d + 1));
                r += "w";
                for (size_t n = 0; it != s.end() && n <= s.size(); ++n) {
                    r += "|" + show<T>(*it);
                    r += "|" + std::to_string(it.skip_span(m));
                }
                break;
            }
        }
    }
    return r;
}

static std::string handle(const vf::Tokens& t) {
    const std::string& c = t[0];
    if (c == "parse") return vf::pid(parse_exact(vf::unhex(t[1])));
    if (c == "print") {
        Uuid id = vf::unpid(t[1]);
        String s = id.str(), w;
        id.write_base64(w);
        return vf::tohex(s) + " " + vf::tohex(w) + " " + vf::tohex(id.ToString()) + " " + vf::pid(Uuid{s}) + " " +
               vf::pid(parse_exact(s)) + " " + vf::tohex(id.value.str());
    }
    if (c == "cmp") {
        Uuid x = vf::unpid(t[1]), y = vf::unpid(t[2]);
        return "r" + b(x < y) + b(x <= y) + b(x > y) + b(x >= y) + b(x == y) + b(x != y) +
               b(std::hash<Uuid>{}(x) == std::hash<Uuid>{}(y)) + b(x.value < y.value) + b(x.value <= y.value) +
               b(x.value > y.value) + b(x.value >= y.value) + b(x.value == y.value) + b(x.value != y.value);
    }
    if (c == "next") {
        Uuid x = vf::unpid(t[1]), y = x;
        uint64_t n = std::stoull(t[2]);
        ++y;
        Word w = x.value;
        ++w;
        return vf::pid(x.inc()) + " " + vf::pid(x.inc(n)) + " " + vf::pid(x + n) + " " + vf::pid(y) + " " +
               vf::pid(x.inc().dec()) + " " + vf::pid(Uuid{w, x.origin});
    }
    if (c == "vers") {
        Uuid x = vf::unpid(t[1]);
        return vf::pid(x.event()) + " " + vf::pid(x.derived()) + " " + vf::pid(Uuid::Time(x.value, x.origin)) + " " +
               vf::pid(Uuid::Derived(x.value, x.origin)) + " " + std::to_string(x.version()) + " " +
               std::to_string(x.variety()) + " " + (x.is_error() ? "1" : "0") + " " + (x.zero() ? "1" : "0");
    }
    if (c == "key") {
        Uuid id = vf::unpid(t[1]);
        FORM f = FORM(std::stoi(t[2]));
        Key k{id, f};
        std::string im = image(k);
        Key back = Key::be(Slice{im.data(), im.size()});
        return vf::tohex(im) + " " + vf::pid(k.id()) + " " + std::to_string(k.form()) + " " + vf::pid(k.id(NAME)) + " " +
               vf::pid(back.id()) + " " + std::to_string(back.form()) + " " + (back == k ? "1" : "0") + " " +
               vf::tohex(image(Key{id, form2uuid(f)}));
    }
    if (c == "keycmp") {
        Key x{vf::unpid(t[1]), FORM(std::stoi(t[2]))}, y{vf::unpid(t[3]), FORM(std::stoi(t[4]))};
        int m = image(x).compare(image(y));
        return "r" + b(x < y) + b(x > y) + b(x == y) + b(x != y) + b(m < 0) + b(m > 0);
    }
    if (c == "form") {
        FORM f = FORM(std::stoi(t[1]));
        Uuid u = form2uuid(f);
        return vf::pid(u) + " " + std::to_string(uuid2form(u)) + " " + vf::tohex(u.str());
    }
    if (c == "formof") return std::to_string(uuid2form(vf::unpid(t[1])));
    if (c == "time") {  // seconds nanos zone
        vf::zone(t.size() > 3 ? t[3] : "utc");
        return vf::hex64(Uuid::HybridTime(std::stoll(t[1]), std::stol(t[2])).as_u64);
    }
    if (c == "hash") {  // h|b text
        std::string text = vf::unhex(t[2]);
        SHA2 h = parse_hash(t[1][0], text);
        return sha(h) + " " + (h.defined() ? "1" : "0") + " " + vf::tohex(h.hex()) + " " + vf::tohex(h.base64()) + " " +
               sha(SHA2::ParseHex(h.hex())) + " " + sha(SHA2::ParseBase64(h.base64())) + " " +
               (SHA2::valid(text) ? "1" : "0");
    }
    if (c == "match") {
        SHA2 x = parse_hash(t[1][0], vf::unhex(t[2])), y = parse_hash(t[3][0], vf::unhex(t[4]));
        return sha(x) + " " + sha(y) + b(x.matches(y)) + b(y.matches(x));
    }
    if (c == "uhash") return sha(SHA2{vf::unpid(t[1])});
    if (c == "pair") {
        SHA2 x = SHA2::ParseHex(vf::unhex(t[1])), y = SHA2::ParseHex(vf::unhex(t[2]));
        return sha(SHA2::MerklePairHash(x, y));
    }
    if (c == "walk") return walk(vf::unhex(t[1]));
    if (c == "stack") return t[1] == "u" ? stack<Uuid>(t, 2) : stack<uint32_t>(t, 2);
    return "?";
}

int main(int argc, char** argv) { return vf::run(argv[1], argv[2], handle, false, 20); }
