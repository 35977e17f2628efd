// Scenario driver: runs one scenario file under many schedules of the deterministic runtime and writes the traces.
//   drv SCENARIO FIRSTSEED COUNT OUT      OUT: one line "#run <scenario> <seed>" + event lines per run
// Not instrumented; all bookkeeping is done in Quiet sections.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "api.h"
#include "rt.h"
#include <algorithm>
#include <deque>
#include <cassert>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "message_queue.h"

using namespace veigar;
using sim::ev;
using sim::Quiet;
typedef std::vector<std::string> Words;
typedef long long ll;
struct InstDef {
    int id = 0, proc = 0;
    std::string chan;
    uint32_t cap = 8, size = 512;
};
struct ActorDef {
    std::string name;
    int proc = 0;
    std::vector<Words> ops;
};
struct Scenario {
    std::string name;
    std::map<std::string, double> opt;
    std::map<int, InstDef> insts;
    std::vector<ActorDef> actors;
    std::map<int, std::vector<Words>> plans;
    double o(const char* k, double d) const {
        auto it = opt.find(k);
        return it == opt.end() ? d : it->second;
    }
};
static Scenario S;

struct Call {
    int inst;
    std::string fn;
    size_t size;
    int plan = 0, cbplan = 0;
    std::string id;  // call id, when known
    int rets = 0, code = -1, by = 0;  // results so far, the last one, the binding that produced its value
    bool succ = false, err = false;
};
struct Inst {
    Veigar* v = nullptr;
    std::string chan;
    uint32_t cap, size;
    bool up = false;
};
static std::map<int, Inst> I;
static std::vector<Call> C;  // index = token
static std::map<std::string, int> zeroTok;
static std::map<std::string, int> idTok;
struct BindInfo {
    int inst;
    std::string fn, kind;
};
static std::vector<BindInfo> B;
static std::map<std::string, int> fnIds, chIds;
static std::map<std::string, std::pair<uint32_t, uint32_t>> geo;  // channel -> geometry of its (next) owner
static std::set<std::string> flags;
static std::map<std::string, int> injected;  // bytes -> number
static std::map<std::string, int> labels;

static int fid(const std::string& f) {
    auto it = fnIds.find(f);
    if (it != fnIds.end())
        return it->second;
    int n = (int)fnIds.size() + 1;
    fnIds[f] = n;
    return n;
}
static int chid(const std::string& c) {
    auto it = chIds.find(c);
    if (it != chIds.end())
        return it->second;
    int n = (int)chIds.size() + 1;
    chIds[c] = n;
    bool valid = !c.empty() && c.size() <= 200 && c.find('/') == std::string::npos;
    ev("[\"ch\",0,%d,\"%s\",%d]", n, c.c_str(), valid ? 1 : 0);
    return n;
}
static std::string pattern(int tok, size_t n) {
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i)
        s[i] = (char)('a' + (tok * 7 + i * 11 + i / 26) % 26);
    return s;
}
static bool g_chNest;  // every name is the beginning of the next
static std::string g_chPre, g_chSuf;  // channel names are written A..Z in scenarios
static std::string word(const std::string& w) {  // %e = empty, %s = slash, %p = percent sign, %L, %M, %K = long
    if (w == "%e")
        return "";
    if (w.size() == 1 && w[0] >= 'A' && w[0] <= 'Z')
        return g_chNest ? std::string(w[0] - 'A' + 1, 's') : g_chPre + w + g_chSuf;
    std::string r;
    for (size_t i = 0; i < w.size(); ++i) {
        if (w[i] == '%' && i + 1 < w.size()) {
            ++i;
            if (w[i] == 's')
                r += '/';
            else if (w[i] == 'L')
                r += std::string(300, 'n');
            else if (w[i] == 'M')
                r += std::string(240, 'n');
            else if (w[i] == 'K')
                r += std::string(1000, 'k');
            else if (w[i] == 'p')
                r += '%';
        }
        else
            r += w[i];
    }
    return r;
}

// ------------------------------------------------------------------ observation of queues
struct Obs {
    int obj = 0;
    std::shared_ptr<MessageQueue> mq;
    sim::Region reg;
    size_t cap = 0;
    std::vector<int> last;
    bool seen = false;
    std::string prefix;
};
static std::map<int, Obs> obs;          // by object
static std::map<std::string, int> cur;  // prefix -> object

static void decode(const std::string& chan, const uint8_t* p, size_t n, std::vector<int>& out) {
    std::string raw((const char*)p, n);
    auto it = injected.find(raw);
    if (it != injected.end()) {
        out.push_back(3);
        out.push_back(it->second);
        out.push_back(0);
        return;
    }
    try {
        veigar_msgpack::object_handle h = veigar_msgpack::unpack((const char*)p, n);
        const veigar_msgpack::object& o = h.get();
        if (o.type == veigar_msgpack::type::ARRAY) {
            auto* a = o.via.array.ptr;
            if (o.via.array.size == 5) {
                std::string id = a[1].as<std::string>(), fn = a[3].as<std::string>();
                int tok = -1;
                if (a[4].type == veigar_msgpack::type::ARRAY && a[4].via.array.size > 0) {
                    auto& f = a[4].via.array.ptr[0];
                    if (f.type == veigar_msgpack::type::POSITIVE_INTEGER)
                        tok = (int)f.via.u64;
                    else if (f.type == veigar_msgpack::type::STR)
                        tok = atoi(f.as<std::string>().c_str() + 3);
                }
                else if (zeroTok.count(fn))
                    tok = zeroTok[fn];
                if (tok >= 1 && tok < (int)C.size()) {
                    idTok[a[2].as<std::string>() + "/" + id] = tok;  // identifiers belong to their caller
                    if (C[tok].id.empty())
                        C[tok].id = id;
                    bool ok = C[tok].fn == fn;
                    if (ok && a[4].via.array.size == 2 && a[4].via.array.ptr[1].type == veigar_msgpack::type::STR)
                        ok = a[4].via.array.ptr[1].as<std::string>() == pattern(tok, C[tok].size);
                    out.push_back(1);
                    out.push_back(tok);
                    out.push_back(ok ? 1 : 0);
                    return;
                }
            }
            else if (o.via.array.size == 4) {
                std::string id = a[1].as<std::string>();
                auto k = idTok.find(chan + "/" + id);
                int tok = k == idTok.end() ? 0 : k->second;
                int vt = -1;
                if (!a[2].is_nil())
                    vt = 0;
                else if (a[3].type == veigar_msgpack::type::STR) {
                    std::string s = a[3].as<std::string>();
                    if (s.size() > 1 && s[0] == 'T')
                        vt = atoi(s.c_str() + 1);
                }
                else if (a[3].is_nil())
                    vt = -2;
                out.push_back(2);
                out.push_back(tok);
                out.push_back(vt);
                return;
            }
        }
    } catch (...) {
    }
    out.push_back(0);
    out.push_back(0);
    out.push_back((int)n);
}

static void snapshot(Obs& o, std::vector<int>& out) {
    // save, drain through the queue's own interface, restore
    std::vector<uint8_t> save(o.reg.addr, o.reg.addr + o.reg.size);
    std::vector<uint8_t> buf(o.reg.size + 64);
    for (int i = 0; i < 300; ++i) {
        int64_t w = 0;
        if (!o.mq->popFront(buf.data(), (int64_t)buf.size(), w))
            break;
        decode(o.prefix.substr(0, o.prefix.size() - 5), buf.data(), (size_t)w, out);
        out.push_back((int)w);
    }
    memcpy(o.reg.addr, save.data(), save.size());
}
static Obs* observer(const std::string& prefix) {
    int obj = sim::queueObj(prefix + "_shm");
    if (!obj)
        return nullptr;
    if (cur[prefix] != obj) {
        if (sim::semValue(prefix + "_rwlock") < 0 || sim::semValue(prefix + "_readsmp") < 0)
            return nullptr;
        std::string ch = prefix.substr(0, prefix.size() - 5);
        auto g = geo.find(ch);
        if (g == geo.end())
            return nullptr;
        Obs o;
        o.obj = obj;
        o.prefix = prefix;
        o.cap = g->second.first;
        o.mq = std::make_shared<MessageQueue>((int32_t)g->second.first, (int32_t)g->second.second);
        if (!o.mq->open(prefix))
            return nullptr;
        o.reg = sim::observe(obj);
        if (!o.reg.addr)
            return nullptr;
        obs[obj] = o;
        cur[prefix] = obj;
    }
    return &obs[obj];
}
static void emitSnap(Obs& o) {
    std::vector<int> now;
    snapshot(o, now);
    if (o.seen && now == o.last)
        return;
    o.seen = true;
    o.last = now;
    std::string s;
    for (size_t i = 0; i + 3 < now.size(); i += 4) {
        char b[80];
        snprintf(b, sizeof b, "%s[%d,%d,%d,%d]", i ? "," : "", now[i], now[i + 1], now[i + 2], now[i + 3]);
        s += b;
    }
    ev("[\"q\",%lld,%d,%d,[%s]]", (ll)sim::nowUs(), o.obj, sim::self(), s.c_str());
}
static void unlockHook(const std::string& prefix) {
    observer(prefix);
    for (auto& k : obs)
        if (k.second.prefix == prefix)
            emitSnap(k.second);
}

// ------------------------------------------------------------------ operations
struct Prom {
    int tok;
    int inst;
    std::shared_ptr<AsyncCallResult> acr;
    bool done = false;
};
struct Ctx {
    std::string name;
    std::vector<Prom> proms;
    int lastTok = 0;  // what the actor's last operations came to, see "exp"
    int lastOk = -1, lastIs = -1;
    std::vector<std::string> lastNames;
};
static int64_t horizonUs;
static void runOps(Ctx& cx, const std::vector<Words>& ops);

static std::vector<Ctx*> allCtx;
static uint64_t activity;           // functions and callbacks started or ended so far
static std::map<int, int> running;  // those running, by process
static void nowRuns(int d) {
    Quiet q;
    ++activity;
    running[sim::selfProc()] += d;
}
static bool anyRunning() {
    for (auto& k : running)
        if (k.second > 0 && !sim::procDead(k.first))
            return true;
    return false;
}

static void emitRet(int tok, const Outcome& o, int via) {
    Quiet q;
    int vt = -1, bid = 0;
    if (o.valKind == 0)
        vt = -2;
    else if (o.valKind == 1) {
        // T<tok>:<bind>:<pattern>
        int t = 0, b = 0, n = 0;
        if (sscanf(o.val.c_str(), "T%d:%d:%n", &t, &b, &n) == 2 && n > 0 && b > 0 && b < (int)B.size() && t > 0 && t < (int)C.size()) {
            bid = b;
            vt = o.val.substr(n) == pattern(t, C[t].size) ? t : -1;
        }
    }
    int et = 0;  // the call an error text speaks of
    size_t ep = o.err.find("told<");
    if (ep != std::string::npos)
        et = atoi(o.err.c_str() + ep + 5);
    C[tok].rets++;
    C[tok].code = o.code;
    C[tok].succ = o.success;
    C[tok].err = o.hasErr;
    C[tok].by = vt == tok ? bid : 0;
    if (getenv("SIM_VERBOSE"))
        fprintf(stderr, "ret %d code %d err '%s' val '%s'\n", tok, o.code, o.err.c_str(), o.val.c_str());
    ev("[\"ret\",%lld,%d,%d,%d,%d,%d,%d,%d,%d]", (ll)sim::nowUs(), tok, o.code, o.hasErr ? 1 : 0, vt, bid, via, o.success ? 1 : 0, et);
}

std::string onExec(int bindId, int tok, const std::string* payload) {
    int plan = 0;
    size_t size = 0;
    {
        Quiet q;
        if (tok < 0) {
            auto it = zeroTok.find(B[bindId].fn);
            tok = it == zeroTok.end() ? 0 : it->second;
        }
        bool ok = tok > 0 && tok < (int)C.size() && C[tok].fn == B[bindId].fn;
        if (ok && payload)
            ok = *payload == pattern(tok, C[tok].size);
        if (tok > 0 && tok < (int)C.size()) {
            plan = C[tok].plan;
            size = C[tok].size;
        }
        nowRuns(1);
        ev("[\"ex0\",%lld,%d,%d,%d,%d,%d]", (ll)sim::nowUs(), tok, B[bindId].inst, bindId, ok ? 1 : 0, sim::self());
    }
    if (plan) {
        Ctx* cx = new Ctx();
        {
            Quiet q;
            allCtx.push_back(cx);
        }
        runOps(*cx, S.plans[plan]);
    }
    Quiet q;
    nowRuns(-1);
    ev("[\"ex1\",%lld,%d,%d]", (ll)sim::nowUs(), tok, B[bindId].inst);
    return "T" + std::to_string(tok) + ":" + std::to_string(bindId) + ":" + pattern(tok, size);
}

static void doCall(Ctx& cx, const Words& w) {
    // call I s|p|c chan fn size tmo [shape k] [plan n] [cbplan n] [label l]
    int inst = atoi(w[1].c_str());
    char kind = w[2][0];
    std::string chan, fn, payload;
    size_t size = 0;
    uint32_t tmo = 0;
    int shape = SH_NORMAL, tok = 0, cbplan = 0;
    Veigar* v = nullptr;
    {
        Quiet q;
        chan = word(w[3]);
        fn = word(w[4]);
        size = (size_t)atoi(w[5].c_str());
        tmo = (uint32_t)strtoul(w[6].c_str(), nullptr, 10);
        Call c;
        c.inst = inst;
        c.size = size;
        std::string label;
        for (size_t i = 7; i + 1 < w.size(); i += 2) {
            if (w[i] == "shape")
                shape = atoi(w[i + 1].c_str());
            else if (w[i] == "plan")
                c.plan = atoi(w[i + 1].c_str());
            else if (w[i] == "cbplan")
                c.cbplan = atoi(w[i + 1].c_str());
            else if (w[i] == "label")
                label = w[i + 1];
        }
        tok = (int)C.size();
        if (shape == SH_ZERO) {
            if (fn.find('#') != std::string::npos)
                fn = fn;
            zeroTok[fn] = tok;
        }
        c.fn = fn;
        cbplan = c.cbplan;
        C.push_back(c);
        if (!label.empty())
            labels[label] = tok;
        payload = pattern(tok, size);
        v = I[inst].v;
        cx.lastTok = tok;
        ev("[\"iss\",%lld,%d,%d,%d,%d,\"%c\",%u,%d,%d]", (ll)sim::nowUs(), tok, inst, chid(chan), fid(fn), kind, tmo < 1000000 ? tmo : 1000000 /* more than any run lasts */, (int)size, shape);
    }
    int old = sim::getInst();
    sim::setInst(inst);
    try {
        if (kind == 's') {
            Outcome o = apiSync(v, chan, tmo, fn, shape, tok, payload);
            emitRet(tok, o, 0);
        }
        else if (kind == 'p') {
            std::shared_ptr<AsyncCallResult> a = apiProm(v, chan, tmo, fn, shape, tok, payload);
            Quiet q;
            Prom p;
            p.tok = tok;
            p.inst = inst;
            p.acr = a;
            cx.proms.push_back(p);
            if (a && !a->first.empty())
                C[tok].id = a->first;
            ev("[\"isd\",%lld,%d,%d]", (ll)sim::nowUs(), tok, a && a->second.valid() ? 1 : 0);
        }
        else {
            apiCb(
                v,
                [tok, cbplan](const CallResult& r) {
                    {
                        nowRuns(1);
                        Outcome o = outcomeOf(r);
                        emitRet(tok, o, 2);
                    }
                    if (cbplan) {
                        Ctx* c2 = new Ctx();
                        {
                            Quiet q;
                            allCtx.push_back(c2);
                        }
                        runOps(*c2, S.plans[cbplan]);
                    }
                    Quiet q;
                    nowRuns(-1);
                    ev("[\"cb1\",%lld,%d]", (ll)sim::nowUs(), tok);
                },
                chan, tmo, fn, shape, tok, payload);
            Quiet q;
            ev("[\"isd\",%lld,%d,1]", (ll)sim::nowUs(), tok);
        }
    } catch (std::exception& e) {
        Quiet q;
        ev("[\"thr\",%lld,%d]", (ll)sim::nowUs(), tok);
    } catch (...) {
        Quiet q;
        ev("[\"thr\",%lld,%d]", (ll)sim::nowUs(), tok);
    }
    sim::setInst(old);
}

static void collect(Prom& p, bool release) {
    if (p.done)
        return;
    int64_t left = horizonUs - sim::nowUs();
    if (left < 1000)
        left = 1000;
    try {
        if (!p.acr || !p.acr->second.valid()) {
            p.done = true;
            return;
        }
        if (p.acr->second.wait_for(std::chrono::microseconds(left)) != std::future_status::ready)
            return;
        p.done = true;
        CallResult r = p.acr->second.get();
        Outcome o = outcomeOf(r);
        emitRet(p.tok, o, 1);
        if (release) {
            Veigar* v = nullptr;
            {
                Quiet q;
                if (I[p.inst].v)
                    v = I[p.inst].v;
            }
            v->releaseCall(p.acr->first);
        }
    } catch (...) {
        p.done = true;
        Quiet q;
        ev("[\"thr\",%lld,%d]", (ll)sim::nowUs(), p.tok);
    }
}

static int injNo = 0;
static std::string makeBytes(const Words& w) {
    // inject chan call|resp kind [arg]
    std::string kind = w[3];
    veigar_msgpack::sbuffer b;
    veigar_msgpack::packer<veigar_msgpack::sbuffer> pk(b);
    auto str = [&](const std::string& s) { pk.pack(s); };
    if (kind == "garbage") {
        int n = 1 + (int)(sim::rnd() % 60);
        std::string r;
        for (int i = 0; i < n; ++i)
            r += (char)sim::rnd();
        return r;
    }
    if (kind == "c1")
        return std::string(1 + sim::rnd() % 5, (char)0xc1);  // never used by MessagePack
    if (kind == "int")
        pk.pack(77);
    if (kind == "nil")
        pk.pack_nil();
    if (kind == "str")
        str("hello");
    if (kind == "map") {
        pk.pack_map(5);
        for (int i = 0; i < 5; ++i) {
            pk.pack(i);
            pk.pack(i);
        }
    }
    if (kind == "bin5") {  // five bytes of binary data: same length field as a call
        pk.pack_bin(5);
        pk.pack_bin_body("\0\1\2\3\4", 5);
    }
    if (kind == "str5")
        str("abcde");
    if (kind == "arr0")
        pk.pack_array(0);
    if (kind == "arr3") {
        pk.pack_array(3);
        pk.pack(1);
        str("x");
        str("y");
    }
    if (kind == "ints5") {
        pk.pack_array(5);
        for (int i = 0; i < 5; ++i)
            pk.pack(i);
    }
    if (kind == "six") {  // a call with something behind it
        pk.pack_array(6);
        pk.pack(0);
        str("fakeid");
        str(word(w[4]));
        str("echo");
        pk.pack_array(2);
        pk.pack(0);
        str("");
        pk.pack(7);
    }
    if (kind == "ints4") {
        pk.pack_array(4);
        for (int i = 0; i < 4; ++i)
            pk.pack(1);
    }
    if (kind == "flag1call") {  // wrong flag in the call queue
        pk.pack_array(5);
        pk.pack(1);
        str("fakeid");
        str(word(w[4]));
        str("echo");
        pk.pack_array(2);
        pk.pack(0);
        str("");
    }
    if (kind == "badargs") {  // arguments are not an array
        pk.pack_array(5);
        pk.pack(0);
        str("fakeid");
        str(word(w[4]));
        str("echo");
        str("notanarray");
    }
    if (kind == "fewargs") {
        pk.pack_array(5);
        pk.pack(0);
        str("fakeid");
        str(word(w[4]));
        str("void");
        pk.pack_nil();
    }
    if (kind == "nocaller") {
        pk.pack_array(5);
        pk.pack(0);
        str("fakeid");
        str("");
        str("nosuch");
        pk.pack_array(0);
    }
    if (kind == "ghostcaller") {  // a caller that does not exist
        pk.pack_array(5);
        pk.pack(0);
        str("fakeid");
        str("nobody-there");
        str("nosuch");
        pk.pack_array(0);
    }
    if (kind == "unknownid") {
        pk.pack_array(4);
        pk.pack(1);
        str("no-such-call-id");
        pk.pack_nil();
        str("surprise");
    }
    if (kind == "emptyid") {
        pk.pack_array(4);
        pk.pack(1);
        str("");
        pk.pack_nil();
        str("surprise");
    }
    if (kind == "flag0resp") {
        pk.pack_array(4);
        pk.pack(0);
        str("no-such-call-id");
        pk.pack_nil();
        str("surprise");
    }
    if (kind == "dup" || kind == "forge" || kind == "interr" || kind == "forgeflag") {  // reply carrying the identifier of a real call
        int tok = 0;
        auto it = labels.find(w[4]);
        if (it != labels.end())
            tok = it->second;
        if (tok == 0 || C[tok].id.empty())
            return "";
        pk.pack_array(4);
        pk.pack(kind == "forgeflag" ? 0 : 1);
        str(C[tok].id);
        if (kind == "interr")
            pk.pack(5);
        else
            pk.pack_nil();
        str("T" + std::to_string(tok) + ":1:" + pattern(tok, C[tok].size) + "!");
        ev("[\"frg\",%lld,%d,%d]", (ll)sim::nowUs(), tok, kind == "forgeflag" ? 0 : 1);
    }
    if (kind == "idprefix" || kind == "idlonger") {  // an identifier that only resembles that of a real call
        int tok = 0;
        auto it = labels.find(w[4]);
        if (it != labels.end())
            tok = it->second;
        if (tok == 0 || C[tok].id.empty())
            return "";
        pk.pack_array(4);
        pk.pack(1);
        str(kind == "idprefix" ? C[tok].id.substr(0, C[tok].id.size() - 1) : C[tok].id + "0");
        pk.pack_nil();
        str("surprise");
    }
    std::string r(b.data(), b.size());
    if (kind == "trunc" || kind == "truncresp") {
        veigar_msgpack::sbuffer b2;
        if (kind == "trunc")
            veigar_msgpack::pack(b2, std::make_tuple(0, std::string("fakeid"), word(w[4]), std::string("echo"), std::make_tuple(0, std::string("payload"))));
        else
            veigar_msgpack::pack(b2, std::make_tuple(1, std::string("fakeid"), veigar_msgpack::object(), std::string("payload")));
        size_t n = 1 + sim::rnd() % (b2.size() - 1);
        return std::string(b2.data(), n);
    }
    if (kind == "biglen") {  // string header announcing 4 GB
        return std::string("\x95\x00\xdb\xff\xff\xff\xff" "abc", 10);
    }
    if (kind == "bigarr")
        return std::string("\xdd\xff\xff\xff\xff\x00\x00", 7);
    if (kind == "deep")
        return std::string(200, (char)0x91);
    if (kind == "two") {
        veigar_msgpack::sbuffer b2;
        veigar_msgpack::pack(b2, 1);
        veigar_msgpack::pack(b2, std::string("zwei"));
        return std::string(b2.data(), b2.size());
    }
    return r;
}

static void extQueueOp(const Words& w, bool isLock) {
    std::string chan, prefix;
    std::shared_ptr<MessageQueue> mq;
    std::string bytes;
    int no = 0;
    {
        Quiet q;
        chan = word(w[1]);
        prefix = chan + (w[2] == "call" ? VEIGAR_CALL_QUEUE_NAME_SUFFIX : VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX);
        auto g = geo.find(chan);
        uint32_t cap = 8, size = 512;
        if (g != geo.end()) {
            cap = g->second.first;
            size = g->second.second;
        }
        mq = std::make_shared<MessageQueue>((int32_t)cap, (int32_t)size);
        if (!isLock) {
            bytes = makeBytes(w);
            if (bytes.empty())
                return;
        }
    }
    if (!mq->open(prefix))
        return;
    if (mq->processRWLock(60000)) {
        if (isLock && w.size() > 5) {  // lockq CHAN which MS HELDFLAG UNTILFLAG
            {
                Quiet q;
                flags.insert(w[4]);
                sim::passOn();
            }
            sim::waitUntil([&] { return flags.count(w[5]) != 0; }, sim::nowUs() + 1000 * atoll(w[3].c_str()));
        }
        else if (isLock)
            sim::sleepUs(1000 * atoll(w[3].c_str()));
        else {
            {
                Quiet q;
                no = injected.count(bytes) ? injected[bytes] : ++injNo;
                injected[bytes] = no;
            }
            bool ok = mq->pushBack(bytes.data(), (int64_t)bytes.size());
            Quiet q;
            ev("[\"inj\",%lld,%d,%d,%d]", (ll)sim::nowUs(), no, chid(chan), ok ? 1 : 0);
        }
        mq->processRWUnlock();
        if (!isLock)
            mq->notifyRead();
    }
    mq->close();
}

// what there still is of an instance that is not initialised: shared names of its channel, threads
static void leftovers(int id, const std::string& chan) {
    int n = 0;
    for (auto& x : sim::names()) {
        std::string y = x.compare(0, 4, "sem.") == 0 ? x.substr(4) : x;
        if (y.compare(0, chan.size() + 1, chan + "_") == 0)
            ++n;
    }
    ev("[\"lft\",%lld,%d,%d,%d,%d]", (ll)sim::nowUs(), id, chid(chan), n, sim::instThreads(id));
}

static void doInit(Ctx& cx, int id, const std::string& chan, uint32_t cap, uint32_t size) {
    Veigar* v;
    {
        Quiet q;
        Inst& x = I[id];
        v = x.v;
        if (!x.up)
            geo[chan] = {cap, size};
        ev("[\"ini0\",%lld,%d,%d,%d,%d,%d,%d]", (ll)sim::nowUs(), id, sim::selfProc(), chid(chan), (int)cap, (int)size, chan.empty() ? 1 : 0);
    }
    sim::setInst(id);
    bool ok;
    {
        sim::InInit ii;
        sim::InStart is;
        ok = v->init(chan, cap, size);
    }
    bool is = v->isInit();
    std::string cn = v->channelName();
    sim::setInst(0);
    Quiet q;
    Inst& x = I[id];
    if (ok && !x.up) {
        x.chan = chan;
        x.cap = cap;
        x.size = size;
    }
    x.up = is;
    cx.lastOk = ok;
    cx.lastIs = is;
    ev("[\"ini1\",%lld,%d,%d,%d,%d]", (ll)sim::nowUs(), id, ok ? 1 : 0, is ? 1 : 0, chid(cn));
    if (!is)
        leftovers(id, chan);
}
static void doUninit(int id) {
    Veigar* v;
    {
        Quiet q;
        v = I[id].v;
        ev("[\"uni0\",%lld,%d]", (ll)sim::nowUs(), id);
    }
    sim::setInst(id);
    {
        sim::InInit ii;
        v->uninit();
    }
    bool is = v->isInit();
    sim::setInst(0);
    Quiet q;
    I[id].up = is;
    ev("[\"uni1\",%lld,%d,%d]", (ll)sim::nowUs(), id, is ? 1 : 0);
    if (!is)
        leftovers(id, I[id].chan);
}

static bool runOp(Ctx& cx, const Words& w) {
    const std::string& op = w[0];
    auto n = [&](size_t i) { return i < w.size() ? atoll(w[i].c_str()) : 0LL; };
    if (op == "new") {
        Quiet q;
        Inst& x = I[(int)n(1)];
        x.v = nullptr;
    }
    if (op == "new") {
        sim::InStart is;
        Veigar* v = new Veigar();
        Quiet q;
        I[(int)n(1)].v = v;
    }
    else if (op == "init") {
        InstDef d;
        {
            Quiet q;
            d = S.insts[(int)n(1)];
            if (w.size() > 2)
                d.chan = w[2];
            if (w.size() > 4) {
                d.cap = (uint32_t)strtoul(w[3].c_str(), nullptr, 10);
                d.size = (uint32_t)strtoul(w[4].c_str(), nullptr, 10);
            }
            d.chan = word(d.chan);
        }
        doInit(cx, (int)n(1), d.chan, d.cap, d.size);
    }
    else if (op == "uninit")
        doUninit((int)n(1));
    else if (op == "del") {
        Veigar* v;
        {
            Quiet q;
            v = I[(int)n(1)].v;
            I[(int)n(1)].v = nullptr;
        }
        delete v;
    }
    else if (op == "bind") {
        int id;
        Veigar* v;
        std::string fn, kind;
        {
            Quiet q;
            fn = word(w[2]);
            kind = w[3];
            v = I[(int)n(1)].v;
            BindInfo b;
            b.inst = (int)n(1);
            b.fn = fn;
            b.kind = kind;
            id = (int)B.size();
            B.push_back(b);
            int k = 0;
            if (kind.find("throw") != std::string::npos)
                k = 1;
            else if (kind == "void" || kind == "zerov")
                k = 2;
            int ar = kind.find("zero") == 0 ? 0 : kind == "one" ? 1 : 2;
            ev("[\"bnd0\",%lld,%d,%d,%d,%d,%d,%d]", (ll)sim::nowUs(), id, b.inst, fid(fn), k, fn.empty() ? 1 : 0, ar);
        }
        bool ok = apiBind(v, fn, kind, id);
        Quiet q;
        cx.lastOk = ok;
        ev("[\"bnd1\",%lld,%d,%d]", (ll)sim::nowUs(), id, ok ? 1 : 0);
    }
    else if (op == "unbind") {
        Veigar* v;
        std::string fn;
        static int unbNo = 0;
        int u;
        {
            Quiet q;
            fn = word(w[2]);
            v = I[(int)n(1)].v;
            u = ++unbNo;
            ev("[\"unb0\",%lld,%d,%d,%d]", (ll)sim::nowUs(), (int)n(1), fid(fn), u);
        }
        v->unbind(fn);
        Quiet q;
        ev("[\"unb1\",%lld,%d,%d,%d]", (ll)sim::nowUs(), (int)n(1), fid(fn), u);
    }
    else if (op == "names") {
        Veigar* v;
        static int namNo = 0;
        int u;
        {
            Quiet q;
            v = I[(int)n(1)].v;
            u = ++namNo;
            ev("[\"nam0\",%lld,%d,%d]", (ll)sim::nowUs(), (int)n(1), u);
        }
        std::vector<std::string> r = v->bindNames();
        Quiet q;
        std::string s;
        for (auto& x : r) {
            if (!s.empty())
                s += ",";
            s += std::to_string(fid(x));
        }
        cx.lastNames = r;
        ev("[\"nam1\",%lld,%d,[%s],%d]", (ll)sim::nowUs(), (int)n(1), s.c_str(), u);
    }
    else if (op == "peek") {  // what the instance says of itself
        Veigar* v;
        ll t0;
        {
            Quiet q;
            v = I[(int)n(1)].v;
            t0 = (ll)sim::nowUs();
        }
        bool is = v->isInit();
        std::string cn = v->channelName();
        uint32_t cap = v->msgQueueCapacity(), size = v->expectedMsgMaxSize(), rw = v->timeoutOfRWLock();
        Quiet q;
        ev("[\"pk\",%lld,%d,%lld,%d,%d,%u,%u,%u]", (ll)sim::nowUs(), (int)n(1), t0, is ? 1 : 0, chid(cn), cap, size, rw);
    }
    else if (op == "burst") {  // burst INST N: calls to a channel that does not exist
        Veigar* v;
        {
            Quiet q;
            v = I[(int)n(1)].v;
        }
        const int N = (int)n(2);
        int failed = 0;
        std::deque<std::shared_ptr<AsyncCallResult>> open;
        auto collectOne = [&] {
            auto a = open.front();
            open.pop_front();
            CallResult r = a->second.get();
            if (r.errCode == ErrorCode::FAILED && !r.isSuccess())
                ++failed;
            v->releaseCall(a->first);
        };
        for (int k = 0; k < N; ++k) {
            open.push_back(apiProm(v, "nobody", 60000, "burst", SH_ZERO, 0, std::string()));
            if (open.size() > 64)
                collectOne();
        }
        while (!open.empty())
            collectOne();
        Quiet q;
        ev("[\"bst\",%lld,%d,%d,%d]", (ll)sim::nowUs(), (int)n(1), N, failed);
    }
    else if (op == "call")
        doCall(cx, w);
    else if (op == "result")  // until the last call has its result
    {
        int tok = cx.lastTok;
        bool rel = true;
        for (size_t i = 0; i < cx.proms.size(); ++i)
            collect(cx.proms[i], rel);
        sim::waitUntil([&] { return C[tok].rets != 0; }, horizonUs);
    }
    else if (op == "exp") {  // exp PROPS init OK IS | bind OK | names LIST | call value INST|error|failed|timeout|no
        Quiet q;
        bool good = false;
        const std::string& what = w[2];
        if (what == "init")
            good = cx.lastOk == n(3) && cx.lastIs == n(4);
        else if (what == "bind")
            good = cx.lastOk == n(3);
        else if (what == "names") {
            std::vector<std::string> x;
            for (size_t i = 3; i < w.size(); ++i)
                x.push_back(word(w[i]));
            std::vector<std::string> y = cx.lastNames;
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            good = x == y;
        }
        else if (what == "call") {
            const Call& c = C[cx.lastTok];
            good = c.rets == 1;
            if (w[3] == "value")
                good = good && c.succ && c.by > 0 && B[c.by].inst == n(4);
            else if (w[3] == "error")
                good = good && !c.succ && c.code == (int)ErrorCode::SUCCESS && c.err;
            else if (w[3] == "failed")
                good = good && !c.succ && c.code == (int)ErrorCode::FAILED && c.err;
            else if (w[3] == "timeout")
                good = good && !c.succ && c.code == (int)ErrorCode::TIMEOUT;
            else
                good = good && !c.succ;
        }
        std::string ps;
        std::istringstream is(w[1]);
        std::string x;
        while (std::getline(is, x, ','))
            ps += (ps.empty() ? "\"" : ",\"") + x + "\"";
        ev("[\"exp\",%lld,[%s],%d]", (ll)sim::nowUs(), ps.c_str(), good ? 1 : 0);
    }
    else if (op == "await") {
        bool rel = !(w.size() > 1 && w[1] == "norel");
        for (size_t i = 0; i < cx.proms.size(); ++i)
            collect(cx.proms[i], rel);
    }
    else if (op == "release") {  // give up the oldest uncollected promise
        for (auto& p : cx.proms)
            if (!p.done) {
                Veigar* v;
                {
                    Quiet q;
                    p.done = true;
                    v = I[p.inst].v;
                    ev("[\"rel\",%lld,%d]", (ll)sim::nowUs(), p.tok);
                }
                v->releaseCall(p.acr->first);
                break;
            }
    }
    else if (op == "sleep")
        sim::sleepUs(n(1) * 1000);
    else if (op == "usleep")
        sim::sleepUs(n(1));
    else if (op == "set") {
        sim::yield();
        Quiet q;
        flags.insert(w[1]);
        sim::passOn();
    }
    else if (op == "wait")
        return sim::waitUntil([&] { return flags.count(w[1]) != 0; }, horizonUs);  // else the actor gives up
    else if (op == "waitor")  // waitor FLAG ms
        sim::waitUntil([&] { return flags.count(w[1]) != 0; }, sim::nowUs() + (int64_t)(1000 * n(2)));
    else if (op == "kill")
        sim::killProc((int)n(1));
    else if (op == "killat")
        sim::killProcAfter((int)n(1), (int)(1 + sim::rnd() % (uint64_t)n(2)));
    else if (op == "lockq")
        extQueueOp(w, true);
    else if (op == "inject")
        extQueueOp(w, false);
    else if (op == "notify") {  // a read signal without a message
        std::shared_ptr<MessageQueue> mq;
        {
            Quiet q;
            std::string chan = word(w[1]);
            auto g = geo.find(chan);
            mq = std::make_shared<MessageQueue>(g != geo.end() ? (int32_t)g->second.first : 8, g != geo.end() ? (int32_t)g->second.second : 512);
        }
        if (mq->open(word(w[1]) + (w[2] == "call" ? VEIGAR_CALL_QUEUE_NAME_SUFFIX : VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX))) {
            for (ll i = 0; i < n(3); ++i)
                mq->notifyRead();
            mq->close();
        }
    }
    else if (op == "rw") {
        Veigar* v;
        {
            Quiet q;
            v = I[(int)n(1)].v;
        }
        {
            Quiet q;
            ev("[\"rw\",%lld,%d,%d]", (ll)sim::nowUs(), (int)n(1), (int)n(2));
        }
        v->setTimeoutOfRWLock((uint32_t)n(2));
    }
    else if (op == "failnth") {
        sim::failIn(n(1));
        Quiet q;
        ev("[\"fault\",%lld,%lld]", (ll)sim::nowUs(), n(1));
    }
    else {
        fprintf(stderr, "drv: unknown op %s\n", op.c_str());
        _exit(4);
    }
    return true;
}
static void runOps(Ctx& cx, const std::vector<Words>& ops) {
    for (auto& w : ops) {
        bool more = runOp(cx, w);
        sim::passOn();
        if (!more)
            break;
    }
}

// ------------------------------------------------------------------ one run
static void runScenario(uint64_t seed, sim::Shared* sh, size_t cap) {
    int dn = open("/dev/null", O_WRONLY);
    if (!getenv("SIM_VERBOSE"))
        dup2(dn, 1);
    sim::Config c;
    c.seed = seed;
    uint64_t r = seed * 0xD1342543DE82EF95ULL + 7;
    auto rr = [&](uint64_t n) {
        r ^= r >> 29;
        r *= 0xBF58476D1CE4E5B9ULL;
        r ^= r >> 32;
        return r % n;
    };
    int st = (int)S.o("strategy", -1);
    if (st < 0) {
        static const int mix[10] = {0, 0, 1, 1, 1, 2, 2, 2, 3, 3};
        st = mix[rr(10)];
    }
    c.strategy = st;
    static const double sticks[4] = {0.5, 0.8, 0.95, 0.99};
    c.sticky = sticks[rr(4)];
    c.pctDepth = 1 + (int)rr(6);
    static const int holds[4] = {8, 25, 60, 150};
    c.holdMean = holds[rr(4)];
    c.pctSteps = (int)S.o("steps", 1200);
    static const uint32_t mems[6] = {0, 0, 5000, 1000, 200, 40};
    c.memMean = mems[rr(6)];
    if (S.opt.count("mem"))
        c.memMean = (uint32_t)S.o("mem", 0);
    if (S.o("slow", 0) > 0) {
        c.stallProb = S.o("slow", 0) / 1000.0;
        c.stallMaxUs = (int64_t)(1000 * S.o("stallms", 60));
    }
    c.spurious = rr(4) == 0 ? 0.05 : 0;
    c.wallBaseNs = (int64_t)rr(1000000000ULL);
    if (S.opt.count("phase"))
        c.wallBaseNs = (int64_t)S.o("phase", 0);
    c.maxSteps = (int64_t)S.o("maxsteps", 300000);
    horizonUs = (int64_t)(1000 * S.o("horizon", 6000));
    static const std::string lengthy(190, 'l');  // near the longest the system takes
    static const char* naming[][2] = {{"", ""}, {"channel-names-with-a-rather-long-common-prefix.", ""}, {"x", "_call"}, {"", "-of-the-service%d"}, {"a b,", "~"}, {"r_", "_resp"}, {lengthy.c_str(), ""}, {"", ""}};
    int nm = (int)S.o("naming", 0) % 8;
    g_chNest = nm == 7;
    g_chPre = naming[nm][0];
    g_chSuf = naming[nm][1];
    C.emplace_back();
    B.emplace_back();
    sim::onUnlock = unlockHook;
    sim::start(c, sh, cap);
    {
        Quiet q;
        for (auto& k : S.insts) {
            ev("[\"inst\",0,%d,%d,%d,%d,%d]", k.second.id, k.second.proc, chid(word(k.second.chan)), (int)k.second.cap, (int)k.second.size);
            I[k.first].chan = word(k.second.chan);
        }
        for (auto& k : S.opt)
            if (k.first == "timely")
                ev("[\"timely\",0,%d]", (int)k.second);
    }
    std::vector<int> tids;
    std::vector<Ctx*> cxs;
    for (auto& a : S.actors) {
        Quiet q;
        Ctx* cx = new Ctx();
        cx->name = a.name;
        allCtx.push_back(cx);
        cxs.push_back(cx);
        const ActorDef* ad = &a;
        tids.push_back(sim::spawn(a.proc, a.name, [cx, ad] { runOps(*cx, ad->ops); }));
    }
    int64_t hard = horizonUs + (int64_t)(1000 * S.o("grace", 30000));
    sim::waitUntil(
        [&] {
            for (size_t i = 0; i < tids.size(); ++i)
                if (!sim::threadDone(tids[i]) && !sim::procDead(S.actors[i].proc))
                    return false;
            return true;
        },
        hard);
    for (size_t i = 0; i < tids.size(); ++i)
        if (!sim::threadDone(tids[i]) && !sim::procDead(S.actors[i].proc)) {
            Quiet q;
            ev("[\"hang\",%lld,%d,%d]", (ll)sim::nowUs(), (int)i + 1, S.actors[i].proc);
        }
    sim::stopStalls();
    // until nothing has run for a while
    int64_t settleEnd = sim::nowUs() + 15000000;
    for (;;) {
        uint64_t before = activity;
        sim::sleepUs((int64_t)(1000 * S.o("settle", 400)));
        if ((!anyRunning() && activity == before) || sim::nowUs() > settleEnd)
            break;
    }
    {
        Quiet q;
        // futures nobody collected
        for (Ctx* cx : allCtx)
            for (Prom& p : cx->proms)
                if (!p.done && p.acr && p.acr->second.valid() && !sim::procDead(S.insts[p.inst].proc))
                    if (p.acr->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) {
                        p.done = true;
                        try {
                            CallResult r = p.acr->second.get();
                            Outcome o = outcomeOf(r);
                            emitRet(p.tok, o, 1);
                        } catch (...) {
                            ev("[\"thr\",%lld,%d]", (ll)sim::nowUs(), p.tok);
                        }
                    }
        for (auto& k : I) {
            int proc = S.insts[k.first].proc;
            if (!k.second.up || sim::procDead(proc))
                continue;
            for (int qi = 0; qi < 2; ++qi) {
                std::string prefix = k.second.chan + (qi == 0 ? VEIGAR_CALL_QUEUE_NAME_SUFFIX : VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX);
                Obs* o = observer(prefix);
                if (!o)
                    continue;
                std::vector<int> now;
                snapshot(*o, now);
                ev("[\"fq\",%lld,%d,%d,%d,%d,%d]", (ll)sim::nowUs(), k.first, qi, o->obj, (int)now.size() / 4, sim::semValue(prefix + "_rwlock"));
            }
        }
        for (auto& n : sim::names())
            ev("[\"nm\",%lld,\"%s\"]", (ll)sim::nowUs(), n.c_str());
        ev("[\"quiet\",%lld]", (ll)sim::nowUs());
    }
    if (S.o("final", 1) > 0) {
        for (auto& k : I) {
            if (!k.second.up || sim::procDead(S.insts[k.first].proc))
                continue;
            int id = k.first;
            int tid = sim::spawn(S.insts[id].proc, "fin", [id] {
                doUninit(id);
                sim::passOn();
            });
            int64_t dl = sim::nowUs() + 5000000;
            sim::waitUntil([&] { return sim::threadDone(tid); }, dl);
            if (!sim::threadDone(tid)) {
                Quiet q;
                ev("[\"hang\",%lld,%d,%d]", (ll)sim::nowUs(), 100 + id, S.insts[id].proc);
            }
        }
        sim::sleepUs(100000);
    }
    Quiet q;
    // results that arrived during the shutdown
    for (Ctx* cx : allCtx)
        for (Prom& p : cx->proms)
            if (!p.done && p.acr && p.acr->second.valid() && !sim::procDead(S.insts[p.inst].proc))
                if (p.acr->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) {
                    p.done = true;
                    try {
                        CallResult r = p.acr->second.get();
                        Outcome o = outcomeOf(r);
                        emitRet(p.tok, o, 1);
                    } catch (...) {
                        ev("[\"thr\",%lld,%d]", (ll)sim::nowUs(), p.tok);
                    }
                }
    if (S.o("final", 1) > 0) {
        for (auto& n : sim::names())
            ev("[\"nm2\",%lld,\"%s\"]", (ll)sim::nowUs(), n.c_str());
        std::set<int> procs;
        for (auto& k : S.insts)
            procs.insert(k.second.proc);
        for (int p : procs)
            if (!sim::procDead(p)) {
                int actorsAlive = 0;
                for (size_t i = 0; i < tids.size(); ++i)
                    if (S.actors[i].proc == p && !sim::threadDone(tids[i]))
                        actorsAlive++;
                ev("[\"res\",%lld,%d,%d,%d]", (ll)sim::nowUs(), p, sim::liveThreads(p) - actorsAlive, sim::openHandles(p));
            }
    }
    ev("[\"end\",%lld,%d]", (ll)sim::nowUs(), (int)C.size() - 1);
    sh->finished = 1;
    _exit(0);
}

static bool parse(std::istream& f) {
    std::string line;
    std::vector<Words>* sink = nullptr;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        Words w;
        std::string x;
        while (is >> x)
            w.push_back(x);
        if (w.empty() || w[0][0] == '#')
            continue;
        if (w[0] == "scenario") {
            S.name = w[1];
            continue;
        }
        if (w[0] == "opt") {
            S.opt[w[1]] = atof(w[2].c_str());
            continue;
        }
        if (w[0] == "inst") {  // inst id proc chan cap size
            InstDef d;
            d.id = atoi(w[1].c_str());
            d.proc = atoi(w[2].c_str());
            d.chan = w[3];
            if (w.size() > 5) {
                d.cap = (uint32_t)atoi(w[4].c_str());
                d.size = (uint32_t)atoi(w[5].c_str());
            }
            S.insts[d.id] = d;
            continue;
        }
        if (w[0] == "actor") {
            ActorDef a;
            a.name = w[1];
            a.proc = atoi(w[2].c_str());
            S.actors.push_back(a);
            sink = &S.actors.back().ops;
            continue;
        }
        if (w[0] == "planned") {
            sink = &S.plans[atoi(w[1].c_str())];
            continue;
        }
        if (!sink) {
            fprintf(stderr, "drv: stray line %s\n", line.c_str());
            return false;
        }
        sink->push_back(w);
    }
    return true;
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        personality(pers | ADDR_NO_RANDOMIZE);
        setenv("SIM_REEXEC", "1", 1);
        setenv("MALLOC_PERTURB_", "165", 1);
        setenv("MALLOC_ARENA_MAX", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (argc < 5) {
        fprintf(stderr, "usage: drv SCENARIOS FIRSTSEED COUNT OUT\n");
        return 2;
    }
    // the scenario file may hold several scenarios separated by lines "---"
    // (kept outside the heap, so that a run does not depend on the other scenarios of the file)
    struct Piece {
        const char* p;
        size_t n;
    };
    static Piece texts[20000];
    size_t ntexts = 0;
    {
        int fd = open(argv[1], O_RDONLY);
        if (fd < 0)
            return 2;
        off_t len = lseek(fd, 0, SEEK_END);
        const char* all = (const char*)mmap(nullptr, 256 << 20, PROT_READ, MAP_PRIVATE, fd, 0);
        size_t from = 0;
        for (size_t i = 0; i <= (size_t)len && ntexts < 20000; ++i)
            if (i == (size_t)len || (all[i] == '-' && i + 3 < (size_t)len && memcmp(all + i, "---\n", 4) == 0 && (i == 0 || all[i - 1] == '\n'))) {
                texts[ntexts++] = {all + from, i - from};
                from = i + 4;
            }
    }
    uint64_t first = strtoull(argv[2], nullptr, 10);
    int count = atoi(argv[3]);
    FILE* out = strcmp(argv[4], "-") == 0 ? stdout : fopen(argv[4], "w");
    if (!out)
        return 2;
    // nothing below may change the heap the children inherit
    static char outBuf[1 << 16];
    setvbuf(out, outBuf, _IOFBF, sizeof outBuf);
    {
        char nm[100];
        sscanf("warm up", "warm %90s", nm);
        fprintf(out, "#\n");
    }
    double limit = getenv("SIM_TIME") ? atof(getenv("SIM_TIME")) : 0;
    struct timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    size_t cap = 4 << 20;
    sim::Shared* sh = (sim::Shared*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bool stop = false;
    for (int i = 0; i < count && !stop; ++i) {
        for (size_t ti = 0; ti < ntexts; ++ti) {
            const Piece& t = texts[ti];
            if (t.n < 10)
                continue;
            if (limit > 0) {
                struct timespec t1;
                clock_gettime(CLOCK_MONOTONIC, &t1);
                if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > limit) {
                    stop = true;
                    break;
                }
            }
            memset((void*)sh, 0, sizeof(*sh));
            fflush(out);
            uint64_t seed = first + i;
            pid_t pid = fork();
            if (pid == 0) {
                cpu_set_t cs;
                CPU_ZERO(&cs);
                int cpu = sched_getcpu();
                CPU_SET(cpu < 0 ? 0 : cpu, &cs);
                sched_setaffinity(0, sizeof cs, &cs);
                alarm(600);
                struct rlimit rl = {(1ULL << 36) + (4ULL << 30), (1ULL << 36) + (4ULL << 30)};  // the window of rt.cpp and 4 GB
                setrlimit(RLIMIT_AS, &rl);
                std::istringstream is(std::string(t.p, t.n));
                if (!parse(is))
                    _exit(2);
                const rlim_t cpuS = (rlim_t)S.o("cpu", 20);
                struct rlimit rc = {cpuS, cpuS + 1};
                setrlimit(RLIMIT_CPU, &rc);
                runScenario(seed, sh, cap);
            }
            int stt = 0;
            waitpid(pid, &stt, 0);
            char nm[100] = "?";
            sscanf(t.p, "scenario %90s", nm);
            fprintf(out, "#run %s %llu %u\n", nm, (unsigned long long)seed, sh->steps);
            fwrite((const void*)sh->text, 1, sh->len, out);
            if (WIFSIGNALED(stt) && WTERMSIG(stt) != SIGALRM && WTERMSIG(stt) != SIGXCPU && WTERMSIG(stt) != SIGKILL)
                fprintf(out, "[\"crash\",0,%d,%d,%d]\n", WTERMSIG(stt), sh->curProc, sh->curInst);
            else if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGXCPU)
                fprintf(out, "[\"spin\",0,%d,%d]\n", sh->curProc, sh->curInst);
            else if (sh->overflow)
                fprintf(out, "[\"overflow\",0]\n");
            else if (WIFSIGNALED(stt) || (WEXITSTATUS(stt) == 0 && !sh->finished && !sh->livelock))
                fprintf(out, "[\"stopped\",0]\n");
            else if (WEXITSTATUS(stt) != 0) {
                fprintf(stderr, "drv: child exit %d in %s seed %llu\n", WEXITSTATUS(stt), nm, (unsigned long long)seed);
                return 3;
            }
        }
    }
    fclose(out);
    return 0;
}
