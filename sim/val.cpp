// val CASES OUT: replays the journeys of values of spec/Value.tla as real calls between two instances.
// Case file:  #case vSEED   then lines  from to back val at sig(comma separated) args(comma separated, as they arrive) got expected
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <fstream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include "rt.h"
#include "veigar/veigar.h"

using namespace veigar;
typedef std::string S;
typedef std::vector<S> Words;

enum En { EN_NEG = -7, EN_A = 0, EN_B = 1, EN_BIG = 70000 };
MSGPACK_ADD_ENUM(En);
struct St {
    int32_t a = 0;
    S b;
    std::vector<int32_t> c;
    double d = 0;
    bool operator==(const St& o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
    MSGPACK_DEFINE(a, b, c, d);
};
enum class Ec : int32_t { NEG = -7, ZERO = 0, ONE = 1, BIG = 70000 };
MSGPACK_ADD_ENUM(Ec);
struct S1 {
    int32_t a = 5;
    bool operator==(const S1& o) const { return a == o.a; }
    MSGPACK_DEFINE(a);
};
struct S2 {
    int32_t a = 5, b = 7;
    S c = "none";
    std::vector<int32_t> d = {1, 2};
    bool operator==(const S2& o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
    MSGPACK_DEFINE(a, b, c, d);
};
struct K1 {
    int32_t a = 5;
    bool operator==(const K1& o) const { return a == o.a; }
    MSGPACK_DEFINE_MAP(a);
};
struct K2 {
    int32_t a = 5, b = 7;
    S c = "none";
    std::vector<int32_t> d = {1, 2};
    bool operator==(const K2& o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
    MSGPACK_DEFINE_MAP(a, b, c, d);
};
struct Sm {
    int64_t id = 0;
    S name;
    std::map<S, St> subs;
    bool operator==(const Sm& o) const { return id == o.id && name == o.name && subs == o.subs; }
    MSGPACK_DEFINE_MAP(id, name, subs);
};

struct Sd : S1, K1 {  // two bases and members of its own
    S e = "own";
    std::array<int32_t, 2> f = {{1, 2}};
    bool operator==(const Sd& o) const { return S1::a == o.S1::a && K1::a == o.K1::a && e == o.e && f == o.f; }
    MSGPACK_DEFINE(MSGPACK_BASE(S1), e, MSGPACK_BASE(K1), f);
};
struct Nv : K1 {
    int64_t b = -1;
    std::vector<Ec> c;
    bool operator==(const Nv& o) const { return a == o.a && b == o.b && c == o.c; }
    MSGPACK_DEFINE_MAP(MSGPACK_BASE_MAP(K1), MSGPACK_NVP("the second member, which has a long name", b), c);
};
#define MEMBERS m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16
#define WIDE(T, D) \
    struct T { \
        int32_t m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0; \
        S m6, m7, m8, m9, m10, m11; \
        bool m12 = false, m13 = false; \
        double m14 = 0, m15 = 0; \
        std::vector<int32_t> m16; \
        bool operator==(const T& o) const { \
            return m0 == o.m0 && m1 == o.m1 && m2 == o.m2 && m3 == o.m3 && m4 == o.m4 && m5 == o.m5 && m6 == o.m6 && m7 == o.m7 && m8 == o.m8 && m9 == o.m9 && \
                   m10 == o.m10 && m11 == o.m11 && m12 == o.m12 && m13 == o.m13 && m14 == o.m14 && m15 == o.m15 && m16 == o.m16; \
        } \
        D(MEMBERS); \
    };
WIDE(Wa, MSGPACK_DEFINE_ARRAY)
WIDE(Wk, MSGPACK_DEFINE_MAP)

// ---- values by name
static size_t lenOf(const S& n) { return strtoull(n.c_str(), nullptr, 10); }
static char patOf(const S& n) { return n.substr(n.find('/') + 1)[0]; }
static int32_t num32(size_t k, char p) {
    static const int32_t x[] = {0, -1, 127, 128, -128, -129, 2147483647, -2147483647 - 1, 65536, 255, 32768, -32769};
    return p == 'x' ? x[k % 12] : (int32_t)(k * 37 + k / 7);
}
static char byteAt(size_t k, char p) {
    if (p == 'z')
        return k % 3 == 1 ? 'q' : 0;
    if (p == 'h')
        return (char)(128 + k * 11 % 128);
    return (char)('a' + (k * 7 + k / 26) % 26);
}
static void make(const S& n, S& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.push_back(byteAt(k, patOf(n)));
}
template <class T>
static void makeBytes(const S& n, T& v) {
    S s;
    make(n, s);
    v.assign(s.begin(), s.end());
}
static void make(const S& n, std::vector<char>& v) { makeBytes(n, v); }
static void make(const S& n, std::vector<unsigned char>& v) { makeBytes(n, v); }
#define INT(T) \
    static void make(const S& n, T& v) { v = n[0] == '-' ? (T)strtoll(n.c_str(), nullptr, 10) : (T)strtoull(n.c_str(), nullptr, 10); }
INT(char) INT(long long) INT(unsigned long long) INT(int8_t) INT(int16_t) INT(int32_t) INT(int64_t) INT(uint8_t) INT(uint16_t) INT(uint32_t) INT(uint64_t)
static void make(const S& n, bool& v) { v = n == "true"; }
static void make(const S& n, float& v) { v = strtof(n.c_str(), nullptr); }
static void make(const S& n, double& v) { v = strtod(n.c_str(), nullptr); }
static void make(const S& n, Ec& v) { v = (Ec)atoi(n.c_str()); }
static void make(const S& n, En& v) { v = (En)atoi(n.c_str()); }
template <class T>
static void makeList(const S& n, T& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.push_back(num32(k, patOf(n)));
}
static void make(const S& n, std::vector<int32_t>& v) { makeList(n, v); }
static void make(const S& n, std::list<int32_t>& v) { makeList(n, v); }
static void make(const S& n, std::deque<int32_t>& v) { makeList(n, v); }
static S word(size_t k) { return S(k % 40, (char)('A' + k % 50)) + std::to_string(k); }
static void make(const S& n, std::vector<S>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.push_back(word(k));
}
static void make(const S& n, std::vector<double>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.push_back((double)k / 3 - 1);
}
static void make(const S& n, std::vector<bool>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.push_back(k % 3 == 0);
}
static void make(const S& n, std::set<int32_t>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.insert((patOf(n) == 'x' && k < 12 ? num32(k, 'x') : 1000000 + (int32_t)k * 5) * 1);
}
static void make(const S& n, std::set<S>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.insert(word(k));
}
static void make(const S& n, std::map<S, int32_t>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v[word(k)] = num32(k, patOf(n));
}
static void make(const S& n, std::unordered_map<int32_t, S>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v[patOf(n) == 'x' && k < 12 ? num32(k, 'x') : 1000000 + (int32_t)k] = word(k);
}
static void make(const S& n, std::map<int32_t, std::vector<S>>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        make(std::to_string(k % 20) + "/g", v[num32(k, 'g')]);
}
static void make(const S& n, std::vector<std::vector<int32_t>>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k) {
        v.emplace_back();
        make(std::to_string(k % 19) + "/x", v.back());
    }
}
static void make(const S& n, std::pair<int32_t, S>& v) {
    v.first = num32(lenOf(n), 'x');
    make(std::to_string(lenOf(n) * 16) + "/z", v.second);
}
static void make(const S& n, std::tuple<int32_t, S, double, bool>& v) {
    size_t k = lenOf(n);
    v = std::make_tuple(num32(k + 4, 'x'), word(k * 15 + 1), k * 0.1, k % 2 == 0);
}
static void make(const S& n, std::array<int32_t, 3>& v) {
    for (size_t k = 0; k < 3; ++k)
        v[k] = num32(k + 2 * lenOf(n), 'x');
}
static void make(const S& n, St& v) {
    size_t k = lenOf(n);
    v.a = num32(k + 6, 'x');
    v.b = word(k * 9);
    make(std::to_string(k * 8) + "/x", v.c);
    v.d = -1.5 * k;
}
static void make(const S& n, Sm& v) {
    size_t k = lenOf(n);
    v.id = -4294967296LL * (int64_t)k;
    make(std::to_string(k * 100) + "/h", v.name);
    v.subs.clear();
    for (size_t j = 0; j < k * 6; ++j)
        make(std::to_string(j % 4), v.subs[word(j)]);
}
static void make(const S& n, std::shared_ptr<S>& v) {
    v.reset();
    if (n != "null") {
        v = std::make_shared<S>();
        make(n, *v);
    }
}
static void make(const S& n, std::forward_list<int32_t>& v) {
    v.clear();
    for (size_t k = lenOf(n); k > 0; --k)
        v.push_front(num32(k - 1, patOf(n)));
}
static void make(const S& n, std::unordered_set<int32_t>& v) {
    std::set<int32_t> x;
    make(n, x);
    v.clear();
    v.insert(x.begin(), x.end());
}
static void make(const S& n, std::multimap<int32_t, S>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.insert({num32(k / 2, patOf(n)), word(k)});
}
static void make(const S& n, std::vector<std::pair<S, int32_t>>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.push_back({patOf(n) == 'o' ? S(k * 7 % 23 + L % 8, 'p') : word(k), num32(k, 'x')});
}
template <class T>
static void makeStruct(const S& n, T& v) {  // K/full, K/bare
    v = T();
    v.a = num32(lenOf(n) + 3, 'x');
    if (patOf(n) == 'f') {
        v.b = num32(lenOf(n) + 6, 'x');
        v.c = word(lenOf(n) * 9);
        v.d = {};
    }
}
static void make(const S& n, S2& v) { makeStruct(n, v); }
static void make(const S& n, K2& v) { makeStruct(n, v); }
static void make(const S& n, S1& v) { v.a = num32(lenOf(n) + 3, 'x'); }
static void make(const S& n, K1& v) { v.a = num32(lenOf(n) + 3, 'x'); }
static void make(const S& n, std::vector<St>& v) {
    v.resize(lenOf(n));
    for (size_t k = 0; k < v.size(); ++k)
        make(std::to_string(k % 5), v[k]);
}
static void make(const S& n, std::map<S, St>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        make(std::to_string(k % 5), v[word(k)]);
}
static void make(const S& n, std::wstring& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.push_back((wchar_t)(k * 0x1234567 % 0x110000));
}
template <class T>
static void makeArr(const S& n, T& v) {
    for (size_t k = 0; k < v.size(); ++k)
        v[k] = byteAt(k + lenOf(n), lenOf(n) == 0 ? 'z' : lenOf(n) == 1 ? 'h' : 'a');
}
static void make(const S& n, std::array<char, 5>& v) { makeArr(n, v); }
static void make(const S& n, std::array<unsigned char, 33>& v) { makeArr(n, v); }
static void make(const S& n, std::multiset<int32_t>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.insert(num32(k / 2, patOf(n)));
}
static void make(const S& n, std::unordered_multiset<S>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.insert(word(k / 3));
}
static void make(const S& n, std::unordered_multimap<int32_t, S>& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.insert({num32(k / 2, 'g'), word(k % 2)});
}
typedef std::vector<std::map<S, std::vector<std::pair<S, std::list<int32_t>>>>> Dp;
static void make(const S& n, Dp& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k) {
        v.emplace_back();
        for (size_t j = 0; j < k % 4; ++j)
            for (size_t i = 0; i < j; ++i) {
                v.back()[word(j)].push_back({word(i + k), {}});
                make(std::to_string((i + j + k) % 18) + "/x", v.back()[word(j)].back().second);
            }
    }
}
typedef std::vector<std::shared_ptr<S>> Vsp;
static void make(const S& n, Vsp& v) {
    v.clear();
    for (size_t k = 0, L = lenOf(n); k < L; ++k)
        v.push_back(k % 3 == 1 ? nullptr : std::make_shared<S>(word(k)));
}
static void make(const S& n, Sd& v) {
    v.S1::a = num32(lenOf(n), 'x');
    v.K1::a = num32(lenOf(n) + 4, 'x');
    v.e = word(lenOf(n) * 11);
    v.f = {{num32(lenOf(n) + 7, 'x'), -5}};
}
static void make(const S& n, Nv& v) {
    v.a = num32(lenOf(n) + 2, 'x');
    v.b = (int64_t)lenOf(n) << 33;
    v.c.clear();
    for (size_t k = 0; k < lenOf(n); ++k)
        v.c.push_back(k % 2 ? Ec::BIG : Ec::NEG);
}
template <class T>
static void makeWide(const S& n, T& v) {
    size_t k = lenOf(n);
    int32_t* i[] = {&v.m0, &v.m1, &v.m2, &v.m3, &v.m4, &v.m5};
    S* s[] = {&v.m6, &v.m7, &v.m8, &v.m9, &v.m10, &v.m11};
    for (size_t j = 0; j < 6; ++j)
        *i[j] = num32(j + k, 'x'), *s[j] = word(k * j + j);
    v.m12 = k & 1, v.m13 = k & 2;
    v.m14 = k * 0.3, v.m15 = -v.m14;
    make(std::to_string(k * 7) + "/g", v.m16);
}
static void make(const S& n, Wa& v) { makeWide(n, v); }
static void make(const S& n, Wk& v) { makeWide(n, v); }
typedef std::chrono::system_clock::time_point Tp;
static void make(const S& n, timespec& v) {
    static const int64_t sec[] = {0, 1, 4294967296LL, 17179869184LL};
    size_t k = lenOf(n);
    v.tv_sec = sec[k % 4];
    v.tv_nsec = k == 1 ? 0 : 999999999 - (long)k;
}
static void make(const S& n, Tp& v) {
    static const int64_t ns[] = {0, 1000000000LL, 4294967296123456789LL, -1500000000LL};
    v = Tp(std::chrono::duration_cast<Tp::duration>(std::chrono::nanoseconds(ns[lenOf(n) % 4])));
}
static bool same(const timespec& a, const timespec& b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; }
template <class T>
static bool same(const T& a, const T& b) { return a == b; }
static bool same(const std::shared_ptr<S>& a, const std::shared_ptr<S>& b) { return (!a && !b) || (a && b && *a == *b); }

static bool same(const Vsp& a, const Vsp& b) {
    if (a.size() != b.size())
        return false;
    for (size_t k = 0; k < a.size(); ++k)
        if (!same(a[k], b[k]))
            return false;
    return true;
}

// ---- what the function saw
static int g_runs;
static bool g_intact;
static Words g_args;  // names of the arguments of the call under way
template <class T>
static bool intact(size_t at, const T& x) {
    T y;
    make(g_args[at], y);
    return same(x, y);
}

// ---- calls
struct Caller {
    Veigar* v;
    int kind;
    std::string fn;
    CallResult out;
    bool answered;
    template <class... A>
    void go(const A&... a) {
        answered = false;
        if (kind == 0) {
            out = v->syncCall("vB", 5000, fn, a...);
            answered = true;
        }
        else if (kind == 1) {
            std::shared_ptr<AsyncCallResult> acr = v->asyncCall("vB", 5000, fn, a...);
            if (acr && acr->second.valid() && acr->second.wait_for(std::chrono::milliseconds(6000)) == std::future_status::ready) {
                out = acr->second.get();
                answered = true;
            }
            if (acr)
                v->releaseCall(acr->first);
        }
        else {
            // the result lives only as long as the callback, it is read there
            bool done = false;
            v->asyncCall([this, &done](const CallResult& r) {
                out.errCode = r.errCode;
                out.errorMessage = r.errorMessage;
                got = reader ? reader(r) : 0;
                done = true;
            }, "vB", 5000, fn, a...);
            for (int k = 0; k < 6000 && !done; ++k)
                sim::sleepUs(1000);
            answered = done;
        }
    }
    std::function<int(const CallResult&)> reader;
    int got;
};

struct Ops {
    std::function<void(Caller&, const S&)> call;            // one argument of this type
    std::function<int(const CallResult&, const S&)> read;   // 1 equal, 0 unreadable, -1 different
    std::function<bool(Veigar&, const S&)> bind;            // function of one parameter that returns it
};
static std::map<S, Ops> ops;
template <class T>
static void reg(const S& n) {
    Ops o;
    o.call = [](Caller& c, const S& val) {
        T x;
        make(val, x);
        c.go(x);
    };
    o.read = [](const CallResult& r, const S& val) -> int {
        T y;
        try {
            T x = r.obj.get().as<T>();
            make(val, y);
            return same(x, y) ? 1 : -1;
        } catch (...) {
            return 0;
        }
    };
    o.bind = [](Veigar& v, const S& fn) {
        return v.bind(fn, [](const T& x) -> T {
            ++g_runs;
            g_intact = intact(0, x);
            return x;
        });
    };
    ops[n] = o;
}

static void regText() {  // a pointer to characters: can only be given
    Ops o = ops["str"];
    auto str = o.call;
    o.call = [](Caller& c, const S& val) {
        S x;
        make(val, x);
        c.go(x.c_str());
    };
    o.bind = [](Veigar& v, const S& fn) { return v.bind(fn, [](S x) -> S { return x; }); };
    ops["cs"] = o;
}

struct Sig {
    std::function<void(Caller&)> call;                      // arguments are named in g_args
    std::function<bool(Veigar&, const S&, size_t)> bind;
};
static std::map<S, Sig> sigs;

template <size_t I>
struct Mk {
    template <class Tup>
    static void f(Tup& t) {
        Mk<I - 1>::f(t);
        make(g_args[I - 1], std::get<I - 1>(t));
    }
};
template <>
struct Mk<0> {
    template <class Tup>
    static void f(Tup&) {}
};
#define SEEN(k, x) intact(k, x)
template <class A, class B>
static void reg2(const S& n) {
    Sig s;
    s.call = [](Caller& c) {
        std::tuple<A, B> t;
        Mk<2>::f(t);
        c.go(std::get<0>(t), std::get<1>(t));
    };
    s.bind = [](Veigar& v, const S& fn, size_t at) {
        if (at == 1)
            return v.bind(fn, [](A a, B b) -> A { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b); return a; });
        return v.bind(fn, [](A a, B b) -> B { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b); return b; });
    };
    sigs[n] = s;
}
template <class A, class B, class C>
static void reg3(const S& n) {
    Sig s;
    s.call = [](Caller& c) {
        std::tuple<A, B, C> t;
        Mk<3>::f(t);
        c.go(std::get<0>(t), std::get<1>(t), std::get<2>(t));
    };
    s.bind = [](Veigar& v, const S& fn, size_t at) {
        if (at == 1)
            return v.bind(fn, [](A a, const B& b, C c) -> A { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b) && SEEN(2, c); return a; });
        if (at == 2)
            return v.bind(fn, [](A a, const B& b, C c) -> B { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b) && SEEN(2, c); return b; });
        return v.bind(fn, [](A a, const B& b, C c) -> C { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b) && SEEN(2, c); return c; });
    };
    sigs[n] = s;
}
template <class A, class B, class C, class D>
static void reg4(const S& n) {
    Sig s;
    s.call = [](Caller& c) {
        std::tuple<A, B, C, D> t;
        Mk<4>::f(t);
        c.go(std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t));
    };
    s.bind = [](Veigar& v, const S& fn, size_t at) {
        if (at == 1)
            return v.bind(fn, [](const A& a, B b, C c, D d) -> A { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b) && SEEN(2, c) && SEEN(3, d); return a; });
        if (at == 2)
            return v.bind(fn, [](const A& a, B b, C c, D d) -> B { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b) && SEEN(2, c) && SEEN(3, d); return b; });
        if (at == 3)
            return v.bind(fn, [](const A& a, B b, C c, D d) -> C { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b) && SEEN(2, c) && SEEN(3, d); return c; });
        return v.bind(fn, [](const A& a, B b, C c, D d) -> D { ++g_runs; g_intact = SEEN(0, a) && SEEN(1, b) && SEEN(2, c) && SEEN(3, d); return d; });
    };
    sigs[n] = s;
}

struct Report {
    volatile int line, bad;
    char what[600];
};
static Report* R;
static void say(const char* what, const S& line) {
    snprintf(R->what, sizeof R->what, "%s: %s", what, line.c_str());
    R->bad = 1;
    _exit(0);
}

struct Case {
    S name;
    uint64_t seed;
    std::vector<S> lines;
};

static Words split(const S& s, char d) {
    Words w;
    S x;
    std::istringstream is(s);
    while (std::getline(is, x, d))
        w.push_back(x);
    return w;
}

static void play(const Case& c) {
    Veigar b, a;
    for (auto& o : ops)
        if (!o.second.bind(b, "id_" + o.first))
            say("bind failed", o.first);
    for (auto& s : sigs)
        for (size_t k = 1; k <= split(s.first, ',').size(); ++k)
            if (!s.second.bind(b, s.first + std::to_string(k), k))
                say("bind failed", s.first);
    if (!b.init("vB", 8, 400000) || !a.init("vA", 8, 400000))
        say("init failed", "");
    for (size_t n = 0; n < c.lines.size(); ++n) {
        R->line = (int)n + 1;
        const S& line = c.lines[n];
        Words w = split(line, ' ');  // from to back val at sig args got expected
        Words sg = split(w[5], ',');
        g_args = split(w[6], ',');
        g_runs = 0;
        g_intact = false;
        Caller call;
        call.v = &a;
        call.kind = (int)((n + c.seed) % 3);
        call.got = -2;
        Ops& bk = ops[w[2]];
        S val = w[3], res = w[7];
        call.reader = [&](const CallResult& r) { return bk.read(r, res); };
        if (sg.size() == 1) {
            call.fn = "id_" + w[1];
            ops[w[0]].call(call, val);
        }
        else {
            call.fn = w[5] + w[4];
            sigs[w[5]].call(call);
        }
        if (!call.answered)
            say("no result", line);
        if (call.out.errCode != ErrorCode::SUCCESS)
            say(("not delivered, " + call.out.errorMessage).c_str(), line);
        bool ok = call.out.isSuccess();
        if (w[8] == "badarg") {
            if (ok || g_runs)
                say("an argument that does not convert was accepted", line);
            if (call.out.errorMessage.empty())
                say("error without a message", line);
            continue;
        }
        if (!ok)
            say(("refused, " + call.out.errorMessage).c_str(), line);
        if (g_runs != 1)
            say("not executed once", line);
        if (!g_intact)
            say("arrived differently", line);
        int got = call.kind == 2 ? call.got : bk.read(call.out, res);
        if (w[8] == "ok" && got != 1)
            say(got == 0 ? "result cannot be read" : "came back differently", line);
        if (w[8] == "badres" && got != 0)
            say("result was read as a type that it is not", line);
    }
    a.uninit();
    b.uninit();
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        personality(pers | ADDR_NO_RANDOMIZE);
        setenv("SIM_REEXEC", "1", 1);
        setenv("MALLOC_PERTURB_", "165", 1);
        setenv("MALLOC_ARENA_MAX", "1", 1);
        execv("/proc/self/exe", argv);
    }
    reg<int8_t>("i8"), reg<int16_t>("i16"), reg<int32_t>("i32"), reg<int64_t>("i64");
    reg<uint8_t>("u8"), reg<uint16_t>("u16"), reg<uint32_t>("u32"), reg<uint64_t>("u64");
    reg<bool>("bool"), reg<float>("f32"), reg<double>("f64"), reg<En>("en");
    reg<S>("str"), reg<std::vector<char>>("bin"), reg<std::vector<unsigned char>>("ubin");
    reg<std::vector<int32_t>>("vi"), reg<std::list<int32_t>>("li"), reg<std::deque<int32_t>>("dq");
    reg<std::vector<S>>("vs"), reg<std::vector<double>>("vd"), reg<std::vector<bool>>("vb");
    reg<std::set<int32_t>>("si"), reg<std::set<S>>("ss"), reg<std::map<S, int32_t>>("mi"), reg<std::unordered_map<int32_t, S>>("um");
    reg<std::map<int32_t, std::vector<S>>>("mv"), reg<std::vector<std::vector<int32_t>>>("vv"), reg<std::pair<int32_t, S>>("pr");
    reg<std::tuple<int32_t, S, double, bool>>("tp"), reg<std::array<int32_t, 3>>("ar"), reg<St>("st"), reg<Sm>("sm"), reg<Ec>("ec"), reg<S1>("s1"), reg<S2>("s2"), reg<K1>("k1"), reg<K2>("k2"), reg<std::forward_list<int32_t>>("fl");
    reg<std::unordered_set<int32_t>>("us"), reg<std::multimap<int32_t, S>>("mm"), reg<std::vector<std::pair<S, int32_t>>>("vp"), reg<std::vector<St>>("vst");
    reg<std::map<S, St>>("mst"), reg<std::wstring>("ws"), reg<timespec>("tsp"), reg<Tp>("tpt"), reg<std::shared_ptr<S>>("sp");
    reg<char>("c8"), reg<long long>("ll"), reg<unsigned long long>("ull");
    reg<std::array<char, 5>>("ac"), reg<std::array<unsigned char, 33>>("au"), reg<std::multiset<int32_t>>("ms"), reg<std::unordered_multiset<S>>("ums");
    reg<std::unordered_multimap<int32_t, S>>("umm"), reg<Dp>("dp"), reg<Vsp>("vsp"), reg<Sd>("sd"), reg<Nv>("nv"), reg<Wa>("wa"), reg<Wk>("wk");
    regText();
    reg4<S, int32_t, double, std::vector<unsigned char>>("str,i32,f64,ubin");
    reg3<int64_t, std::vector<S>, std::map<S, int32_t>>("i64,vs,mi");
    reg3<bool, St, S>("bool,st,str");
    reg4<uint8_t, uint16_t, uint32_t, uint64_t>("u8,u16,u32,u64");
    reg2<std::vector<std::vector<int32_t>>, float>("vv,f32");
    reg2<S, S>("str,str");

    if (argc < 3)
        return 2;
    std::vector<Case> cases;
    std::ifstream in(argv[1]);
    S l;
    while (std::getline(in, l)) {
        if (l.compare(0, 6, "#case ") == 0) {
            Words w = split(l, ' ');
            cases.push_back({w[1], strtoull(w[1].c_str() + 1, nullptr, 10), {}});
        }
        else if (!l.empty() && l[0] != '#' && !cases.empty())
            cases.back().lines.push_back(l);
    }
    FILE* out = strcmp(argv[2], "-") == 0 ? stdout : fopen(argv[2], "w");
    if (!out)
        return 2;
    size_t cap = 1 << 20;
    sim::Shared* sh = (sim::Shared*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (const Case& c : cases) {
        memset((void*)sh, 0, sizeof *sh);
        memset((void*)R, 0, sizeof *R);
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(600);
            struct rlimit rc = {120, 121};
            setrlimit(RLIMIT_CPU, &rc);
            cpu_set_t cs;
            CPU_ZERO(&cs);
            int cpu = sched_getcpu();
            CPU_SET(cpu < 0 ? 0 : cpu, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
            int nul = fileno(fopen("/dev/null", "w"));
            dup2(nul, 1);
            dup2(nul, 2);
            sim::Config cfg;
            cfg.seed = c.seed;
            cfg.maxSteps = 100000000;
            cfg.strategy = sim::ST_STICKY;
            sim::start(cfg, sh, cap);
            sim::spawn(1, "v", [&c] {
                play(c);
                R->bad = -1;
                _exit(0);
            });
            while (true)
                sim::sleepUs(1000000);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
            fprintf(out, "broken %s no end\n", c.name.c_str());
        else if (WIFSIGNALED(st))
            fprintf(out, "bad %s line %d: ended by signal %d\n", c.name.c_str(), R->line, WTERMSIG(st));
        else if (R->bad == 1)
            fprintf(out, "bad %s line %d: %s\n", c.name.c_str(), R->line, R->what);
        else if (R->bad == -1)
            fprintf(out, "ok %s\n", c.name.c_str());
        else if (WEXITSTATUS(st) == 0 && R->bad == 0)
            fprintf(out, "bad %s line %d: does not end\n", c.name.c_str(), R->line);
        else
            fprintf(out, "broken %s %d %s\n", c.name.c_str(), st, R->what);
    }
    fclose(out);
    return 0;
}
