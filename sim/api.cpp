#include "api.h"
using namespace veigar;

static void fill(Outcome& o, const CallResult& r) {
    o.code = (int)r.errCode;
    o.hasErr = !r.errorMessage.empty();
    o.err = r.errorMessage;
    o.success = r.isSuccess();
    const veigar_msgpack::object& ob = r.obj.get();
    if (ob.type == veigar_msgpack::type::NIL)
        o.valKind = 0;
    else if (ob.type == veigar_msgpack::type::STR) {
        o.valKind = 1;
        o.val.assign(ob.via.str.ptr, ob.via.str.size);
    }
    else
        o.valKind = 2;
}
Outcome outcomeOf(CallResult& r) {
    Outcome o;
    fill(o, r);
    if (o.valKind == 1) {
        std::string s;
        if (!r.convertObject(s) || s != o.val)
            o.valKind = 2;
    }
    return o;
}
Outcome outcomeOf(const CallResult& r) {
    Outcome o;
    fill(o, r);
    return o;
}

Outcome apiSync(Veigar* v, const std::string& chan, uint32_t tmo, const std::string& fn, int shape, int tok, const std::string& payload) {
    CallResult r;
    switch (shape) {
        case SH_BAD:
            r = v->syncCall(chan, tmo, fn, std::string("bad") + std::to_string(tok), 7);
            break;
        case SH_ZERO:
            r = v->syncCall(chan, tmo, fn);
            break;
        case SH_ONE:
            r = v->syncCall(chan, tmo, fn, tok);
            break;
        default:
            r = v->syncCall(chan, tmo, fn, tok, payload);
    }
    return outcomeOf(r);
}
std::shared_ptr<AsyncCallResult> apiProm(Veigar* v, const std::string& chan, uint32_t tmo, const std::string& fn, int shape, int tok,
                                         const std::string& payload) {
    switch (shape) {
        case SH_BAD:
            return v->asyncCall(chan, tmo, fn, std::string("bad") + std::to_string(tok), 7);
        case SH_ZERO:
            return v->asyncCall(chan, tmo, fn);
        case SH_ONE:
            return v->asyncCall(chan, tmo, fn, tok);
        default:
            return v->asyncCall(chan, tmo, fn, tok, payload);
    }
}
void apiCb(Veigar* v, std::function<void(const CallResult&)> cb, const std::string& chan, uint32_t tmo, const std::string& fn, int shape, int tok,
           const std::string& payload) {
    ResultCallback rc = cb;
    switch (shape) {
        case SH_BAD:
            v->asyncCall(rc, chan, tmo, fn, std::string("bad") + std::to_string(tok), 7);
            break;
        case SH_ZERO:
            v->asyncCall(rc, chan, tmo, fn);
            break;
        case SH_ONE:
            v->asyncCall(rc, chan, tmo, fn, tok);
            break;
        default:
            v->asyncCall(rc, chan, tmo, fn, tok, payload);
    }
}

struct MyErr : std::exception {
    std::string w;
    explicit MyErr(const std::string& s) :
        w(s) {}
    const char* what() const noexcept override { return w.c_str(); }
};

bool apiBind(Veigar* v, const std::string& name, const std::string& kind, int id) {
    if (kind == "void")
        return v->bind(name, [id](int tok, std::string p) { onExec(id, tok, &p); });
    if (kind == "throwstd")
        return v->bind(name, [id](int tok, std::string p) -> std::string {
            onExec(id, tok, &p);
            throw MyErr("told<" + std::to_string(tok));
        });
    if (kind == "throwempty")
        return v->bind(name, [id](int tok, std::string p) -> std::string {
            onExec(id, tok, &p);
            throw MyErr("");
        });
    if (kind == "throwint")
        return v->bind(name, [id](int tok, std::string p) -> std::string {
            onExec(id, tok, &p);
            throw 42;
        });
    if (kind == "vthrowint")
        return v->bind(name, [id](int tok, std::string p) {
            onExec(id, tok, &p);
            throw 42;
        });
    if (kind == "throwbig")
        return v->bind(name, [id](int tok, std::string p) -> std::string {
            onExec(id, tok, &p);
            throw MyErr("told<" + std::to_string(tok) + " " + std::string(5000, 'x') + "%s%n%d");
        });
    if (kind == "zero")
        return v->bind(name, [id]() -> std::string { return onExec(id, -1, nullptr); });
    if (kind == "zerov")
        return v->bind(name, [id]() { onExec(id, -1, nullptr); });
    if (kind == "zerothrow")
        return v->bind(name, [id]() -> std::string {
            onExec(id, -1, nullptr);
            throw std::string("not a std exception");
        });
    if (kind == "one")
        return v->bind(name, [id](int tok) -> std::string { return onExec(id, tok, nullptr); });
    return v->bind(name, [id](int tok, std::string p) -> std::string { return onExec(id, tok, &p); });
}
