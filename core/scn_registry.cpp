// P11: the registry against a reference map
#include "trio.hpp"
using namespace h;

namespace {
constexpr int NN = 2, NA = 2;
enum K { REG, DISC, PROM, CANCEL, DSVC, DADDR };
struct ROp {
    K k;
    int name = 0, addr = 0, who = 0;
};
const std::vector<ROp> &rops() {
    static std::vector<ROp> v = [] {
        std::vector<ROp> r;
        for (int n = 0; n < NN; ++n)
            for (int a = 0; a < NA; ++a)
                r.push_back({REG, n, a, a}); // client a registers
        r.push_back({REG, 0, 1, 0});        // and somebody else does it on behalf of it
        for (int n = 0; n < NN; ++n) {
            r.push_back({DISC, n, 0, n});
            for (int w = 0; w < 2; ++w)
                r.push_back({PROM, n, 0, w});
        }
        r.push_back({CANCEL, 0, 0, 0}); // the oldest promise of client 0
        r.push_back({CANCEL, 1, 0, 0}); // the newest
        r.push_back({CANCEL, 0, 0, 1});
        r.push_back({CANCEL, 2, 0, 0}); // id of a pending promise of another client, if any; otherwise unknown id
        for (int n = 0; n < NN; ++n)
            r.push_back({DSVC, n, 0, n});
        for (int a = 0; a < NA; ++a)
            r.push_back({DADDR, 0, a, a});
        return r;
    }();
    return v;
}
// smaller alphabets, explored deeper
struct Alpha {
    const char *name;
    std::vector<ROp> ops;
    int quick, thorough;
};
const std::vector<Alpha> &alphas() {
    static std::vector<Alpha> v = {
        {"every operation", rops(), 4, 5},
        {"(de-)registrations", {{REG, 0, 0, 0}, {REG, 0, 1, 1}, {REG, 1, 0, 0}, {REG, 1, 1, 1}, {DSVC, 0, 0, 0}, {DSVC, 1, 0, 1}, {DADDR, 0, 0, 0}, {DADDR, 0, 1, 1}}, 6, 8},
        {"promises", {{REG, 0, 0, 0}, {REG, 1, 1, 1}, {PROM, 0, 0, 0}, {PROM, 0, 0, 1}, {PROM, 1, 0, 0}, {CANCEL, 0, 0, 0}, {CANCEL, 1, 0, 0}, {DSVC, 0, 0, 0}}, 6, 8},
    };
    return v;
}
struct Resp {
    int who, kind; // kind: 0 registration, 1 discovery, 2 future
    int id;        // sequence number of the request
    int code;      // 0 ok, otherwise error code value
    int addr;      // for discovery
    bool operator<(const Resp &o) const { return std::tie(who, kind, id, code, addr) < std::tie(o.who, o.kind, o.id, o.code, o.addr); }
    bool operator==(const Resp &o) const { return !(*this < o) && !(o < *this); }
};
struct RSt {
    std::vector<Resp> got;
    std::map<std::pair<int, size_t>, int> seq; // (client, request id) -> number
    std::map<int, int> ref;                   // name -> addr
    struct Pr {
        int who, name, n;
        size_t id;
    };
    std::vector<Pr> promises;
    address_ptr_t addr[NA], reg, via[2];
    std::unique_ptr<Trio> t;
};
const char *names[] = {"x", "y"};

void run_registry(const Alpha &al, int depth, int first) {
    auto sp = std::make_shared<RSt>();
    auto &s = *sp;
    auto &w = *new World(1);
    w.keep.push_back(sp);
    w.blame = "P11";
    w.k_idle_timers = false;
    {
        s.t.reset(new Trio(w, topos[0], true, 1));
        auto &t = *s.t;
        for (int i = 0; i < 2; ++i) {
            t.pa[i]->conf = [&s, i](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &am) { s.via[i] = am.create_address(); });
                p.with_casted<r::plugin::starter_plugin_t>(
                    [&](auto &st) {
                        auto num = [&s, i](auto &m) {
                            auto it = s.seq.find({i, m.payload.request_id()});
                            return it == s.seq.end() ? -1 : it->second;
                        };
                        auto code = [](auto &m) { return m.payload.ee ? m.payload.ee->root()->ec.value() : 0; };
                        auto ai = [&s](const address_ptr_t &a) { return a == s.addr[0] ? 0 : a == s.addr[1] ? 1 : a ? 9 : -1; };
                        st.subscribe_actor(r::lambda<r::message::registration_response_t>(
                            [&s, i, num, code](auto &m) { s.got.push_back({i, 0, num(m), code(m), -1}); }), s.via[i]);
                        st.subscribe_actor(r::lambda<r::message::discovery_response_t>(
                            [&s, i, num, code, ai](auto &m) { s.got.push_back({i, 1, num(m), code(m), ai(m.payload.res.service_addr)}); }), s.via[i]);
                        st.subscribe_actor(r::lambda<r::message::discovery_future_t>(
                            [&s, i, num, code, ai](auto &m) { s.got.push_back({i, 2, num(m), code(m), ai(m.payload.res.service_addr)}); }), s.via[i]);
                    },
                    r::plugin::config_phase_t::PREINIT);
            };
            t.make(i, 0);
            s.addr[i] = t.a[i]->get_address();
        }
        s.reg = t.sup[0]->get_registry_address();
        w.boot_quietly();
        s.got.clear();
        int nreq = 0;
        auto ecv = [](r::error_code_t c) { return int(r::make_error_code(c).value()); };
        int probe = 0; // in the end every name is discovered: the whole map is observed
        for (int d = 0; probe <= NN && !w.stop(); ++d) {
            ROp o{DISC};
            if (!probe) {
                int oi = d == 0 ? first : d == depth ? -1 : mc::choose(int(al.ops.size()) + 1, mc::FREE, "operation") - 1;
                if (oi < 0)
                    probe = 1;
                else
                    o = al.ops[oi];
            }
            if (probe) {
                if (probe > NN)
                    break;
                o = ROp{DISC, probe - 1, 0, 0};
                ++probe;
            }
            auto &A = *t.a[o.who];
            std::vector<Resp> want;
            w.k_explore = false;
            w.cur = t.pa[o.who]->loc;
            switch (o.k) {
            case REG: {
                mc::obs("register %s as #%d", names[o.name], o.addr);
                auto id = A.request_via<r::payload::registration_request_t>(s.reg, s.via[o.who], std::string(names[o.name]), s.addr[o.addr]).send(ms(T_INIT));
                s.seq[{o.who, id}] = nreq;
                if (s.ref.count(o.name))
                    want.push_back({o.who, 0, nreq, ecv(r::error_code_t::already_registered), -1});
                else {
                    s.ref[o.name] = o.addr;
                    want.push_back({o.who, 0, nreq, 0, -1});
                    for (auto it = s.promises.begin(); it != s.promises.end();)
                        if (it->name == o.name) {
                            want.push_back({it->who, 2, it->n, 0, o.addr});
                            it = s.promises.erase(it);
                        } else
                            ++it;
                }
                ++nreq;
                break;
            }
            case DISC: {
                mc::obs("discover %s", names[o.name]);
                auto id = A.request_via<r::payload::discovery_request_t>(s.reg, s.via[o.who], std::string(names[o.name])).send(ms(T_INIT));
                s.seq[{o.who, id}] = nreq;
                auto it = s.ref.find(o.name);
                if (it == s.ref.end())
                    want.push_back({o.who, 1, nreq, ecv(r::error_code_t::unknown_service), -1});
                else
                    want.push_back({o.who, 1, nreq, 0, it->second});
                ++nreq;
                break;
            }
            case PROM: {
                mc::obs("client %d asks for a promise of %s", o.who, names[o.name]);
                auto id = A.request_via<r::payload::discovery_promise_t>(s.reg, s.via[o.who], std::string(names[o.name])).send(ms(T_INIT));
                s.seq[{o.who, id}] = nreq;
                auto it = s.ref.find(o.name);
                if (it == s.ref.end())
                    s.promises.push_back({o.who, o.name, nreq, id});
                else
                    want.push_back({o.who, 2, nreq, 0, it->second});
                ++nreq;
                break;
            }
            case CANCEL: {
                auto hit = s.promises.end();
                size_t id = 777;
                for (auto it = s.promises.begin(); it != s.promises.end(); ++it) {
                    if (o.name == 2) { // the id of somebody else
                        if (it->who != o.who)
                            id = it->id;
                    } else if (it->who == o.who && (hit == s.promises.end() || o.name == 1))
                        hit = it;
                }
                mc::obs("client %d cancels %s", o.who, hit == s.promises.end() ? "an unknown promise" : names[hit->name]);
                if (hit != s.promises.end()) {
                    id = hit->id;
                    want.push_back({o.who, 2, hit->n, ecv(r::error_code_t::cancelled), -1});
                    s.promises.erase(hit);
                }
                using payload_t = r::message::discovery_cancel_t::payload_t;
                A.send<payload_t>(s.reg, id, s.via[o.who]);
                break;
            }
            case DSVC:
                mc::obs("deregister %s", names[o.name]);
                A.send<r::payload::deregistration_service_t>(s.reg, std::string(names[o.name]));
                s.ref.erase(o.name);
                break;
            case DADDR:
                mc::obs("deregister #%d", o.addr);
                A.send<r::payload::deregistration_notify_t>(s.reg, s.addr[o.addr]);
                for (auto it = s.ref.begin(); it != s.ref.end();)
                    it = it->second == o.addr ? s.ref.erase(it) : std::next(it);
                break;
            }
            w.cur->kick = true;
            w.cur = nullptr;
            w.run();
            w.k_explore = true;
            std::sort(want.begin(), want.end());
            std::sort(s.got.begin(), s.got.end());
            if (want != s.got) {
                auto show = [](const std::vector<Resp> &v) {
                    std::string r;
                    for (auto &x : v)
                        r += "[client " + std::to_string(x.who) + (x.kind == 0 ? " registration" : x.kind == 1 ? " discovery" : " future") + " #" + std::to_string(x.id) +
                             " code " + std::to_string(x.code) + " addr " + std::to_string(x.addr) + "]";
                    return r.empty() ? std::string("nothing") : r;
                };
                mc::fail("P11", "differs-from-map", "operation %d: replied %s, the reference map says %s", d, show(s.got).c_str(), show(want).c_str());
            }
            s.got.clear();
        }
        for (auto &a : s.addr)
            a.reset();
        for (auto &a : s.via)
            a.reset();
        s.reg.reset();
        w.k_explore = false;
        w.k_idle_timers = true;
        for (auto &x : t.a)
            x.reset();
    }
    sp.reset();
    w.end();
}
std::string opname(const ROp &o) {
    static const char *k[] = {"register", "discover", "promise", "cancel", "deregister service", "deregister address"};
    return k[o.k];
}
struct RCfg {
    const Alpha *al = nullptr;
    int depth = 0, first = 0;
};
// quick: configurations of the lesser depths
RCfg rcfg(int c) {
    for (int t = 0; t < 2; ++t)
        for (auto &a : alphas()) {
            if (c < int(a.ops.size()))
                return {&a, t ? a.thorough : a.quick, c};
            c -= int(a.ops.size());
        }
    return {};
}
int rcount(bool quick) {
    int n = 0;
    for (auto &a : alphas())
        n += int(a.ops.size()) * (quick ? 1 : 2);
    return n;
}
mc::Reg r1({"registry.map", {"P11", "P17"}, [](mc::Tier t) { return rcount(t == mc::Tier::quick); },
            [](int c) {
                auto g = rcfg(c);
                run_registry(*g.al, g.depth, g.first);
            },
            [](int c) {
                auto g = rcfg(c);
                return "all sequences of up to " + std::to_string(g.depth) + " operations (" + g.al->name +
                       ") on a fresh registry, then the discovery of every name; the first operation: " + opname(g.al->ops[g.first]);
            },
            0, 0, 1, 0});
} // namespace
