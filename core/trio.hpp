// three (or four) actors over 1-3 event loops
#pragma once
#include "world.hpp"
namespace h {
struct Topo { // locality of A, B, C
    int l[3];
};
static const Topo topos[] = {{{0, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}, {{0, 1, 1}}, {{0, 1, 2}}, {{1, 0, 0}}, {{1, 2, 0}}};

// creates one supervisor per locality (root in #0) and three actors
struct Trio {
    World &w;
    Probe *ps[3];
    msup_t *sup[3] = {};
    Probe *pa[4];
    r::intrusive_ptr_t<act_t> a[4];
    Trio(World &w_, const Topo &t, bool plain, int flags = 0, r::supervisor_policy_t policy = r::supervisor_policy_t::shutdown_self) : w{w_} {
        int nl = 1 + std::max(t.l[0], std::max(t.l[1], t.l[2]));
        SupOpt o;
        o.plain = plain;
        o.policy = policy;
        o.registry = flags & 1;
        o.sync = flags & 2;
        static const char *sn[] = {"root", "sup1", "sup2"}, *an[] = {"A", "B", "C", "D"};
        for (int i = 0; i < nl; ++i) {
            ps[i] = &w.probe(sn[i]);
            if (i == 0)
                sup[0] = make_root(w, *ps[0], 0, o);
            else {
                o.registry = false;
                sup[i] = make_sup(w, *ps[i], i, *sup[0], o);
            }
        }
        for (int i = 0; i < 4; ++i)
            pa[i] = &w.probe(an[i]);
    }
    void make(int i, int loc, const ActOpt &o = {}) { a[i] = make_act(w, *pa[i], *sup[loc], o); }
};

inline int nlocs(const Topo &t) { return 1 + std::max(t.l[0], std::max(t.l[1], t.l[2])); }

} // namespace h
