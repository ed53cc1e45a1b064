// C02: tracking of the index nodes a short transaction scanned
//@property C02: *
#include "concurrency_control/include/local_set.h"
#include "vf.h"
using namespace shirakami;
using yakushima::node_version64;
using yakushima::node_version64_body;

static node_version64_body ver(vf_u64 a, vf_u64 b) {
    node_version64_body v{};
    v.set_vinsert_delete(static_cast<std::uint32_t>(a));
    v.set_vsplit(static_cast<std::uint32_t>(b));
    return v;
}
static node_version64_body now(vf_u64 node) { return ver(vf_in_at("now_i", node), vf_in_at("now_s", node)); }
static node_version64_body seen(vf_u64 i) { return ver(vf_in_at("seen_i", i), vf_in_at("seen_s", i)); }
static vf_u64 node_of(vf_u64 i) { return vf_in_at("node", i) & 7U; }

struct world {
    node_set* s;
    vf_objs<node_version64> nodes;
    vf_u64 n, k;
    world() : s(new node_set()), nodes("nodes", [](void* p, vf_u64 i) { (new (p) node_version64())->set_body(now(i)); }) { // NOLINT
        n = vf_size("n");
        k = vf_in("k");
        vf_assume(k < n);
        vf_expose(k);
        vf_objs<node_version64>& ns = nodes;
        vf_fill_n(s->set_, n, [&ns](vf_u64 i) { return std::pair<node_version64_body, node_version64*>(seen(i), ns.at(node_of(i))); });
    }
    bool kept(vf_u64 i) { return s->set_[i].first == seen(i) && s->set_[i].second == nodes.at(node_of(i)); }
};

VF_HARNESS(node_verify) {
    world w;
    Status rc = w.s->node_verify();
    VF_ASSERT(rc != Status::OK || now(node_of(w.k)) == seen(w.k), "a commit passes only if no scanned node has changed");
    VF_ASSERT(w.kept(w.k), "verification changes nothing");
    VF_DONE();
}
VF_HARNESS(add_node) {
    world w;
    vf_u64 d = vf_in("d") & 7U;
    auto* nd = w.nodes.at(d);
    auto v = ver(vf_in("vi"), vf_in("vs"));
    Status rc = w.s->emplace_back({v, nd});
    VF_ASSERT(w.kept(w.k), "tracked nodes stay tracked as they were");
    if (rc == Status::OK) {
        vf_u64 m = w.s->set_.size();
        bool last = m > 0 && w.s->set_[m - 1].first == v && w.s->set_[m - 1].second == nd;
        VF_ASSERT(last || !(now(d) == v), "an unchanged node is tracked with the version seen");
        VF_ASSERT(m == w.n || (m == w.n + 1 && last && now(d) == v), "only the node given is added, if it is unchanged");
    } else {
        VF_ASSERT(!(now(d) == v), "an unchanged node is accepted");
    }
    VF_DONE();
}
// a node changed since it was scanned is accepted only if this transaction has
// already accounted for the change itself
VF_HARNESS(add_changed_node) {
    world w;
    vf_u64 d = vf_in("d") & 7U;
    auto v = ver(vf_in("vi"), vf_in("vs"));
    vf_assume(!(now(d) == v));
    vf_assume(w.n == 1);
    auto rc = w.s->emplace_back({v, w.nodes.at(d)});
    bool same = seen(0) == v && node_of(0) == d;
    VF_ASSERT(rc != Status::OK || same || (node_of(0) == d && seen(0) == now(d)), "a node changed by others is refused");
    VF_DONE();
}
// this transaction inserted into node d
VF_HARNESS(own_insert) {
    world w;
    vf_u64 d = vf_in("d") & 7U;
    node_version64_body out{};
    Status rc = w.s->update_node_set(w.nodes.at(d), out);
    bool mine = node_of(w.k) == d;
    VF_ASSERT(mine || w.kept(w.k), "other nodes are tracked as before");
    if (rc == Status::OK) {
        VF_ASSERT(!mine || (w.s->set_[w.k].first == now(d)), "the own insertion is accounted for");
        VF_ASSERT(!mine || seen(w.k).get_vinsert_delete() + 1 == now(d).get_vinsert_delete(), "an insertion by others is not accounted as the own one");
    }
    VF_ASSERT(rc != Status::WARN_NOT_FOUND || !mine, "a tracked node is found");
    VF_DONE();
}
