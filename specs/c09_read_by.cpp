// C09, C03: what committed transactions have read, and its lookup by writers
//@property C09: *
//@property C03: short_points short_ranges
//@sources src/concurrency_control/read_by.cpp
#include "concurrency_control/include/read_by.h"
#include "concurrency_control/include/epoch.h"
#include "sh.h"
using namespace shirakami;

static session* writer(vf_u64 ep, vf_u64 id) {
    auto* ti = vf_session();
    ti->set_valid_epoch(ep);
    ti->set_long_tx_id(id);
    return ti;
}
static vf_u64 sz(const char* c) { return vf_size(c); }

VF_HARNESS(long_points) {
    auto* p = new point_read_by_long(); // NOLINT
    vf_u64 n = sz("n");
    vf_u64 k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    vf_u64 ep = vf_in("ep");
    vf_u64 id = vf_in("id");
    vf_fill_n(p->body_, n, [id](vf_u64 i) {
        vf_assume(vf_in_at("rid", i) != id);
        return std::pair<epoch::epoch_t, std::size_t>(vf_in_at("rep", i), vf_in_at("rid", i));
    });
    bool hit = p->is_exist(writer(ep, id));
    VF_ASSERT(hit || !(vf_in_at("rid", k) < id && ep <= vf_in_at("rep", k)), "a writer placed before a committed older reader is found out");
    VF_DONE();
}
VF_HARNESS(long_points_none) {
    auto* p = new point_read_by_long(); // NOLINT
    vf_u64 ep = vf_in("ep");
    vf_u64 id = vf_in("id");
    vf_fill_n(p->body_, 1, [id](vf_u64 i) {
        vf_assume(vf_in_at("rid", i) != id);
        return std::pair<epoch::epoch_t, std::size_t>(vf_in_at("rep", i), vf_in_at("rid", i));
    });
    bool hit = p->is_exist(writer(ep, id));
    VF_ASSERT(!hit || vf_in_at("rid", 0) < id, "younger readers do not stop a writer");
    VF_ASSERT(!hit || ep <= vf_in_at("rep", 0), "readers placed earlier do not stop a writer");
    VF_DONE();
}
VF_HARNESS(long_points_push) {
    auto* p = new point_read_by_long(); // NOLINT
    vf_u64 n = sz("n");
    vf_u64 k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    vf_u64 id = vf_in("id");
    vf_fill_n(p->body_, n, [id](vf_u64 i) {
        vf_assume(vf_in_at("rid", i) != id);
        return std::pair<epoch::epoch_t, std::size_t>(vf_in_at("rep", i), vf_in_at("rid", i));
    });
    vf_u64 safe = vf_in("safe");
    vf_assume(safe != 0);
    epoch::set_cc_safe_ss_epoch(safe);
    epoch::set_global_epoch(vf_in("now"));
    p->push({vf_in("ep"), id});
    vf_u64 m = p->body_.size();
    VF_ASSERT(m >= 1 && m <= n + 1, "one reader is added");
    VF_ASSERT(p->body_[m - 1].first == vf_in("ep") && p->body_[m - 1].second == id, "the new reader is recorded");
    vf_u64 gone = n + 1 - m;
    if (k < gone) {
        VF_ASSERT(vf_in_at("rep", k) < safe, "only readers older than the safe epoch are forgotten");
    } else {
        VF_ASSERT(p->body_[k - gone].first == vf_in_at("rep", k) && p->body_[k - gone].second == vf_in_at("rid", k), "other readers stay recorded");
    }
    VF_DONE();
}

static range_read_by_long::body_elem_type range(vf_u64 i) {
    auto e = [](vf_u64 v) { return (v & 3U) == 0 ? scan_endpoint::INF : (v & 3U) == 1 ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE; };
    return {vf_in_at("rep", i), vf_in_at("rid", i), vf_str_at("lk", i), e(vf_in_at("le", i)), vf_str_at("rk", i), e(vf_in_at("re", i))};
}
static bool covers(vf_u64 i, std::string const& key) {
    auto r = range(i);
    auto le = std::get<range_read_by_long::index_l_ep>(r);
    auto re = std::get<range_read_by_long::index_r_ep>(r);
    auto& lk = std::get<range_read_by_long::index_l_key>(r);
    auto& rk = std::get<range_read_by_long::index_r_key>(r);
    bool l = le == scan_endpoint::INF || lk < key || (le == scan_endpoint::INCLUSIVE && lk == key);
    bool g = re == scan_endpoint::INF || key < rk || (re == scan_endpoint::INCLUSIVE && rk == key);
    return l && g;
}
VF_HARNESS(long_ranges) {
    auto* p = new range_read_by_long(); // NOLINT
    vf_u64 n = sz("n");
    vf_u64 k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    vf_fill_n(p->body_, n, &range);
    vf_u64 ep = vf_in("ep");
    vf_u64 id = vf_in("id");
    auto key = vf_str("key");
    bool hit = p->is_exist(ep, id, key);
    VF_ASSERT(hit || !(vf_in_at("rid", k) < id && ep <= vf_in_at("rep", k) && covers(k, key)), "a writer into a range read by a committed older reader is found out");
    VF_DONE();
}
VF_HARNESS(long_ranges_none) {
    auto* p = new range_read_by_long(); // NOLINT
    vf_fill_n(p->body_, 1, &range);
    auto key = vf_str("key");
    bool hit = p->is_exist(vf_in("ep"), vf_in("id"), key);
    VF_ASSERT(!hit || covers(0, key), "a key outside the range read does not stop a writer");
    VF_ASSERT(!hit || vf_in_at("rid", 0) < vf_in("id"), "younger readers do not stop a writer");
    VF_DONE();
}
VF_HARNESS(long_ranges_push) {
    auto* p = new range_read_by_long(); // NOLINT
    vf_u64 n = sz("n");
    vf_u64 k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    vf_fill_n(p->body_, n, &range);
    vf_u64 safe = vf_in("safe");
    vf_assume(safe != 0);
    epoch::set_cc_safe_ss_epoch(safe);
    epoch::set_global_epoch(vf_in("now"));
    auto el = range_read_by_long::body_elem_type(vf_in("ep"), vf_in("id"), vf_str("nl"), scan_endpoint::INCLUSIVE, vf_str("nr"), scan_endpoint::EXCLUSIVE);
    p->push(el);
    vf_u64 m = p->body_.size();
    VF_ASSERT(m >= 1 && m <= n + 1, "one range is added");
    VF_ASSERT(p->body_[m - 1] == el, "the new range is recorded");
    vf_u64 gone = n + 1 - m;
    if (k < gone) {
        VF_ASSERT(vf_in_at("rep", k) < safe, "only ranges older than the safe epoch are forgotten");
    } else {
        VF_ASSERT(p->body_[k - gone] == range(k), "other ranges stay recorded");
    }
    VF_DONE();
}

// short transactions: the largest epoch of a committed reader; others raise it too
static bool raises(const void* o, const void* n) { return *static_cast<const vf_u64*>(o) <= *static_cast<const vf_u64*>(n); }
VF_HARNESS(short_points) {
    auto* p = new point_read_by_short(); // NOLINT
    vf_u64 old = vf_in("old");
    p->max_epoch_ = old;
    vf_u64 e = vf_in("e");
    vf_shared(&p->max_epoch_, 8, &raises, &raises);
    p->push(e);
    vf_unshare();
    VF_ASSERT(p->max_epoch_ >= e && p->max_epoch_ >= old, "the epoch of a committed short reader is recorded and never lowered");
    VF_DONE();
}
VF_HARNESS(short_ranges) {
    auto* p = new range_read_by_short(); // NOLINT
    vf_u64 old = vf_in("old");
    p->max_epoch_ = old;
    vf_u64 e = vf_in("e");
    vf_shared(&p->max_epoch_, 8, &raises, &raises);
    p->push(e);
    vf_unshare();
    VF_ASSERT(p->max_epoch_ >= e && p->max_epoch_ >= old, "the epoch of a committed short range reader is recorded and never lowered");
    VF_DONE();
}
