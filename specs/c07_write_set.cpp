// C07, C08: the write set finds exactly the record written
//@property C07: *
//@property C08: search_small search_large erase_small erase_large
//@sources src/concurrency_control/local_set.cpp src/concurrency_control/record.cpp src/concurrency_control/tid.cpp
//@assumed std::find returns the first equal element, or the end
#include "sh.h"
using namespace shirakami;

struct world {
    session* ti;
    vf_objs<Record> recs;
    local_write_set* ws;
    vf_u64 n, k;
    explicit world(bool batch) : ti(vf_session()), recs("recs", [](void* p, vf_u64 i) {
#ifdef VF_NATIVE
        new (p) Record();
        static_cast<Record*>(p)->key_ = std::to_string(i);
#else
        auto* r = static_cast<Record*>(p);
        new (&r->key_) std::string();
        r->key_.tok_ = i;
#endif
    }) {
#ifndef VF_NATIVE
        new (&ti->write_set_) local_write_set();
#endif
        ws = &ti->get_write_set();
        n = vf_size("n");
        k = vf_in("k");
        vf_expose(k);
        auto* rp = &recs;
        auto entry = [rp](vf_u64 i) {
            write_set_obj w(1, OP_TYPE::DELETE, rp->at(i));
            w.val_ = vf_str_at("val", i);
            return w;
        };
        ws->set_for_batch(batch);
        if (batch) {
            vf_fill_n(ws->get_ref_cont_for_bt(), n, [rp, entry](vf_u64 i) { return std::pair<Record* const, write_set_obj>(rp->at(i), entry(i)); });
        } else {
            vf_fill_n(ws->get_ref_cont_for_occ(), n, entry);
        }
    }
};
static void search_(bool batch) {
    world w(batch);
    vf_u64 q = vf_in("q");
    vf_assume(q < (1UL << 40U));
    vf_expose(q);
#ifdef VF_NATIVE
    vf_assume(q < w.n + 3);
#endif
    write_set_obj* r = w.ws->search(w.recs.at(q));
    if (q < w.n) {
        VF_ASSERT(r != nullptr, "a write of this transaction is found");
        VF_ASSERT(r == nullptr || (r->get_rec_ptr() == w.recs.at(q) && r->val_ == vf_str_at("val", q)), "the write found is that of the record");
    } else {
        VF_ASSERT(r == nullptr, "no write is found for a record not written");
    }
    VF_DONE();
}
VF_HARNESS(search_small) { search_(false); }
VF_HARNESS(search_large) { search_(true); }

static void erase_(bool batch) {
    world w(batch);
    vf_u64 q = vf_in("q");
    vf_assume(q < w.n && w.k < w.n && w.k != q);
    vf_expose(w.k - 1);
    vf_expose(q);
    write_set_obj* r = w.ws->search(w.recs.at(q));
    vf_assume(r != nullptr);
    Status rc = w.ws->erase(r);
    VF_ASSERT(rc == Status::OK, "a write of this transaction can be taken back");
    VF_ASSERT(w.ws->search(w.recs.at(q)) == nullptr, "a write taken back is gone");
    write_set_obj* o = w.ws->search(w.recs.at(w.k));
    VF_ASSERT(o != nullptr && o->val_ == vf_str_at("val", w.k), "the other writes stay");
    VF_DONE();
}
VF_HARNESS(erase_small) { erase_(false); }
VF_HARNESS(erase_large) { erase_(true); }

static void push_(bool batch, bool rtx) {
    world w(batch);
    vf_u64 q = vf_in("q");
    vf_assume(q < (1UL << 40U) && q >= w.n && w.k < w.n);
#ifdef VF_NATIVE
    vf_assume(q < w.n + 3);
#endif
    vf_expose(q);
    vf_assume(batch || w.n < 100); // the container changes at 101 writes
    w.ti->set_tx_type(rtx ? transaction_options::transaction_type::LONG : transaction_options::transaction_type::SHORT);
    write_set_obj wo(1, OP_TYPE::DELETE, w.recs.at(q));
    wo.op_ = OP_TYPE::UPSERT;
    w.ws->push(w.ti, std::move(wo));
    write_set_obj* r = w.ws->search(w.recs.at(q));
    VF_ASSERT(r != nullptr && r->get_op() == OP_TYPE::UPSERT, "a write of this transaction is remembered");
    write_set_obj* o = w.ws->search(w.recs.at(w.k));
    VF_ASSERT(o != nullptr && o->val_ == vf_str_at("val", w.k), "earlier writes stay");
    VF_DONE();
}
VF_HARNESS(push_small) { push_(false, false); }
VF_HARNESS(push_large) { push_(true, false); }
