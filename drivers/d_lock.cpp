// Locks and the reservation table, exercised by real threads (bounded stand-in).
#include "drv.h"
#include "concurrency_control/include/tid.h"
#include "concurrency_control/include/wp_lock.h"
#include "concurrency_control/include/wp_meta.h"

using namespace drv;

SCENARIO(record_lock, "C14") {
    rng r(E.seed);
    // sequential: lock and unlock leave everything but the lock bits alone
    for (int i = 0; i < 20000; ++i) {
        tid_word t{};
        t.set_absent(r.chance(50));
        t.set_latest(r.chance(50));
        t.set_by_short(r.chance(50));
        std::uint64_t id = r.next() & ((1ULL << 52U) - 1);
        std::uint64_t ep = r.next() & ((1ULL << 52U) - 1);
        if (r.chance(10)) { id = (1ULL << 52U) - 1; }
        if (r.chance(10)) { ep = (1ULL << 52U) - 1; }
        t.set_tid(id);
        t.set_epoch(ep);
        CHECK_(!t.get_lock() && !t.get_lock_by_gc() && t.get_tid() == id && t.get_epoch() == ep, "a field of the record word does not keep its value");
        tid_word before = t;
        bool gc = r.chance(30);
        t.lock(gc);
        CHECK_(t.get_lock() && t.get_lock_by_gc() == gc, "lock does not set the lock bit (by_gc %d)", gc);
        CHECK_(t.get_absent() == before.get_absent() && t.get_latest() == before.get_latest() && t.get_tid() == id && t.get_epoch() == ep &&
                       t.get_by_short() == before.get_by_short(),
               "lock changes the version information of the record word");
        t.unlock();
        CHECK_(t == before, "lock and unlock do not restore the record word (by_gc %d)", gc);
        tid_word a{};
        a.set_epoch(ep & 0xffff);
        a.set_tid(id & 0xffff);
        tid_word b{};
        b.set_epoch((ep & 0xffff) + 1);
        CHECK_(a < b, "a record word of a later epoch does not order after one of an earlier epoch");
        tid_word c = a;
        c.inc_tid();
        CHECK_(a < c && c.get_epoch() == a.get_epoch(), "a later timestamp of the same epoch does not order after the earlier one");
    }
    // threads: mutual exclusion, no torn or lost update
    for (int round = 0; round < (E.thorough ? 20 : 4); ++round) {
        alignas(16) static tid_word w;
        w = tid_word{};
        static std::uint64_t plain, plain2;
        plain = plain2 = 0;
        std::atomic<int> inside{0};
        std::atomic<bool> stop{false}, bad{false};
        std::vector<std::thread> th;
        const int n = 6;
        const int iters = E.thorough ? 60000 : 25000;
        for (int k = 0; k < n; ++k) {
            th.emplace_back([&, k] {
                for (int i = 0; i < iters; ++i) {
                    w.lock(k == 0);
                    if (inside.fetch_add(1) != 0) { bad = true; }
                    ++plain;
                    tid_word x{loadAcquire(w.get_obj())};
                    if (!x.get_lock() || x.get_lock_by_gc() != (k == 0)) { bad = true; }
                    ++plain2;
                    if (i % 16 == 0) {
                        x.set_epoch(x.get_epoch() + 1);
                        x.inc_tid();
                        storeRelease(w.get_obj(), x.get_obj());
                    }
                    inside.fetch_sub(1);
                    w.unlock();
                }
            });
        }
        std::thread obs([&] {
            while (!stop) {
                tid_word x{loadAcquire(w.get_obj())};
                if (x.get_epoch() != x.get_tid()) { bad = true; }
            }
        });
        for (auto& t : th) { t.join(); }
        stop = true;
        obs.join();
        CHECK_(!bad, "two threads hold the record lock at once, or a reader sees a torn record word");
        CHECK_(plain == static_cast<std::uint64_t>(n) * iters && plain2 == plain, "updates made under the record lock are lost");
        CHECK_(!w.get_lock() && !w.get_lock_by_gc(), "the record stays locked");
    }
}

SCENARIO(reservation_lock, "C15") {
    for (int round = 0; round < (E.thorough ? 20 : 4); ++round) {
        wp::wp_lock l;
        static std::uint64_t a, b;
        a = b = 0;
        std::atomic<bool> stop{false}, bad{false}, torn{false};
        std::atomic<int> inside{0};
        std::vector<std::thread> th;
        const int n = 5;
        const int iters = E.thorough ? 60000 : 20000;
        for (int k = 0; k < n; ++k) {
            th.emplace_back([&] {
                for (int i = 0; i < iters; ++i) {
                    l.lock();
                    if (inside.fetch_add(1) != 0) { bad = true; }
                    __atomic_store_n(&a, a + 1, __ATOMIC_RELAXED);
                    if (i % 8 == 0) { _mm_pause(); }
                    __atomic_store_n(&b, b + 1, __ATOMIC_RELAXED);
                    inside.fetch_sub(1);
                    l.unlock();
                }
            });
        }
        std::thread obs([&] {
            while (!stop) {
                auto s = l.load_obj();
                if (wp::wp_lock::is_locked(s)) { continue; }
                auto x = __atomic_load_n(&a, __ATOMIC_ACQUIRE);
                auto y = __atomic_load_n(&b, __ATOMIC_ACQUIRE);
                if (l.load_obj() == s && x != y) { torn = true; }
            }
        });
        for (auto& t : th) { t.join(); }
        stop = true;
        obs.join();
        CHECK_(!bad, "two threads hold the reservation lock at once");
        CHECK_(!torn, "a reader that saw the same unlocked stamp twice read a half-made change");
        CHECK_(a == static_cast<std::uint64_t>(n) * iters && a == b, "updates made under the reservation lock are lost");
        CHECK_(!wp::wp_lock::is_locked(l.load_obj()), "the reservation lock stays locked");
    }
    // readers of the table see whole registrations
    {
        auto* m = new wp::wp_meta();
        std::atomic<bool> stop{false}, bad{false};
        std::vector<std::thread> th;
        for (int k = 0; k < 4; ++k) {
            th.emplace_back([&, k] {
                for (std::size_t i = 1; i < (E.thorough ? 20000U : 6000U); ++i) {
                    std::size_t id = i * 8 + k + 1;
                    if (m->register_wp(id * 3, id) != Status::OK) { bad = true; }
                    if (m->remove_wp(id) != Status::OK) { bad = true; }
                }
            });
        }
        std::thread obs([&] {
            while (!stop) {
                auto w = m->get_wped();
                for (auto& e : w) {
                    if (e.first != e.second * 3) { bad = true; }
                }
            }
        });
        for (auto& t : th) { t.join(); }
        stop = true;
        obs.join();
        CHECK_(!bad, "a reader of the reservation table sees half of a registration");
        CHECK_(wp::wp_meta::empty(m->get_wped()), "reservations remain after all were removed");
    }
}

SCENARIO(reservation_table, "C12") {
    rng r(E.seed);
    for (int round = 0; round < (E.thorough ? 400 : 60); ++round) {
        auto m = std::make_unique<wp::wp_meta>();
        std::map<std::size_t, epoch::epoch_t> ref;
        std::vector<std::tuple<epoch::epoch_t, std::size_t, bool>> res;
        const std::size_t cap = round % 4 == 0 ? KVS_MAX_PARALLEL_THREADS : 1 + r.below(20);
        std::size_t nextid = 1;
        for (int op = 0; op < 600; ++op) {
            auto c = r.below(10);
            if (c < 6 && ref.size() < cap) {
                epoch::epoch_t ep = 1 + r.below(50);
                std::size_t id = nextid++;
                if (r.chance(30)) { id = (nextid += 3) + 1000000; }
                if (ref.count(id) != 0) { continue; }
                CHECK_(m->register_wp(ep, id) == Status::OK, "a reservation is refused although the table has room");
                ref[id] = ep;
            } else if (!ref.empty()) {
                auto it = ref.begin();
                std::advance(it, r.below(ref.size()));
                if (r.chance(50)) {
                    CHECK_(m->remove_wp(it->first) == Status::OK, "an existing reservation is not removed");
                } else {
                    bool ok = r.chance(50);
                    m->push_write_range(it->first, "a", "b");
                    CHECK_(m->register_wp_result_and_remove_wp({it->second, it->first, ok, {true, "k1", "k2"}}) == Status::OK, "the result of a reservation is not accepted");
                    res.emplace_back(it->second, it->first, ok);
                }
                ref.erase(it);
            }
            if (op % 7 == 0 || ref.size() < 3) {
                auto w = m->get_wped();
                std::map<std::size_t, epoch::epoch_t> seen;
                epoch::epoch_t minep = 0;
                std::size_t minid = 0;
                for (auto& e : w) {
                    if (e.first != 0) { CHECK_(seen.emplace(e.second, e.first).second, "a reservation appears twice"); }
                    else { CHECK_(e.second == 0, "a free place keeps an old reservation"); }
                }
                CHECK_(seen == ref, "the reservation table does not hold exactly the reservations made and not removed");
                for (auto& e : ref) {
                    if (minep == 0 || e.second < minep) { minep = e.second; }
                    if (minid == 0 || e.first < minid) { minid = e.first; }
                }
                CHECK_(wp::wp_meta::find_min_ep(w) == minep, "the earliest reserving epoch is wrong");
                CHECK_(wp::wp_meta::find_min_id(w) == minid, "the earliest reserving transaction is wrong");
                auto mm = wp::wp_meta::find_min_ep_id(w);
                CHECK_(mm.second == minid && mm.first == (ref.empty() ? 0 : ref[minid]), "the earliest reserving transaction and its epoch are wrong");
                CHECK_(wp::wp_meta::empty(w) == ref.empty(), "the reservation table's emptiness is wrong");
                CHECK_(!wp::wp_lock::is_locked(m->get_wp_lock().load_obj()), "the reservation table stays locked");
            }
        }
        auto& rs = m->get_wp_result_set();
        CHECK_(rs.size() == res.size(), "the results of reservations are not all kept");
        for (std::size_t i = 0; i < res.size(); ++i) {
            CHECK_(std::get<0>(rs[i]) == std::get<0>(res[i]) && std::get<1>(rs[i]) == std::get<1>(res[i]) && std::get<2>(rs[i]) == std::get<2>(res[i]) &&
                           std::get<0>(std::get<3>(rs[i])) && std::get<1>(std::get<3>(rs[i])) == "k1" && std::get<2>(std::get<3>(rs[i])) == "k2",
                   "the result of a reservation is not kept as it was given");
        }
    }
}
