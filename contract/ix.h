#pragma once
// the index lookup as a contract: a key leads to the record vf_index_get names,
// or to none
#include "concurrency_control/include/record.h"
#include "yakushima/include/kvs.h"
#include "vf.h"

// to be defined by the contract file
static shirakami::Record* vf_index_get(std::string_view key);
static yakushima::node_version64 vf_node;
static yakushima::node_version64_body vf_node_body;

namespace yakushima {
status get_raw(std::string_view, std::string_view key, void*& out, std::pair<node_version64_body, node_version64*>* nv) {
    auto* r = vf_index_get(key);
    if (r == nullptr) {
        if (nv != nullptr) {
            nv->first = vf_node_body;
            nv->second = &vf_node;
        }
        return status::WARN_NOT_EXIST;
    }
    out = r;
    return status::OK;
}
}
