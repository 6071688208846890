// Shared scenario helpers: tracked user resources, allocator, status helpers.
#pragma once
#include "core.hpp"
#include <rcpr/allocator.h>
#include <rcpr/compare.h>
#include <rcpr/resource.h>
#include <rcpr/resource/protected.h>
#include <rcpr/status.h>
#include <rcpr/vtable.h>
#include <rcpr/uuid.h>
#include <rcpr/component.h>
#include <cinttypes>
#include <algorithm>
using namespace sim;
RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;
RCPR_IMPORT_uuid;
RCPR_IMPORT_compare;

#define OK STATUS_SUCCESS
static const status E_RELEASE = (status)0x8F0F0001;   // what a failing user release reports
static const status E_USERIO = (status)0x8F0F0002;
static const status E_CALLBACK = (status)0x8F0F0003;
static const status E_UNEXP = (status)0x8F0F0004;

// a user resource whose releases are tracked; releasing it twice is a violation
struct Item {
    resource hdr;
    uint64_t magic;
    int id;
    int64_t val;
};
struct Items {
    std::map<int, Item*> live; int next = 0; uint64_t released = 0, failed = 0;
    std::set<int> last_failed;
};
Items& items();
void items_reset();
Item* item_new(int64_t val = 0);
inline resource* item_res(Item* i) { return &i->hdr; }
bool item_alive(int id);
Item* item_of(resource* r);   // checks it is one of ours and alive
void item_drop(Item* i);      // harness-side release, never fails
size_t items_live();

// the allocators of a run: one of the library's, or in some runs several, of which each use takes any; a
// block must go back to the allocator it came from
static const status E_RECLAIM = (status)0x8F0F0B0B;
void reclaim_failures(bool on, int nth = 0);   // nth: that one for certain, instead of a fault that may strike   // memory given back to the user-defined allocators of a run may be reported as a failure
struct Alloc {
    struct Pick { std::vector<allocator*> v; operator allocator*() const; };
    Pick a; std::vector<const void*> vt;
    explicit Alloc(int how_many = 0);   // 0: any number
    void release();
};
inline status rel(resource* r) { return resource_release(r); }
// the leak oracle: nothing the library allocated may be left
void check_no_leaks(const char* where);
bool is_oom(status s);
