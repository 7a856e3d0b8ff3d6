#pragma once
#include <stdlib.h>
#include <string.h>
#include "best/memory/allocator.h"
#include "vp.h"
using namespace vp;
// An allocator with an identity: every block is returned to an allocator equal to the one it
// came from, with the layout it was requested with.
struct ident {
  int id;
  struct hdr { u64 id, size, align, pad; };
  bool operator==(const ident&) const = default;
  best::ptr<void> alloc(best::layout l) {
    hdr* h = (hdr*)malloc(sizeof(hdr) + l.size());
    *h = {(u64)id, l.size(), l.align(), 0}; return (void*)(h + 1);
  }
  best::ptr<void> zalloc(best::layout l) { auto p = alloc(l); memset(p.raw(), 0, l.size()); return p; }
  void dealloc(best::ptr<void> p, best::layout l) {
    hdr* h = (hdr*)p.raw() - 1;
    vp_assert(h->id == (u64)id, "block returned to a foreign allocator");
    vp_assert(h->size == l.size() && h->align == l.align(), "block returned with another layout");
    free(h);
  }
  best::ptr<void> realloc(best::ptr<void> p, best::layout l, best::layout m) {
    auto q = alloc(m);
    memcpy(q.raw(), p.raw(), l.size() < m.size() ? l.size() : m.size());
    dealloc(p, l); return q;
  }
};
