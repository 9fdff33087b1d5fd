// Client functions through which the check analyses the life of C++ objects:
// they are compiled to bitcode and analysed, never run.
#include <roaring.hh>
#include <roaring64map.hh>
#include <utility>
using roaring::Roaring;
namespace client {
void make() { Roaring a; }
void fromArray(size_t n, const uint32_t *d) { Roaring a(n, d); }
void copy(const Roaring &r) { Roaring a(r); }
void copyAssign(const Roaring &r, const Roaring &q) { Roaring a(r); a = q; }
void copyAssignToNew(const Roaring &q) { Roaring a; a = q; }
void copyAssignSelf(const Roaring &r) { Roaring a(r); const Roaring &b = a; a = b; }
void moveNew(const Roaring &r) { Roaring a(r); Roaring b(std::move(a)); }
void moveNewThenUse(const Roaring &r, uint32_t x) { Roaring a(r); Roaring b(std::move(a)); a.add(x); }
void moveAssign(const Roaring &r, const Roaring &q) { Roaring a(r); Roaring b(q); b = std::move(a); }
void moveAssignThenUse(const Roaring &r, uint32_t x) { Roaring a(r); Roaring b; b = std::move(a); a.add(x); }
void moveAssignSelf(const Roaring &r) { Roaring a(r); Roaring &b = a; a = std::move(b); }
void swapped(const Roaring &r, const Roaring &q) { Roaring a(r); Roaring b(q); a.swap(b); }
void taken(const Roaring &r) { Roaring a(roaring::api::roaring_bitmap_copy(&r.roaring)); }
void opAnd(const Roaring &r, const Roaring &q) { Roaring a(r & q); }
void opAndAssign(const Roaring &r, const Roaring &q) { Roaring a; a = r & q; }
void readSafe(const char *b, size_t n) { Roaring a(Roaring::readSafe(b, n)); }
void read(const char *b) { Roaring a(Roaring::read(b)); }
void frozenView(const char *b, size_t n) { const Roaring a(Roaring::frozenView(b, n)); }
void portableFrozen(const char *b) { const Roaring a(Roaring::portableDeserializeFrozen(b)); }
void cowCopies(const Roaring &r) { Roaring a(r); a.setCopyOnWrite(true); Roaring b(a); Roaring c(b); }
void iterate(const Roaring &r) { uint32_t s = 0; for (uint32_t v : r) s += v; (void)s; }
void iterateBack(const Roaring &r) { auto i = r.end(); --i; }
}
