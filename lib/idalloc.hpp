#pragma once
#include "arena.hpp"
using namespace vf;
// allocator with identity; POC bits: 1 copy assignment, 2 move assignment, 4 swap, 8 always equal, 16 select gives a fresh identity
static const char* alloc_error;
template <class T, int F> struct IdAlloc {
    typedef T value_type; std::uint64_t id;
    typedef std::integral_constant<bool, (F & 1) != 0> propagate_on_container_copy_assignment;
    typedef std::integral_constant<bool, (F & 2) != 0> propagate_on_container_move_assignment;
    typedef std::integral_constant<bool, (F & 4) != 0> propagate_on_container_swap;
    typedef std::integral_constant<bool, (F & 8) != 0> is_always_equal;
    IdAlloc() noexcept : id(100) {} explicit IdAlloc(std::uint64_t i) noexcept : id(i) {}
    template <class U> IdAlloc(const IdAlloc<U, F>& o) noexcept : id(o.id) {}
    template <class U> struct rebind { typedef IdAlloc<U, F> other; };
    T* allocate(std::size_t n) { if (n > 1000) throw std::bad_alloc(); return static_cast<T*>(arena::take(n * sizeof(T), (int)(F & 8 ? 1 : id))); }
    void deallocate(T* p, std::size_t n) noexcept { const int s = arena::slot_of(p); if (s >= 0 && arena::meta.size[s] && !(F & 8) && arena::meta.tag[s] != id) alloc_error = "a block was returned to another allocator than it came from"; if (s < 0) alloc_error = "memory that no allocator gave was returned"; else arena::give(p, (ll)(n * sizeof(T))); }
    IdAlloc select_on_container_copy_construction() const { return F & 16 ? IdAlloc(id % 100 + 50) : *this; }
    template <class U> friend bool operator==(const IdAlloc& a, const IdAlloc<U, F>& b) { return (F & 8) || a.id == b.id; }
    template <class U> friend bool operator!=(const IdAlloc& a, const IdAlloc<U, F>& b) { return !(a == b); }
};
