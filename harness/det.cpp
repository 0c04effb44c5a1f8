// Makes histories reproducible.
// - The library seeds its hash keys from std::random_device. This definition takes precedence over
//   the one in libstdc++.
// - The library compares and hashes addresses of nodes. Blocks of the size of a node page are placed
//   at (reproducible) random addresses, so that later pages lie below and above earlier ones, and end
//   at an unmapped page. Freed blocks are unmapped; half of the new blocks are placed where one was freed.
#include <random>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
uint64_t harness_hash_seed = 1;
static uint64_t mix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 31);
}
namespace std {
    random_device::result_type random_device::_M_getval() { return static_cast<result_type>(mix(harness_hash_seed)); }
}

static const size_t page = 4096, max_blocks = 4096;
static struct { void* user; void* base; size_t bytes; } blocks[max_blocks];
static size_t nr_blocks = 0;
static struct { void* base; size_t bytes; } freed[16]; // the last places given back
static size_t nr_freed = 0;
static bool placed(size_t n) { return n >= (100u << 10) && n < (256u << 10); }
static void* place(size_t n)
{
    static uint64_t s = harness_hash_seed * 31 + 7;
    if(nr_blocks == max_blocks) return nullptr;
    const size_t bytes = (n + page - 1) / page * page;
    for(int i = 0; i < 50; ++i)
    {
        void* at = reinterpret_cast<void*>(0x200000000000ull + ((mix(s) >> 20) % (1u << 20)) * (1ull << 20));
        if(i == 0 && mix(s) % 2)
            for(size_t k = nr_freed; k > 0 && k + 16 > nr_freed; --k)
                if(freed[(k-1) % 16].base != nullptr && freed[(k-1) % 16].bytes == bytes + page) { at = freed[(k-1) % 16].base; freed[(k-1) % 16].base = nullptr; break; }
        char* b = static_cast<char*>(mmap(at, bytes + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | 0x100000 /*MAP_FIXED_NOREPLACE*/, -1, 0));
        if(b == MAP_FAILED) continue;
        if(b != at) { munmap(b, bytes + page); continue; }
        if(mprotect(b + bytes, page, PROT_NONE)) { munmap(b, bytes + page); return nullptr; }
        memset(b, 0xA5, bytes);
        char* user = b + (bytes - n) / 16 * 16;
        blocks[nr_blocks].user = user; blocks[nr_blocks].base = b; blocks[nr_blocks].bytes = bytes + page; ++nr_blocks;
        return user;
    }
    return nullptr;
}
void* operator new(size_t n)
{
    void* p = placed(n) ? place(n) : nullptr;
    if(p == nullptr) p = malloc(n ? n : 1);
    if(p == nullptr) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept
{
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if(a >= 0x200000000000ull && a < 0x300000000000ull + (1ull << 40))
        for(size_t i = 0; i < nr_blocks; ++i)
            if(blocks[i].user == p)
            {
                void* b = blocks[i].base; const size_t n = blocks[i].bytes;
                blocks[i] = blocks[--nr_blocks];
                munmap(b, n);
                freed[nr_freed % 16].base = b; freed[nr_freed++ % 16].bytes = n;
                return;
            }
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
