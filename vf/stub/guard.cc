// Replay only: the kernel's aligned scratch allocations end flush against an
// inaccessible page and start out filled with NaNs, so that an access outside
// them, or a read of what was never written, shows.
#include <cerrno>
#include <cstddef>
#include <cstring>
#include <sys/mman.h>

extern "C" {
void __real_free(void *p);
static const size_t PG = 4096;
struct Rec { char *base; size_t len; void *user; };
static Rec recs[4096];

static void *guard_alloc(size_t size)
{
    size_t body = (size + PG) / PG * PG;
    for (auto &r : recs) {
        if (r.user) continue;
        char *b = (char *) mmap(0, body + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (b == MAP_FAILED) return 0;
        memset(b, 0xff, body);
        mprotect(b + body, PG, PROT_NONE);
        r.base = b; r.len = body + PG; r.user = b + ((body - size) & ~(size_t) 3);
        return r.user;
    }
    return 0;
}

int __wrap_posix_memalign(void **out, size_t align, size_t size)
{
    void *p = guard_alloc(size);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}

void *__wrap_aligned_alloc(size_t align, size_t size) { return guard_alloc(size); }

void __wrap_free(void *p)
{
    if (!p) return;
    for (auto &r : recs)
        if (r.user == p) { r.user = 0; munmap(r.base, r.len); return; }
    __real_free(p);
}
}
