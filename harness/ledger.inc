// Link-time interception of the allocator (compiled into one translation unit).
namespace vf { Ledger ledger; }
namespace vf
{
static void led_init()
{
    if (!ledger.keys) {
        ledger.keys  = static_cast<void **>(__real_calloc(Ledger::CAP, sizeof(void *)));
        ledger.sizes = static_cast<std::size_t *>(__real_calloc(Ledger::CAP, sizeof(std::size_t)));
    }
}
// Filling would hide uninitialised reads from valgrind.
static bool led_fill() { static const bool f = std::getenv("VF_NOFILL") == nullptr; return f; }
// Size of the live block that starts at p (0 when there is none).
static std::size_t led_block(const void *p);
static std::size_t led_slot(void *p) { return mix(reinterpret_cast<std::uintptr_t>(p)) & (Ledger::CAP - 1); }
static void led_add(void *p, std::size_t n)
{
    led_init();
    std::size_t i = led_slot(p);
    while (ledger.keys[i]) i = (i + 1) & (Ledger::CAP - 1);
    ledger.keys[i] = p; ledger.sizes[i] = n;
    ledger.live++; ledger.bytes += n; ledger.total++;
    if (n > ledger.biggest) ledger.biggest = n;
}
static bool led_find(void *p, std::size_t &i)
{
    if (!ledger.keys) return false;
    i = led_slot(p);
    while (ledger.keys[i]) { if (ledger.keys[i] == p) return true; i = (i + 1) & (Ledger::CAP - 1); }
    return false;
}
static std::size_t led_block(const void *p)
{
    std::size_t i;
    return led_find(const_cast<void *>(p), i) ? ledger.sizes[i] : 0;
}
static bool led_del(void *p, std::size_t *size = nullptr)
{
    std::size_t i;
    if (!led_find(p, i)) return false;
    if (size) *size = ledger.sizes[i];
    ledger.live--; ledger.bytes -= ledger.sizes[i];
    // Backward-shift deletion.
    std::size_t j = i;
    for (;;) {
        ledger.keys[i] = nullptr;
        for (;;) {
            j = (j + 1) & (Ledger::CAP - 1);
            if (!ledger.keys[j]) return true;
            std::size_t k = led_slot(ledger.keys[j]);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        ledger.keys[i] = ledger.keys[j]; ledger.sizes[i] = ledger.sizes[j];
        i = j;
    }
}
// Decides whether this request must fail.
static bool led_fail()
{
    if (!ledger.on) return false;
    ledger.requests++;
    if (ledger.fail_at && ledger.requests == ledger.fail_at) { ledger.failed++; return true; }
    return false;
}
} // namespace vf
extern "C" {
void *__wrap_malloc(std::size_t n)
{
    if (vf::led_fail()) return nullptr;
    void *p = vf::__real_malloc(n);
    if (p && vf::ledger.on) { if (vf::led_fill()) std::memset(p, 0xA5, n); vf::led_add(p, n); }
    return p;
}
void *__wrap_calloc(std::size_t a, std::size_t b)
{
    if (vf::led_fail()) return nullptr;
    void *p = vf::__real_calloc(a, b);
    if (p && vf::ledger.on) vf::led_add(p, a * b);
    return p;
}
void __wrap_free(void *p)
{
    if (p) { vf::led_del(p); }
    vf::__real_free(p);
}
void *__wrap_realloc(void *q, std::size_t n)
{
    if (vf::led_fail()) return nullptr;
    std::size_t old = 0;
    bool had = q && vf::led_del(q, &old);
    void *p = vf::__real_realloc(q, n);
    if (!p) { if (had) vf::led_add(q, old); return nullptr; }
    if (vf::ledger.on || had) {
        if (vf::ledger.on && vf::led_fill() && n > old && (had || !q)) std::memset(static_cast<char *>(p) + old, 0xA5, n - old);
        vf::led_add(p, n);
    }
    return p;
}
}
static void *vf_new(std::size_t n)
{
    if (vf::led_fail()) return nullptr;
    void *p = vf::__real_malloc(n ? n : 1);
    if (p && vf::ledger.on) { if (vf::led_fill()) std::memset(p, 0xA5, n); vf::led_add(p, n); }
    return p;
}
void *operator new(std::size_t n) { void *p = vf_new(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n) { void *p = vf_new(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return vf_new(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return vf_new(n); }
void operator delete(void *p) noexcept { if (p) vf::led_del(p); vf::__real_free(p); }
void operator delete[](void *p) noexcept { if (p) vf::led_del(p); vf::__real_free(p); }
void operator delete(void *p, std::size_t) noexcept { if (p) vf::led_del(p); vf::__real_free(p); }
void operator delete[](void *p, std::size_t) noexcept { if (p) vf::led_del(p); vf::__real_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { if (p) vf::led_del(p); vf::__real_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { if (p) vf::led_del(p); vf::__real_free(p); }
