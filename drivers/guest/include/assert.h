#undef assert
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) ((e) ? (void)0 : __assert_fail(#e, __FILE__, __LINE__, __func__))
#endif
#ifndef GUEST_ASSERT_H
#define GUEST_ASSERT_H
void __assert_fail(const char *, const char *, unsigned, const char *) __attribute__((__noreturn__));
#define static_assert _Static_assert
#endif
