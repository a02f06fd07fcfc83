/* freestanding stand-in used when compiling for targets without a C library here */
#undef assert
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
void __stub_assert_fail(const char *, const char *, int) __attribute__((__noreturn__));
#define assert(e) ((e) ? (void)0 : __stub_assert_fail(#e, __FILE__, __LINE__))
#endif
