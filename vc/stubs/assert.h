#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
void vphb_assert_fail(void);
#define assert(x) ((x) ? (void)0 : vphb_assert_fail())
#endif
