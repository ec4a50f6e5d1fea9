/* Stand-in for CUnit used when the repository's own tests are run inside the engine (self-test). */
#ifndef VP_CUNIT
#define VP_CUNIT
#include <string.h>
#include "vp.h"
typedef int CU_ErrorCode; typedef struct CU_Suite *CU_pSuite; typedef struct CU_Test *CU_pTest; typedef int CU_BasicRunMode;
#define CUE_SUCCESS 0
typedef struct { const char *n; void (*f)(void); } CU_TestInfo; typedef struct { const char *n; int (*i)(void); int (*c)(void); void (*s)(void); void (*t)(void); CU_TestInfo *ti; } CU_SuiteInfo;
#define CU_TEST_INFO_NULL {0, 0}
#define CU_SUITE_INFO_NULL {0, 0, 0, 0, 0, 0}
#define CU_add_suite(a, b, c) ((CU_pSuite)1)
#define CU_add_test(s, n, f) ((CU_pTest)1)
#define CU_register_suites(x) 0
#define CU_cleanup_registry() ((void)0)
#define CU_get_error() 0
#define VPS2(x) #x
#define VPS(x) VPS2(x)
#define CU_ASSERT(x) { vp_assert(!!(x), __FILE__ ":" VPS(__LINE__)); }
#define CU_ASSERT_FATAL CU_ASSERT
#define CU_ASSERT_TRUE CU_ASSERT
#define CU_ASSERT_FALSE(x) CU_ASSERT(!(x))
#define CU_ASSERT_EQUAL(a, b) CU_ASSERT((a) == (b))
#define CU_ASSERT_EQUAL_FATAL CU_ASSERT_EQUAL
#define CU_ASSERT_NOT_EQUAL(a, b) CU_ASSERT((a) != (b))
#define CU_ASSERT_PTR_EQUAL(a, b) CU_ASSERT((const void *)(a) == (const void *)(b))
#define CU_ASSERT_PTR_NOT_EQUAL(a, b) CU_ASSERT((const void *)(a) != (const void *)(b))
#define CU_ASSERT_PTR_NULL(a) CU_ASSERT((const void *)(a) == 0)
#define CU_ASSERT_PTR_NOT_NULL(a) CU_ASSERT((const void *)(a) != 0)
#define CU_ASSERT_PTR_NOT_NULL_FATAL CU_ASSERT_PTR_NOT_NULL
#define CU_ASSERT_STRING_EQUAL(a, b) CU_ASSERT(!strcmp((const char *)(a), (const char *)(b)))
#endif
