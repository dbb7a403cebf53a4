// the variant used by compilers without _Generic: one kind of list for all
#define ECLIPSE
#include <config.h>
#include <string.h>
#include <stddef.h>
#include "util/list.h"
#include "list_ops.h"
#define VN noGeneric
#define VL LIST_ListDC
#define VK LIST_LinkD
#define VINIT LIST_ListDC_INIT
#define DBL 1
#define CNT 1
#define LAZY 1
#include "list_variant.inc"
