#include <config.h>
#include <string.h>
#include <stddef.h>
#include "util/list.h"
#include "list_ops.h"
#define VN S
#define VL LIST_ListS
#define VK LIST_LinkS
#define VINIT LIST_ListS_INIT
#define DBL 0
#define CNT 0
#define LAZY 0
#include "list_variant.inc"
#define VN SC
#define VL LIST_ListSC
#define VK LIST_LinkS
#define VINIT LIST_ListSC_INIT
#define DBL 0
#define CNT 1
#define LAZY 0
#include "list_variant.inc"
#define VN D
#define VL LIST_ListD
#define VK LIST_LinkD
#define VINIT LIST_ListD_INIT
#define DBL 1
#define CNT 0
#define LAZY 0
#include "list_variant.inc"
#define VN DC
#define VL LIST_ListDC
#define VK LIST_LinkD
#define VINIT LIST_ListDC_INIT
#define DBL 1
#define CNT 1
#define LAZY 1
#include "list_variant.inc"
extern const struct ListOps ops_noGeneric;
const struct ListOps * const LIST_variants[] = { &ops_S, &ops_SC, &ops_D, &ops_DC, &ops_noGeneric };
const int LIST_nVariants = 5;
