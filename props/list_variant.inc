// VN: name suffix, VL: list type, VK: link type, DBL, CNT, LAZY
#define CAT_(a, b) a ## b
#define CAT(a, b) CAT_(a, b)
#define F(n) CAT(CAT(n, _), VN)
struct F(E) { int id; char pad[12]; struct VK link; char pad2[4]; };
typedef struct F(E) F(E);
static void F(init)(void * l) { LIST_init((struct VL *)l); }
static void F(initStatic)(void * p)
{
	struct VL * l = p;
	struct VL t = VINIT((*l));
	*l = t;
}
static bool F(empty)(void * l) { return LIST_empty((struct VL *)l); }
static void F(push)(void * l, void * e) { LIST_push((struct VL *)l, LIST_link((F(E) *)e, link)); }
static void F(unshift)(void * l, void * e) { LIST_unshift((struct VL *)l, LIST_link((F(E) *)e, link)); }
static void * F(item)(struct VL * l, struct VK * k) { return LIST_itemSafe(l, k, F(E), link); }
static void * F(shift)(void * l) { struct VK * k = LIST_shift((struct VL *)l); return F(item)(l, k); }
static void F(concatPush)(void * d, void * s) { LIST_concatenatePush((struct VL *)d, (struct VL *)s); }
static void F(concatUnshift)(void * d, void * s) { LIST_concatenateUnshift((struct VL *)d, (struct VL *)s); }
static void F(fromVector)(void * l, void * v, size_t n) { LIST_fromVector((struct VL *)l, (F(E) *)v, link, n); }
static void F(fromVectorSize)(void * l, void * v, size_t n, size_t sz) { LIST_fromVectorSize((struct VL *)l, (F(E) *)v, link, n, sz); }
static void * F(at)(void * l, size_t n) { return F(item)(l, LIST_at((struct VL *)l, n)); }
static struct VK * F(lk)(struct VL * l, void * e) { return e ? LIST_link((F(E) *)e, link) : LIST_end(l); }
static void * F(forward)(void * l, void * e, size_t n) { return F(item)(l, LIST_forward(F(lk)(l, e), n)); }
#if CNT
static size_t F(length)(void * l) { return LIST_length((struct VL *)l); }
#endif
#if DBL
static void * F(pop)(void * l) { struct VK * k = LIST_pop((struct VL *)l); return F(item)(l, k); }
static void F(insertBefore)(void * l, void * at, void * e) { LIST_insert((struct VL *)l, F(lk)(l, at), LIST_link((F(E) *)e, link)); }
static void F(unlink)(void * l, void * e) { LIST_unlink((struct VL *)l, F(lk)(l, e)); }
static void F(separateFrom)(void * l, void * n, void * p, bool lazy)
{
#if LAZY
	if (lazy) { LIST_separateFromDC(l, n, F(lk)(l, p)); return; }
#endif
	LIST_separateFrom((struct VL *)l, (struct VL *)n, F(lk)(l, p));
}
static void F(separateUntil)(void * l, void * n, void * p, bool lazy)
{
#if LAZY
	if (lazy) { LIST_separateUntilDC(l, n, F(lk)(l, p)); return; }
#endif
	LIST_separateUntil((struct VL *)l, (struct VL *)n, F(lk)(l, p));
}
static void * F(rewind)(void * l, void * e, size_t n) { return F(item)(l, LIST_rewind(F(lk)(l, e), n)); }
#endif
static void F(iterate)(void * p, int kind, bool (*cb)(void *, void *), void * arg)
{
	struct VL * l = p;
	struct VK * link, * n;
	F(E) * it;
	switch (kind) {
	case 0: LIST_foreach(l, link) if (!cb(LIST_item(link, F(E), link), arg)) break; break;
	case 1: LIST_foreachItem(l, it, link) if (!cb(it, arg)) break; break;
	case 4: LIST_foreachSafe(l, link, n) if (!cb(LIST_item(link, F(E), link), arg)) break; break;
	case 6: {
		bool fin = true;
		LIST_foreachItem(l, it, link) if (!cb(it, arg)) { fin = false; break; }
		if (!fin) LIST_foreachItem_continue(l, it, link) cb(it, arg);
		break; }
#if DBL
	case 2: LIST_foreachRev(l, link) if (!cb(LIST_item(link, F(E), link), arg)) break; break;
	case 3: LIST_foreachItemRev(l, it, link) if (!cb(it, arg)) break; break;
	case 5: LIST_foreachRevSafe(l, link, n) if (!cb(LIST_item(link, F(E), link), arg)) break; break;
	case 7: {
		bool fin = true;
		LIST_foreachItemRev(l, it, link) if (!cb(it, arg)) { fin = false; break; }
		if (!fin) LIST_foreachItemRev_continue(l, it, link) cb(it, arg);
		break; }
#endif
	}
}
#define STR_(x) #x
#define STR(x) STR_(x)
const struct ListOps F(ops) = {
	.name = STR(VN), .dbl = DBL, .counted = CNT, .lazy = LAZY, .listSize = sizeof(struct VL), .elemSize = sizeof(F(E)),
	.init = F(init), .initStatic = F(initStatic), .empty = F(empty), .push = F(push), .unshift = F(unshift), .shift = F(shift),
	.concatPush = F(concatPush), .concatUnshift = F(concatUnshift), .fromVector = F(fromVector), .fromVectorSize = F(fromVectorSize),
	.at = F(at), .forward = F(forward), .iterate = F(iterate),
#if CNT
	.length = F(length),
#endif
#if DBL
	.pop = F(pop), .insertBefore = F(insertBefore), .unlink = F(unlink), .separateFrom = F(separateFrom), .separateUntil = F(separateUntil), .rewind = F(rewind),
#endif
};
#undef VN
#undef VL
#undef VK
#undef VINIT
#undef DBL
#undef CNT
#undef LAZY
