#pragma once
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
struct ListOps {
	const char * name;
	bool dbl, counted, lazy;
	size_t listSize, elemSize;
	void (*init)(void * l);
	void (*initStatic)(void * l);
	bool (*empty)(void * l);
	size_t (*length)(void * l);
	void (*push)(void * l, void * e);
	void (*unshift)(void * l, void * e);
	void * (*shift)(void * l);          // NULL: anchor
	void * (*pop)(void * l);
	void (*insertBefore)(void * l, void * at, void * e); // at NULL: anchor
	void (*unlink)(void * l, void * e); // NULL: anchor
	void (*concatPush)(void * d, void * s);
	void (*concatUnshift)(void * d, void * s);
	void (*separateFrom)(void * l, void * n, void * pivot, bool lazy);
	void (*separateUntil)(void * l, void * n, void * pivot, bool lazy);
	void (*fromVector)(void * l, void * v, size_t n);
	void (*fromVectorSize)(void * l, void * v, size_t n, size_t size);
	void * (*at)(void * l, size_t n);
	void * (*forward)(void * l, void * e, size_t n);
	void * (*rewind)(void * l, void * e, size_t n);
	// iterate: cb returns false to break; kind: 0 links 1 items 2 links reverse 3 items reverse 4 safe 5 safe reverse
	// 6 items, continued after a break 7 items reverse, continued after a break
	void (*iterate)(void * l, int kind, bool (*cb)(void * e, void * arg), void * arg);
};
struct Elem { int id; }; // every variant's element begins with it
extern const struct ListOps * const LIST_variants[];
extern const int LIST_nVariants;
#ifdef __cplusplus
}
#endif
