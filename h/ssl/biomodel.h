// A model of the BIO part of OpenSSL.
#pragma once
#include "vx.h"
#include "mg/net/SSLBioMem.h"
#include <string.h>
struct bio_method_st
{
	int (*myWrite)(BIO*, const char*, size_t, size_t*);
	int (*myRead)(BIO*, char*, size_t, size_t*);
	long (*myCtrl)(BIO*, int, long, void*);
	int (*myDestroy)(BIO*);
};
struct bio_st
{
	const BIO_METHOD* myMethod;
	void* myData;
	int myFlags;
};
static BIO_METHOD theMethod;
static unsigned theMethods, theBios;
extern "C" {
int BIO_get_new_index(void) { return 130; }
BIO_METHOD* BIO_meth_new(int idx, const char*) { vx_assert(idx == 130, "index"); ++theMethods; return &theMethod; }
int BIO_meth_set_write_ex(BIO_METHOD* m, int (*f)(BIO*, const char*, size_t, size_t*)) { m->myWrite = f; return 1; }
int BIO_meth_set_read_ex(BIO_METHOD* m, int (*f)(BIO*, char*, size_t, size_t*)) { m->myRead = f; return 1; }
int BIO_meth_set_ctrl(BIO_METHOD* m, long (*f)(BIO*, int, long, void*)) { m->myCtrl = f; return 1; }
int BIO_meth_set_destroy(BIO_METHOD* m, int (*f)(BIO*)) { m->myDestroy = f; return 1; }
BIO* BIO_new(const BIO_METHOD* m) { vx_assert(m == &theMethod, "method"); ++theBios; return new bio_st{m, nullptr, 0}; }
void BIO_set_data(BIO* b, void* p) { b->myData = p; }
void* BIO_get_data(BIO* b) { return b->myData; }
void BIO_clear_flags(BIO* b, int f) { b->myFlags &= ~f; }
void BIO_set_flags(BIO* b, int f) { b->myFlags |= f; }
int BIO_test_flags(const BIO* b, int f) { return b->myFlags & f; }
}
static void BioFree(BIO* b)
{
	vx_assert(b->myMethod->myDestroy(b) == 1, "destruction of the bio");
	--theBios;
	delete b;
}
