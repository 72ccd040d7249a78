/* C19: code that includes none of DUMA's headers */
#include <new>
#include "obj.h"
void *plain_new(size_t n) { return operator new(n); }
void plain_delete(void *p) { operator delete(p); }
void *plain_new_nt(size_t n) { return operator new(n, std::nothrow); }
void plain_delete_nt(void *p) { operator delete(p, std::nothrow); }
void *plain_newa(size_t n) { return operator new[](n); }
void plain_deletea(void *p) { operator delete[](p); }
void *plain_newa_nt(size_t n) { return operator new[](n, std::nothrow); }
void plain_deletea_nt(void *p) { operator delete[](p, std::nothrow); }
ObjP::ObjP() : id(take_id()) { constructed(id); }
ObjP::~ObjP() { destructed(id); run_children(id); }
ObjP *plain_obj() { return new ObjP; }
void plain_delobj(ObjP *p) { delete p; }
ObjP *plain_objs(int n) { return new ObjP[n]; }
void plain_delobjs(ObjP *p) { delete[] p; }
