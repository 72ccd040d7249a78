/* C19: interface between the file that uses the macros and the one that does not */
#include <stddef.h>
void *plain_new(size_t n); void plain_delete(void *p); void *plain_new_nt(size_t n); void plain_delete_nt(void *p);
void *plain_newa(size_t n); void plain_deletea(void *p); void *plain_newa_nt(size_t n); void plain_deletea_nt(void *p);
int run_children(int id);
struct ObjP { int id; ObjP(); ~ObjP(); };
ObjP *plain_obj(); void plain_delobj(ObjP *p); ObjP *plain_objs(int n); void plain_delobjs(ObjP *p);
int take_id(); void constructed(int id); void destructed(int id);
