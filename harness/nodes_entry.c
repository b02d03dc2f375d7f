#include <stddef.h>
struct urkel_node_s;
#ifdef OP_destroy
void SYM_urkel_node_destroy(struct urkel_node_s *, int);
void real_destroy(struct urkel_node_s *n, int r) { SYM_urkel_node_destroy(n, r); }
#endif
#ifdef OP_hash
const unsigned char *SYM_urkel_node_hash(struct urkel_node_s *);
const unsigned char *real_hash(struct urkel_node_s *n) { return SYM_urkel_node_hash(n); }
#endif
