/* The entry unit: calls the real functions whose recursive calls have been
 * replaced by their contracts in the unit holding them. */
#include <stddef.h>
struct urkel_s; struct urkel_node_s;
#ifdef OP_get
int SYM_urkel_tree_get(struct urkel_s *, unsigned char *, size_t *, struct urkel_node_s *, const unsigned char *, unsigned int);
int real_get(struct urkel_s *t, unsigned char *v, size_t *s, struct urkel_node_s *n, const unsigned char *k, unsigned int d) { return SYM_urkel_tree_get(t, v, s, n, k, d); }
#endif
#ifdef OP_insert
struct urkel_node_s *SYM_urkel_tree_insert(struct urkel_s *, struct urkel_node_s *, const unsigned char *, const unsigned char *, size_t, unsigned int);
struct urkel_node_s *real_insert(struct urkel_s *t, struct urkel_node_s *n, const unsigned char *k, const unsigned char *v, size_t s, unsigned int d) { return SYM_urkel_tree_insert(t, n, k, v, s, d); }
#endif
#ifdef OP_remove
struct urkel_node_s *SYM_urkel_tree_remove(struct urkel_s *, struct urkel_node_s *, const unsigned char *, unsigned int);
struct urkel_node_s *real_remove(struct urkel_s *t, struct urkel_node_s *n, const unsigned char *k, unsigned int d) { return SYM_urkel_tree_remove(t, n, k, d); }
#endif
#ifdef OP_prove
struct urkel_proof_s;
int SYM_urkel_tree_prove(struct urkel_s *, struct urkel_proof_s *, struct urkel_node_s *, const unsigned char *, unsigned int);
int real_prove(struct urkel_s *t, struct urkel_proof_s *p, struct urkel_node_s *n, const unsigned char *k, unsigned int d) { return SYM_urkel_tree_prove(t, p, n, k, d); }
#endif
#ifdef OP_write
struct urkel_node_s *SYM_urkel_tree_write(struct urkel_s *, struct urkel_node_s *);
struct urkel_node_s *real_write(struct urkel_s *t, struct urkel_node_s *n) { return SYM_urkel_tree_write(t, n); }
#endif
