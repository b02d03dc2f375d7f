"""refactor.py [A|B|...]: applies a batch of edits which keep the behaviour to a scratch copy of /repo,
builds, runs its tests and runs the checks there (VF_REPO): none of them may raise an alarm.
refactor.py A C01,C02 limits the checks."""
import json, os, shutil, subprocess, sys
VD = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}

def E(b, f, old, new):
    B.setdefault(b, []).append((f, old, new))

T, N, S, P = 'src/tree.c', 'src/nodes.c', 'src/store.c', 'src/proof.c'
G, U, H, I, X = 'src/bits.c', 'src/util.c', 'src/blake2b.c', 'src/io_posix.c', 'src/urkel.c'

# --- A: helpers extracted ---
E('A', T, '''static int
urkel_tree_get(tree_db_t *tree,''', '''static int
urkel_tree_missing(void) {
  urkel_errno = URKEL_ENOTFOUND;
  return 0;
}

static void
urkel_tx_rdlock(tree_tx_t *tx) {
  urkel_rwlock_rdlock(tx->lock);
  urkel_rwlock_rdlock(tx->tree->lock);
}

static void
urkel_tx_rdunlock(tree_tx_t *tx) {
  urkel_rwlock_rdunlock(tx->tree->lock);
  urkel_rwlock_rdunlock(tx->lock);
}

static urkel_node_t *
urkel_tree_split(urkel_node_t *node, const unsigned char *key,
                 const unsigned char *value, size_t size,
                 size_t bits, unsigned int bit) {
  urkel_internal_t *internal = &node->u.internal;
  urkel_bits_t front, back;
  urkel_node_t *leaf, *child, *out;

  urkel_bits_split(&front, &back, &internal->prefix, bits);

  child = urkel_node_create_internal(&back, internal->left, internal->right, 0);
  leaf = urkel_node_create_leaf(key, value, size);
  out = urkel_node_create_internal(&front, leaf, child, bit);

  urkel_node_destroy(node, 0);

  return out;
}

static void
urkel_tree_short(urkel_proof_t *proof, urkel_internal_t *internal, unsigned int depth) {
  proof->depth = depth;
  proof->type = URKEL_TYPE_SHORT;

  memcpy(proof->left, urkel_node_hash(internal->left), URKEL_HASH_SIZE);
  memcpy(proof->right, urkel_node_hash(internal->right), URKEL_HASH_SIZE);

  proof->prefix = internal->prefix;
}

static urkel_node_t *
urkel_tree_seal(urkel_node_t *node) {
  urkel_node_t *out = checked_malloc(sizeof(urkel_node_t));

  urkel_node_hash(node);
  urkel_node_to_hash(node, out);
  urkel_node_destroy(node, 1);

  return out;
}

static int
urkel_tree_drain(tree_db_t *tree) {
  if (!urkel_store_needs_flush(tree->store))
    return 1;

  return urkel_store_flush(tree->store);
}

static int
urkel_tree_get(tree_db_t *tree,''')
E('A', T, '''    case URKEL_NODE_NULL: {
      /* Empty tree. */
      urkel_errno = URKEL_ENOTFOUND;
      return 0;
    }''', '''    case URKEL_NODE_NULL: {
      /* Empty tree. */
      return urkel_tree_missing();
    }''')
E('A', T, '''      /* Prefix collision. */
      if (!urkel_node_key_equals(node, key)) {
        urkel_errno = URKEL_ENOTFOUND;
        return 0;
      }''', '''      /* Prefix collision. */
      if (!urkel_node_key_equals(node, key))
        return urkel_tree_missing();''')
E('A', T, '''        urkel_node_t *leaf = urkel_node_create_leaf(key, value, size);
        urkel_bits_t front, back;
        urkel_node_t *child;

        urkel_bits_split(&front, &back, prefix, bits);

        child = urkel_node_create_internal(&back,
                                           internal->left,
                                           internal->right,
                                           0);

        out = urkel_node_create_internal(&front, leaf, child, bit);

        urkel_node_destroy(node, 0);

        return out;
''', '''        return urkel_tree_split(node, key, value, size, bits, bit);
''')
E('A', T, '''        const unsigned char *left = urkel_node_hash(internal->left);
        const unsigned char *right = urkel_node_hash(internal->right);

        proof->type = URKEL_TYPE_SHORT;
        proof->depth = depth;
        proof->prefix = *prefix;

        memcpy(proof->left, left, URKEL_HASH_SIZE);
        memcpy(proof->right, right, URKEL_HASH_SIZE);

        return 1;''', '''        urkel_tree_short(proof, internal, depth);
        return 1;''')
E('A', T, '''        urkel_store_write_node(tree->store, node);

        if (urkel_store_needs_flush(tree->store)) {
          if (!urkel_store_flush(tree->store))
            return NULL;
        }
      }

      out = checked_malloc(sizeof(urkel_node_t));

      urkel_node_hash(node);
      urkel_node_to_hash(node, out);
      urkel_node_destroy(node, 1);

      return out;
    }

    case URKEL_NODE_LEAF: {
      urkel_node_t *out;

      if (!(node->flags & URKEL_FLAG_WRITTEN)) {
        urkel_store_write_value(tree->store, node);
        urkel_store_write_node(tree->store, node);

        if (urkel_store_needs_flush(tree->store)) {
          if (!urkel_store_flush(tree->store))
            return NULL;
        }
      }

      out = checked_malloc(sizeof(urkel_node_t));

      urkel_node_hash(node);
      urkel_node_to_hash(node, out);
      urkel_node_destroy(node, 1);

      return out;
    }''', '''        urkel_store_write_node(tree->store, node);

        if (!urkel_tree_drain(tree))
          return NULL;
      }

      return urkel_tree_seal(node);
    }

    case URKEL_NODE_LEAF: {
      if (!(node->flags & URKEL_FLAG_WRITTEN)) {
        urkel_store_write_value(tree->store, node);
        urkel_store_write_node(tree->store, node);

        if (!urkel_tree_drain(tree))
          return NULL;
      }

      return urkel_tree_seal(node);
    }''')
E('A', T, 'urkel_node_t *left, *right, *out;\n\n      left = urkel_tree_write', 'urkel_node_t *left, *right;\n\n      left = urkel_tree_write')
E('A', T, '''  int ret;

  urkel_rwlock_rdlock(tx->lock);
  urkel_rwlock_rdlock(tx->tree->lock);

  ret = urkel_tree_get(tx->tree, value, size, tx->root, key, 0);

  if (!ret)
    *size = 0;

  urkel_rwlock_rdunlock(tx->tree->lock);
  urkel_rwlock_rdunlock(tx->lock);

  return ret;''', '''  int ret;

  urkel_tx_rdlock(tx);

  ret = urkel_tree_get(tx->tree, value, size, tx->root, key, 0);

  urkel_tx_rdunlock(tx);

  if (!ret)
    *size = 0;

  return ret;''')
E('A', T, '''  tx->tree = tree;

  if (hash != NULL)
    tx->root = urkel_store_get_history(tree->store, hash);
  else if (tree->revert)
    tx->root = urkel_store_get_history(tree->store, tree->hash);
  else
    tx->root = urkel_store_get_root(tree->store);

  tx->lock = urkel_rwlock_create();
''', '''  tx->lock = urkel_rwlock_create();
  tx->tree = tree;
  tx->root = urkel_tree_root_at(tree, hash);
''')
E('A', T, '''tree_tx_t *
urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {''', '''static urkel_node_t *
urkel_tree_root_at(tree_db_t *tree, const unsigned char *hash) {
  if (hash == NULL && tree->revert)
    hash = tree->hash;

  if (hash == NULL)
    return urkel_store_get_root(tree->store);

  return urkel_store_get_history(tree->store, hash);
}

tree_tx_t *
urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {''')
E('A', T, '''        if (parent->child)
          urkel_iter_push(iter, ni->right, depth + ni->prefix.size + 1, 0);
        else
          urkel_iter_push(iter, ni->left, depth + ni->prefix.size + 1, 0);
''', '''        node = parent->child ? ni->right : ni->left;
        depth += ni->prefix.size + 1;

        urkel_iter_push(iter, node, depth, 0);
''')
E('A', N, '''int
urkel_node_read(urkel_node_t *node, const unsigned char *data, size_t len) {''', '''static urkel_node_t *
urkel_node_read_child(const unsigned char *data) {
  urkel_node_t *child = urkel_node_create(URKEL_NODE_HASH);

  urkel_pointer_read(&child->ptr, data);
  urkel_read(child->hash, data + URKEL_PTR_SIZE, URKEL_HASH_SIZE);

  child->flags |= URKEL_FLAG_WRITTEN;

  return child;
}

int
urkel_node_read(urkel_node_t *node, const unsigned char *data, size_t len) {''')
E('A', N, '''      left = urkel_node_create(URKEL_NODE_HASH);
      right = urkel_node_create(URKEL_NODE_HASH);

      urkel_pointer_read(&left->ptr, data);
      data += URKEL_PTR_SIZE;

      urkel_read(left->hash, data, URKEL_HASH_SIZE);
      data += URKEL_HASH_SIZE;

      urkel_pointer_read(&right->ptr, data);
      data += URKEL_PTR_SIZE;

      urkel_read(right->hash, data, URKEL_HASH_SIZE);
      data += URKEL_HASH_SIZE;

      left->flags |= URKEL_FLAG_WRITTEN;
      right->flags |= URKEL_FLAG_WRITTEN;

      internal->left = left;
      internal->right = right;
''', '''      left = urkel_node_read_child(data);
      data += URKEL_PTR_SIZE + URKEL_HASH_SIZE;
      right = urkel_node_read_child(data);

      internal->left = left;
      internal->right = right;
''')
E('A', N, '''      size += 1;

      if (prefix->size > 255) {
        size += 2;
        size += bytes;
      } else if (prefix->size > 0) {
        size += 1;
        size += bytes;
      }

      size += URKEL_PTR_SIZE;
      size += URKEL_HASH_SIZE;

      size += URKEL_PTR_SIZE;
      size += URKEL_HASH_SIZE;
''', '''      size = 1 + bytes + 2 * (URKEL_PTR_SIZE + URKEL_HASH_SIZE);

      if (prefix->size > 0)
        size += prefix->size > 255 ? 2 : 1;
''')
E('A', N, '''      if (leaf->value != NULL)
        free(leaf->value);

      free(node);
''', '''      free(leaf->value);
      free(node);
''')
E('A', S, '''static void
urkel_slab_write(urkel_slab_t *slab, const unsigned char *data, size_t len) {''', '''static void
urkel_slab_next(urkel_slab_t *slab) {
  if (slab->steps == slab->offsets_len) {
    size_t new_size = (slab->offsets_len + 2) * sizeof(size_t);

    slab->offsets = checked_realloc(slab->offsets, new_size);
    slab->offsets_len += 1;
  }

  slab->offsets[slab->steps++] = slab->data_off;

  slab->file_index += 1;
  slab->file_pos = 0;
  slab->data_off = 0;
}

static void
urkel_slab_write(urkel_slab_t *slab, const unsigned char *data, size_t len) {''')
E('A', S, '''  if (slab->file_pos + len > MAX_FILE_SIZE) {
    if (slab->steps == slab->offsets_len) {
      size_t new_size = (slab->offsets_len + 2) * sizeof(size_t);

      slab->offsets = checked_realloc(slab->offsets, new_size);
      slab->offsets_len += 1;
    }

    slab->offsets[slab->steps++] = slab->data_off;

    slab->data_off = 0;
    slab->file_pos = 0;
    slab->file_index += 1;
  }
''', '''  if (slab->file_pos + len > MAX_FILE_SIZE)
    urkel_slab_next(slab);
''')
E('A', S, '''  store->state = state;

  if (state.root_node.type != URKEL_NODE_NULL)
    urkel_cache_insert(&store->cache, &state.root_node);

  urkel_store_evict(store);

  return 1;''', '''  urkel_store_evict(store);

  store->state = state;

  if (store->state.root_node.type != URKEL_NODE_NULL)
    urkel_cache_insert(&store->cache, &store->state.root_node);

  return 1;''')
E('A', S, '''  if (!urkel_store_read_node(store, out, &node->ptr)) {
    free(out);
    return NULL;
  }

  urkel_node_hashed(out, node->hash);

  return out;''', '''  if (urkel_store_read_node(store, out, &node->ptr)) {
    urkel_node_hashed(out, node->hash);
    return out;
  }

  free(out);

  return NULL;''')
E('A', S, '''static int
urkel_store_read_node(data_store_t *store,''', '''static int
urkel_ptr_is_sane(const urkel_pointer_t *ptr) {
  return ptr->size != 0 && ptr->size <= URKEL_NODE_SIZE;
}

static int
urkel_store_read_node(data_store_t *store,''')
E('A', S, '''  if (ptr->size == 0 || ptr->size > URKEL_NODE_SIZE)
    return 0;
''', '''  if (!urkel_ptr_is_sane(ptr))
    return 0;
''')
E('A', P, '''int
urkel_proof_verify(const urkel_proof_t *proof,''', '''static void
urkel_proof_fold(unsigned char *next, const urkel_proof_node_t *node, int bit) {
  if (bit)
    urkel_hash_internal(next, &node->prefix, node->hash, next);
  else
    urkel_hash_internal(next, &node->prefix, next, node->hash);
}

int
urkel_proof_verify(const urkel_proof_t *proof,''')
E('A', P, '''    if (urkel_get_bit(key, depth))
      urkel_hash_internal(next, &node->prefix, node->hash, next);
    else
      urkel_hash_internal(next, &node->prefix, next, node->hash);

    depth -= node->prefix.size;
''', '''    urkel_proof_fold(next, node, urkel_get_bit(key, depth));

    depth -= node->prefix.size;
''')
E('A', P, '''static int
urkel_proof_is_sane(const urkel_proof_t *proof) {''', '''static int
urkel_proof_is_bare(const urkel_proof_t *proof) {
  return proof->prefix.size == 0 && proof->size == 0;
}

static int
urkel_proof_is_sane(const urkel_proof_t *proof) {''')
E('A', P, '''    case URKEL_TYPE_DEADEND: {
      if (proof->prefix.size > 0)
        return 0;

      if (proof->size > 0)
        return 0;

      break;
    }

    case URKEL_TYPE_SHORT: {
      if (proof->prefix.size == 0)''', '''    case URKEL_TYPE_DEADEND: {
      return urkel_proof_is_bare(proof);
    }

    case URKEL_TYPE_SHORT: {
      if (proof->prefix.size == 0)''')
E('A', G, '''size_t
urkel_bits_size(const urkel_bits_t *bits) {
  size_t size = 0;

  CHECK(bits->size <= URKEL_KEY_BITS);

  if (bits->size >= 0x80)
    size += 1;

  size += 1;
  size += (bits->size + 7) / 8;

  return size;
}
''', '''static size_t
urkel_bits_bytes(const urkel_bits_t *bits) {
  return (bits->size + 7) / 8;
}

size_t
urkel_bits_size(const urkel_bits_t *bits) {
  CHECK(bits->size <= URKEL_KEY_BITS);

  return (bits->size >= 0x80 ? 2 : 1) + urkel_bits_bytes(bits);
}
''')
E('A', G, '''  size_t bytes = (bits->size + 7) / 8;

  CHECK(bits->size <= URKEL_KEY_BITS);
''', '''  size_t bytes = urkel_bits_bytes(bits);

  CHECK(bits->size <= URKEL_KEY_BITS);
''')
E('A', U, '''int
urkel_parse_u32(uint32_t *out, const char *str) {''', '''static int
urkel_is_digit(int ch) {
  return ch >= '0' && ch <= '9';
}

int
urkel_parse_u32(uint32_t *out, const char *str) {''')
E('A', U, '''    if (ch == '\\0')
      return 0;

    if (ch < '0' || ch > '9')
      return 0;
''', '''    if (!urkel_is_digit(ch))
      return 0;
''')
E('A', U, '''  unsigned char vhash[URKEL_HASH_SIZE];
  urkel_blake2b_t ctx;

  urkel_blake2b_init(&ctx, URKEL_HASH_SIZE, NULL, 0);
  urkel_blake2b_update(&ctx, value, size);
  urkel_blake2b_final(&ctx, vhash);
''', '''  unsigned char vhash[URKEL_HASH_SIZE];

  urkel_hash_raw(vhash, value, size);
''')
E('A', H, '''void
urkel_blake2b_update(urkel_blake2b_t *ctx, const void *data, size_t len) {''', '''static void
urkel_blake2b_block(urkel_blake2b_t *ctx, const unsigned char *chunk) {
  urkel_blake2b_increment(ctx, 128);
  urkel_blake2b_compress(ctx, chunk, 0);
}

void
urkel_blake2b_update(urkel_blake2b_t *ctx, const void *data, size_t len) {''')
E('A', H, '''        urkel_blake2b_increment(ctx, 128);
        urkel_blake2b_compress(ctx, in, 0);
        in += 128;''', '''        urkel_blake2b_block(ctx, in);
        in += 128;''')
E('A', I, '''int
urkel_fs_pread(int fd, void *dst, size_t len, int64_t pos) {
  unsigned char *buf = dst;
  ssize_t nread;

  while (len > 0) {
    do {
      nread = pread(fd, buf, len, pos);
    } while (nread < 0 && (errno == EINTR || errno == EAGAIN));
''', '''static int
urkel_fs__retry(void) {
  return errno == EINTR || errno == EAGAIN;
}

int
urkel_fs_pread(int fd, void *dst, size_t len, int64_t pos) {
  unsigned char *buf = dst;
  ssize_t nread;

  while (len > 0) {
    do {
      nread = pread(fd, buf, len, pos);
    } while (nread < 0 && urkel_fs__retry());
''')
E('A', X, '''static int
urkel_main(const urkel_options_t *opt) {''', '''static int
urkel_error(const char *msg) {
  fprintf(stderr, "%s\\n", msg);
  return 0;
}

static int
urkel_main(const urkel_options_t *opt) {''')
E('A', X, '''        fprintf(stderr, "Value not found.\\n");''', '''        urkel_error("Value not found.");''')

# --- B: loops rewritten, statements reordered, conditions turned ---
E('B', T, '''      depth += prefix->size;

      bit = urkel_get_bit(key, depth);
      node = urkel_node_get(node, bit);

      return urkel_tree_get(tree, value, size, node, key, depth + 1);''', '''      bit = urkel_get_bit(key, depth + prefix->size);

      return urkel_tree_get(tree, value, size,
                            bit ? internal->right : internal->left,
                            key, depth + prefix->size + 1);''')
E('B', T, '''      if (z->type == URKEL_NODE_NULL) {
        if (side->type == URKEL_NODE_INTERNAL) {''', '''      if (z->type != URKEL_NODE_NULL) {
        if (side != y)
          urkel_node_destroy(side, 1);

        out = urkel_node_create_internal(prefix, z, y, bit);

        urkel_node_destroy(node, 0);

        return out;
      } else {
        if (side->type == URKEL_NODE_INTERNAL) {''')
E('B', T, '''        urkel_node_destroy(z, 0);

        return out;
      }

      if (side != y)
        urkel_node_destroy(side, 1);

      out = urkel_node_create_internal(prefix, z, y, bit);

      urkel_node_destroy(node, 0);

      return out;
    }''', '''        urkel_node_destroy(z, 0);

        return out;
      }
    }''')
E('B', T, '''      urkel_bits_collide(&prefix, &bits, key, depth);

      depth += prefix.size;

      leaf = urkel_node_create_leaf(key, value, size);
      bit = urkel_get_bit(key, depth);
''', '''      leaf = urkel_node_create_leaf(key, value, size);
      urkel_bits_collide(&prefix, &bits, key, depth);
      bit = urkel_get_bit(key, depth + prefix.size);
''')
E('B', T, '''  for (i = 0; i < iter->stack_len; i++) {
    urkel_state_t *state = &iter->stack[i];

    if (state->resolved)
      urkel_node_destroy(state->node, 1);
  }
''', '''  i = iter->stack_len;

  while (i-- > 0) {
    if (iter->stack[i].resolved)
      urkel_node_destroy(iter->stack[i].node, 1);
  }
''')
E('B', T, '''  while (urkel_iter_seek(iter)) {
    if (iter->node == NULL || iter->node->type != URKEL_NODE_LEAF)
      continue;
''', '''  for (;;) {
    if (!urkel_iter_seek(iter))
      break;

    if (iter->node == NULL)
      continue;

    if (iter->node->type != URKEL_NODE_LEAF)
      continue;
''')
E('B', T, '''  if (!urkel_tx_insert(tx, key, value, size))
    goto fail;

  if (!urkel_tx_commit(tx))
    goto fail;

  ret = 1;
fail:
  urkel_tx_destroy(tx);
  return ret;''', '''  if (urkel_tx_insert(tx, key, value, size))
    ret = urkel_tx_commit(tx);

  urkel_tx_destroy(tx);

  return ret;''')
E('B', T, '''  urkel_node_destroy(tx->root, 1);

  tx->root = root;

  urkel_rwlock_wrunlock(tree->lock);
  urkel_rwlock_wrunlock(tx->lock);
}''', '''  urkel_rwlock_wrunlock(tree->lock);

  urkel_node_destroy(tx->root, 1);

  tx->root = root;

  urkel_rwlock_wrunlock(tx->lock);
}''')
E('B', N, '''  if (!(node->flags & URKEL_FLAG_VALUE))
    return 0;

  if (leaf->size != size)
    return 0;

  if (leaf->size == 0)
    return 1;

  return memcmp(leaf->value, value, size) == 0;''', '''  if (leaf->size != size || !(node->flags & URKEL_FLAG_VALUE))
    return 0;

  if (size > 0 && memcmp(leaf->value, value, size) != 0)
    return 0;

  return 1;''')
E('B', N, '''  if (bit) {
    internal->left = y;
    internal->right = x;
  } else {
    internal->left = x;
    internal->right = y;
  }
''', '''  internal->left = bit ? y : x;
  internal->right = bit ? x : y;
''')
E('B', N, '''      if (recurse) {
        urkel_node_destroy(internal->left, 1);
        urkel_node_destroy(internal->right, 1);
      }
''', '''      if (recurse) {
        urkel_node_destroy(internal->right, 1);
        urkel_node_destroy(internal->left, 1);
      }
''')
E('B', S, '''  for (; i < slab->start; i++)
    data += slab->offsets[i];

  for (; i < slab->steps; i++) {
    size_t len = slab->offsets[i];

    if (!urkel_store_write(store, data, len)) {
      slab->steps -= 1;
      slab->start = i;
      return 0;
    }

    data += len;
  }
''', '''  while (i < slab->steps) {
    size_t len = slab->offsets[i];

    if (i >= slab->start && !urkel_store_write(store, data, len)) {
      slab->start = i;
      slab->steps -= 1;
      return 0;
    }

    data += len;
    i += 1;
  }
''')
E('B', S, '''  while (slab->file_pos % META_SIZE) {
    size_t size = META_SIZE - (slab->file_pos % META_SIZE);

    urkel_slab_write(slab, padding, size);
  }
''', '''  for (;;) {
    size_t rem = slab->file_pos % META_SIZE;

    if (rem == 0)
      break;

    urkel_slab_write(slab, padding, META_SIZE - rem);
  }
''')
E('B', S, '''  for (;;) {
    meta_ptr = &store->last_meta.meta_ptr;

    if (meta_ptr->index == 0)
      return 0;
''', '''  while (store->last_meta.meta_ptr.index != 0) {
    meta_ptr = &store->last_meta.meta_ptr;
''')
E('B', S, '''    if (memcmp(node.hash, root_hash, URKEL_HASH_SIZE) == 0) {
      *root = node;
      break;
    }
  }

  return 1;
}''', '''    if (memcmp(node.hash, root_hash, URKEL_HASH_SIZE) == 0) {
      *root = node;
      return 1;
    }
  }

  return 0;
}''')
E('B', S, '''    for (i = 1; i < store->files.len; i++) {
      if (store->files.items[i] == NULL)
        continue;

      if (i == store->index)
        continue;

      if (tries == 0) {
        urkel_store_close_file(store, i);
        break;
      }

      tries -= 1;
    }''', '''    for (i = 1; i < store->files.len; i++) {
      if (store->files.items[i] != NULL && i != store->index) {
        if (tries-- == 0) {
          urkel_store_close_file(store, i);
          break;
        }
      }
    }''')
E('B', S, '''  if (index >= fm->len)
    goto fail;

  file = fm->items[index];

fail:
  urkel_rwlock_rdunlock(fm->lock);
  return file;''', '''  if (index < fm->len)
    file = fm->items[index];

  urkel_rwlock_rdunlock(fm->lock);

  return file;''')
E('B', S, '''    while (size >= META_SIZE) {
      size -= META_SIZE;
      *off -= META_SIZE;
''', '''    for (; size >= META_SIZE;) {
      *off -= META_SIZE;
      size -= META_SIZE;
''')
E('B', P, '''  size_t size = 0;
  size_t i;

  size += 2;
  size += 2;
  size += (proof->nodes_len + 7) / 8;

  for (i = 0; i < proof->nodes_len; i++) {
    const urkel_proof_node_t *node = proof->nodes[i];

    if (node->prefix.size > 0)
      size += urkel_bits_size(&node->prefix);

    size += URKEL_HASH_SIZE;
  }
''', '''  size_t size = 4 + (proof->nodes_len + 7) / 8;
  size_t i = proof->nodes_len;

  size += i * URKEL_HASH_SIZE;

  while (i-- > 0) {
    const urkel_proof_node_t *node = proof->nodes[i];

    if (node->prefix.size > 0)
      size += urkel_bits_size(&node->prefix);
  }
''')
E('B', P, '''  while (i--) {
    const urkel_proof_node_t *node = proof->nodes[i];
''', '''  for (; i > 0; i--) {
    const urkel_proof_node_t *node = proof->nodes[i - 1];
''')
E('B', G, '''  for (i = 0; i < len; i++) {
    if (urkel_bits_get(bits, index) != urkel_get_bit(key, depth))
      break;

    index += 1;
    depth += 1;
    count += 1;
  }

  return count;''', '''  for (i = 0; i < len; i++) {
    if (urkel_bits_get(bits, index + i) != urkel_get_bit(key, depth + i))
      break;

    count = i + 1;
  }

  return count;''')
E('B', G, '''  for (i = left->size + 1, j = 0; j < right->size; i++, j++)
    urkel_bits_set(out, i, urkel_bits_get(right, j));''', '''  i = left->size + 1;

  for (j = 0; j < right->size; j++)
    urkel_bits_set(out, i + j, urkel_bits_get(right, j));''')
E('B', U, '''  size_t i = 10;

  out[i] = '\\0';

  while (i--) {
    out[i] = '0' + (num % 10);
    num /= 10;
  }''', '''  size_t i;

  out[10] = '\\0';

  for (i = 0; i < 10; i++) {
    out[9 - i] = '0' + (num % 10);
    num /= 10;
  }''')
E('B', U, '''    num *= 10;
    num += ch - '0';
''', '''    num = num * 10 + (ch - '0');
''')
E('B', H, '''  for (i = 0; i < 16; i++)
    m[i] = urkel_read64(chunk + i * 8);

  for (i = 0; i < 8; i++)
    v[i] = ctx->h[i];

  v[ 8] = urkel_blake2b_iv[0];
  v[ 9] = urkel_blake2b_iv[1];
  v[10] = urkel_blake2b_iv[2];
  v[11] = urkel_blake2b_iv[3];
  v[12] = urkel_blake2b_iv[4] ^ ctx->t[0];
  v[13] = urkel_blake2b_iv[5] ^ ctx->t[1];
  v[14] = urkel_blake2b_iv[6] ^ f0;
  v[15] = urkel_blake2b_iv[7];
''', '''  for (i = 0; i < 8; i++) {
    v[i] = ctx->h[i];
    v[i + 8] = urkel_blake2b_iv[i];
  }

  v[12] ^= ctx->t[0];
  v[13] ^= ctx->t[1];
  v[14] ^= f0;

  for (i = 0; i < 16; i++)
    m[i] = urkel_read64(chunk + i * 8);
''')
E('B', I, '''    do {
      nread = pread(fd, buf, len, pos);
    } while (nread < 0 && (errno == EINTR || errno == EAGAIN));

    if (nread <= 0)
      break;
''', '''    nread = pread(fd, buf, len, pos);

    if (nread < 0) {
      if (errno == EINTR || errno == EAGAIN)
        continue;
      break;
    }

    if (nread == 0)
      return 0;
''')
E('B', X, '''  for (i = 0, j = 0; i < srclen; i++) {
    dst[j++] = urkel_base16_charset[src[i] >> 4];
    dst[j++] = urkel_base16_charset[src[i] & 15];
  }

  dst[j] = '\\0';''', '''  for (i = 0; i < srclen; i++) {
    j = i * 2;
    dst[j] = urkel_base16_charset[src[i] >> 4];
    dst[j + 1] = urkel_base16_charset[src[i] & 15];
  }

  dst[srclen * 2] = '\\0';''')

def run(b, props):
    s = '/tmp/refac.' + b
    shutil.rmtree(s, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', s])
    shutil.rmtree(s + '/_build', ignore_errors=True)
    for f, old, new in B[b]:
        t = open(s + '/' + f).read()
        if t.count(old) != 1:
            sys.exit('%s: %d times: %s' % (f, t.count(old), old))
        open(s + '/' + f, 'w').write(t.replace(old, new))
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/repo', s).replace('/opt/vp/build.sh', s + '.build.sh')
        open(s + '.' + n, 'w').write(t)
    p = subprocess.run(['bash', s + '.build.sh'], capture_output=True, text=True)
    if p.returncode:
        sys.exit('build: ' + (p.stdout + p.stderr)[-2000:])
    subprocess.run(['bash', s + '.test.sh', s + '.json'], capture_output=True)
    r = json.load(open(s + '.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    print(b, 'tests missing:', [x for x in base if x not in r['passed']], flush=True)
    for p in props:
        c = subprocess.run(['python3', os.path.join(VD, 'vf/run.py'), p], capture_output=True, text=True, env=dict(os.environ, VF_REPO=s), cwd=VD)
        print('%s %s exit %d' % (b, p, c.returncode))
        print('   ' + '\n   '.join(l[:200] for l in c.stdout.strip().splitlines()[:24]), c.stderr[-300:], flush=True)
    shutil.rmtree(s, ignore_errors=True)
    for x in ('.build.sh', '.test.sh', '.json'):
        if os.path.exists(s + x): os.unlink(s + x)

if __name__ == '__main__':
    run(sys.argv[1], sys.argv[2].split(',') if len(sys.argv) > 2 else ['C%02d' % i for i in range(1, 22)])
