#pragma once
#include <kognac/utils.h>
#include <sparsehash/dense_hash_map>
#define EMPTY_KEY ((const char *) 1)
#define DELETED_KEY ((const char *) 2)
struct vp_hash { size_t operator()(const char *) const; }; struct vp_eq { bool operator()(const char *, const char *) const; };
typedef google::dense_hash_map<const char *, int64_t, vp_hash, vp_eq> ByteArrayToNumberMap;
