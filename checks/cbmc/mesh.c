/* Mesh connectivity: the real mesh.c on all small meshes. */
#include <stdlib.h>
#include <string.h>
#ifndef CAP
#define CAP 64
#endif
#include "common.h"
#ifdef __CPROVER__
/* Blocks of a constant size CAP (> what is asked for): the contents past the
   requested size are arbitrary. */
#undef alloc_mem
#undef realloc_mem
#undef free_mem
#define alloc_mem(Type, num) ((Type *) sx_zero_##Type( \
  (Type *) malloc(CAP * sizeof(Type)), (num)))
#define realloc_mem(p, Type, num) ((Type *) sx_keep(p, num))
#define free_mem(p) do { (p) = 0; } while (0)
static void *sx_zero_uint32(uint32 *p, uint32 num)
{
  int sx_i;
  CLAIM(num <= CAP, "size of a block");
  for (sx_i = 0; sx_i < CAP; sx_i++) if (sx_i < num) p[sx_i] = 0;
  return p;
}
static void *sx_zero_char(char *p, uint32 num)
{
  int sx_i;
  CLAIM(num <= CAP, "size of a block");
  for (sx_i = 0; sx_i < CAP; sx_i++) if (sx_i < num) p[sx_i] = 0;
  return p;
}
static void *sx_keep(void *p, uint32 num)
{
  CLAIM(num <= CAP, "size of a block");
  return p;
}
#endif
#include "mesh.c"

void *mem_alloc_mem(size_t size, int a, char *b, char *c, char *d)
{ return calloc(size ? size : 1, 1); }
void *mem_realloc_mem(void *pp, size_t size, int a, char *b, char *c, char *d)
{ return realloc(pp, size ? size : 1); }
void mem_free_mem(void *pp, int a, char *b, char *c, char *d)
{ free(pp); }
int32 g_error = 0;
void errput(const char *what, ...) { CLAIM(0, "no error reported"); }
int32 gtr_cross_product(float64 o[3], float64 a[3], float64 b[3]) { return 0; }
int32 gtr_dot_v3(float64 *o, float64 *a, float64 *b, int32 n) { return 0; }
int32 gtr_normalize_v3(float64 *o, float64 *a, int32 n, int32 v) { return 0; }

static Mesh mesh[1];
#ifndef NC
#define NC 1
#endif
#ifndef CAP
#define CAP 64
#endif
#ifndef NT
#define NT(d) ((d) == SDIM ? SN2 : SN1)
#endif
static uint32 ct[NC];
static uint32 first[NC + 1];

/* constant bounds everywhere: entities have at most 4 vertices here */
static int has(MeshConnectivity *c, uint32 ii, uint32 v)
{
  uint32 ic, n = c->offsets[ii + 1] - c->offsets[ii], o = c->offsets[ii];
  int ok = 0;
  for (ic = 0; ic < 4; ic++) if (ic < n && c->indices[o + ic] == v) ok = 1;
  return ok;
}

static int sub(MeshConnectivity *c, uint32 i1, uint32 i2)
{
  uint32 ic, n = c->offsets[i2 + 1] - c->offsets[i2], o = c->offsets[i2];
  int ok = 1;
  for (ic = 0; ic < 4; ic++)
    if (ic < n && !has(c, i1, c->indices[o + ic])) ok = 0;
  return ok;
}

static void set_loc(MeshConnectivity *c, uint32 num, uint32 *ind, uint32 *off)
{
  c->num = num;
  c->n_incident = off[num];
  c->indices = ind;
  c->offsets = off;
}

#ifdef DO_ENTITIES
static void check_entities(int d, uint32 *oris)
{
  MeshConnectivity *cd = mesh->topology->conn[IJ(TD, TD, d)];
  MeshConnectivity *d0 = mesh->topology->conn[IJ(TD, d, 0)];
  MeshConnectivity **locs = d == 1 ? mesh->entities->edges
    : mesh->entities->faces;
  uint32 num = mesh->topology->num[d];
  uint32 k, i, j, kk, nt = 0;

  CLAIM(cd->num == NC && cd->offsets[0] == 0, "a row for each cell");
  CLAIM(d0->num == num && d0->offsets[0] == 0, "a row for each entity");
  CLAIM(d0->n_incident == d0->offsets[num], "size of entity vertices");
  for (k = 0; k < NC; k++) {
    MeshConnectivity *loc = locs[ct[k]];
    CLAIM(cd->offsets[k + 1] - cd->offsets[k] == loc->num,
          "number of entities of a cell");
    for (i = 0; i < loc->num; i++) {
      uint32 n = loc->offsets[i + 1] - loc->offsets[i];
      uint32 f = cd->indices[cd->offsets[k] + i];
      CLAIM(f < num, "entity index in range");
      CLAIM(d0->offsets[f + 1] - d0->offsets[f] == n,
            "number of vertices of an entity");
      for (j = 0; j < n; j++) {
        uint32 v = sx_in[first[k] + loc->indices[loc->offsets[i] + j]];
        CLAIM(has(d0, f, v), "entity has the vertices of the local entity");
      }
      /* orientation keys: equal if and only if ordered the same way */
      for (kk = 0; kk <= k; kk++) {
        MeshConnectivity *lo2 = locs[ct[kk]];
        for (j = 0; j < lo2->num; j++) {
          uint32 a, b, same = 1;
          if (lo2->offsets[j + 1] - lo2->offsets[j] != n) continue;
          if (kk == k && j >= i) continue;
          for (a = 0; a < n; a++) for (b = 0; b < a; b++) {
            uint32 va = sx_in[first[k] + loc->indices[loc->offsets[i] + a]];
            uint32 vb = sx_in[first[k] + loc->indices[loc->offsets[i] + b]];
            uint32 wa = sx_in[first[kk] + lo2->indices[lo2->offsets[j] + a]];
            uint32 wb = sx_in[first[kk] + lo2->indices[lo2->offsets[j] + b]];
            if ((vb < va) != (wb < wa)) same = 0;
          }
          CLAIM((oris[cd->offsets[k] + i] == oris[cd->offsets[kk] + j])
                == same, "orientation key");
        }
      }
    }
    nt += loc->num;
  }
  /* every entity is used by some cell, entities are unique */
  CLAIM(num <= nt, "number of entities");
  for (i = 0; i < NT(d); i++) {
    kk = 0;
    for (j = 0; j < NT(d); j++) if (cd->indices[j] == i) kk++;
    CLAIM(i >= num || kk > 0, "entity belongs to a cell");
    for (j = 0; j < i; j++)
      if (i < num)
        CLAIM(!(sub(d0, i, j) && sub(d0, j, i)), "entities are unique");
  }
}
#endif


#ifdef TABLES
/* connectivity (d1 -> d2): n1 rows of m symbolic distinct indices < n2 */
static int sx_pos = 0;
static void table(int d1, int d2, uint32 n1, uint32 m, uint32 n2)
{
  MeshConnectivity *c = mesh->topology->conn[IJ(TD, d1, d2)];
  uint32 i, j, k;
  mesh->topology->num[d1] = n1;
  mesh->topology->num[d2] = n2;
  conn_alloc(c, n1, n1 * m);
  for (i = 0; i < n1; i++) {
    c->offsets[i + 1] = (i + 1) * m;
    for (j = 0; j < m; j++) {
      uint32 v = sx_in[sx_pos++];
      ASSUME(v < n2);
      c->indices[i * m + j] = v;
      for (k = 0; k < j; k++) ASSUME(c->indices[i * m + k] != v);
    }
  }
}

static uint32 count(int d1, int d2, uint32 i, uint32 v)
{
  MeshConnectivity *c = mesh->topology->conn[IJ(TD, d1, d2)];
  uint32 k, n = 0;
  for (k = c->offsets[i]; k < c->offsets[i + 1]; k++)
    if (c->indices[k] == v) n++;
  return n;
}
#endif

#ifdef DO_TRANSPOSE
/* TR1 < TR2 */
static void check_transpose(void)
{
  MeshConnectivity *c;
  uint32 i, j, k;
  table(TR2, TR1, TN2, TM, TN1);
  mesh_transpose(mesh, TR1, TR2);
  c = mesh->topology->conn[IJ(TD, TR1, TR2)];
  CLAIM(c->num == TN1 && c->offsets[0] == 0, "a row for each entity");
  CLAIM(c->n_incident == TN2 * TM && c->offsets[TN1] == TN2 * TM,
        "total number of incidences");
  for (i = 0; i < TN1; i++) {
    CLAIM(c->offsets[i] <= c->offsets[i + 1], "offsets");
    for (j = 0; j < TN2; j++) {
      uint32 n = 0;
      for (k = 0; k < TN2 * TM; k++)
        if (k >= c->offsets[i] && k < c->offsets[i + 1]
            && c->indices[k] == j) n++;
      CLAIM(n == count(TR2, TR1, j, i), "transposed incidence");
    }
  }
}
#endif

#ifdef DO_INTERSECT
static void check_intersect(void)
{
  MeshConnectivity *c;
  uint32 i, j, k, v;
  table(P1, P3, PN1, PM1, PN3);
  if (P3 != P2) table(P3, P2, PN3, PM3, PN2);
  if (P1 > P2 && P3 != 0) table(P1, 0, PN1, PV1, PNV);
  if (P1 > P2) table(P2, 0, PN2, PV2, PNV);
  mesh_intersect(mesh, P1, P2, P3);
  c = mesh->topology->conn[IJ(TD, P1, P2)];
  CLAIM(c->num == PN1 && c->offsets[0] == 0, "a row for each entity");
  CLAIM(c->n_incident == c->offsets[PN1], "total number of incidences");
  for (i = 0; i < PN1; i++) {
    CLAIM(c->offsets[i] <= c->offsets[i + 1], "offsets");
    for (j = 0; j < PN2; j++) {
      uint32 n = 0, reach = 0, ok = 1;
      for (k = 0; k < PN1 * PN2; k++)
        if (k >= c->offsets[i] && k < c->offsets[i + 1]
            && c->indices[k] == j) n++;
      for (k = 0; k < PN3; k++)
        if (count(P1, P3, i, k) && count(P3, P2, k, j)) reach = 1;
      if (P1 == P2) ok = (i != j);
      else for (v = 0; v < PNV; v++)
        if (count(P2, 0, j, v) && !count(P1, 0, i, v)) ok = 0;
      CLAIM(n == (reach && ok ? 1 : 0),
            "incidence agrees with its definition");
    }
  }
}
#endif

#ifdef DO_SORT
static void check_sort(void)
{
  uint32 i, j, k, n, a[4], b[4];
  for (n = 2; n < 5; n++) {
    int32 k1, k2, same = 1;
    for (i = 0; i < n; i++) {
      a[i] = sx_in[i];
      b[i] = sx_in[4 + i];
      for (j = 0; j < i; j++)
        if ((sx_in[j] < sx_in[i]) != (sx_in[4 + j] < sx_in[4 + i])) same = 0;
    }
    uint32_sort234_copy(a, b, n);
    for (i = 0; i < n; i++) {
      if (i) CLAIM(a[i - 1] <= a[i], "sorted");
      CLAIM(b[i] == sx_in[4 + i], "source is kept");
    }
    for (i = 0; i < n; i++) {
      uint32 c1 = 0, c2 = 0;
      for (j = 0; j < n; j++) {
        if (a[j] == a[i]) c1++;
        if (sx_in[4 + j] == a[i]) c2++;
      }
      CLAIM(c1 == c2, "permutation");
    }
    for (i = 0; i < n; i++) a[i] = sx_in[i];
    k1 = n == 2 ? uint32_sort2(a) : n == 3 ? uint32_sort3(a)
      : uint32_sort4(a);
    k2 = n == 2 ? uint32_sort2(b) : n == 3 ? uint32_sort3(b)
      : uint32_sort4(b);
    for (i = 0; i < n; i++) {
      uint32 c1 = 0, c2 = 0;
      if (i) CLAIM(a[i - 1] <= a[i], "sorted in place");
      for (j = 0; j < n; j++) {
        if (a[j] == a[i]) c1++;
        if (sx_in[j] == a[i]) c2++;
      }
      CLAIM(c1 == c2, "permutation in place");
    }
    CLAIM((k1 == k2) == same, "orientation key is the order");
  }
}
#endif

#ifdef DO_SUBSET
static void check_subset(int dent, int dim)
{
  MeshConnectivity *c, inc[1];
  Indices ent[1], loc[1];
  Mask mask[1];
  uint32 ids[NS], out[NS * MAXI], lids[NS * MAXI], off[NS + 1];
  uint32 ns = 0, i, j, k, n, pos = 0;

  c = mesh->topology->conn[IJ(TD, dent, dim)];
  for (i = 0; i < NS; i++) {
    ids[i] = sx_in[sx_pos++];
    ASSUME(ids[i] < mesh->topology->num[dent]);
  }
  for (i = 0; i < NS; i++) for (j = 0; j < i; j++)
    ASSUME(ids[i] != ids[j]);
  ent->indices = ids;
  ent->num = NS;
  n = mesh_count_incident(mesh, dim, ent, dent);
  CLAIM(n <= NS * MAXI, "number of incident entities");
  inc->num = NS;
  inc->n_incident = n;
  inc->indices = out;
  inc->offsets = off;
  mesh_get_incident(mesh, inc, dim, ent, dent);
  CLAIM(off[0] == 0, "offsets of incident entities");
  CLAIM(n == NS * SM1, "count of incident entities");
  for (i = 0; i < NS; i++) {
    CLAIM(off[i + 1] == (i + 1) * SM1, "row of incident entities");
    for (k = 0; k < SM1; k++)
      CLAIM(out[i * SM1 + k] == c->indices[SM1 * ids[i] + k],
            "incident entity");
  }
  if (dim > dent) {
    c = mesh->topology->conn[IJ(TD, dim, dent)];
#ifdef DO_LOCAL
    loc->indices = lids;
    loc->num = n;
    mesh_get_local_ids(mesh, loc, ent, dent, inc, dim);
    for (i = 0; i < NS; i++)
      for (k = 0; k < SM1; k++) {
        CLAIM(lids[i * SM1 + k] < SM2, "local index in range");
        CLAIM(c->indices[SM2 * out[i * SM1 + k] + lids[i * SM1 + k]]
              == ids[i], "local index of an entity");
      }
#else
    mesh_select_complete(mesh, mask, dim, ent, dent);
    CLAIM(mask->num == mesh->topology->num[dim], "mask size");
    n = 0;
    for (j = 0; j < NT(dim); j++) {
      uint32 all = 1;
      for (k = j * SM2; k < (j + 1) * SM2; k++) {
        uint32 in = 0;
        for (i = 0; i < NS; i++) if (c->indices[k] == ids[i]) in = 1;
        if (!in) all = 0;
      }
      CLAIM((mask->mask[j] != 0) == all,
            "complete exactly if all incident entities are selected");
      n += all;
    }
    CLAIM(mask->n_true == n, "number of complete entities");
#endif
  }
}
#endif

int main(void)
{
  uint32 i, j, k;
  MeshConnectivity *c;

  sx_init();
  mesh_init(mesh);
  mesh->topology->max_dim = TD;
#ifdef DO_SORT
  check_sort();
#endif
#ifdef DO_TRANSPOSE
  check_transpose();
#endif
#ifdef DO_INTERSECT
  check_intersect();
#endif
#ifdef DO_SUBSET
  table(SDENT, SDIM, SN1, SM1, SN2);
  if (SDIM > SDENT) {
    /* consistent tables for local indices */
    table(SDIM, SDENT, SN2, SM2, SN1);
    for (i = 0; i < SN1; i++) for (j = 0; j < SN2; j++)
      ASSUME(count(SDENT, SDIM, i, j) <= count(SDIM, SDENT, j, i));
  }
  check_subset(SDENT, SDIM);
#endif
#ifdef DO_ENTITIES
  mesh_set_coors(mesh, 0, NV, TD, TD);
  mesh->topology->num[TD] = NC;
  first[0] = 0;
  for (k = 0; k < NC; k++) {
    ct[k] = conf_ct[k];
    first[k + 1] = first[k] + conf_nv[k];
  }
  mesh->topology->cell_types = ct;
  SETUP_LOCAL();
  c = mesh->topology->conn[IJ(TD, TD, 0)];
  conn_alloc(c, NC, first[NC]);
  for (k = 0; k < NC; k++) {
    c->offsets[k + 1] = first[k + 1];
    for (i = first[k]; i < first[k + 1]; i++) {
      c->indices[i] = sx_in[i];
      for (j = first[k]; j < i; j++) ASSUME(sx_in[i] != sx_in[j]);
    }
  }
  /* all cells share a vertex with each other */
  c = mesh->topology->conn[IJ(TD, TD, TD)];
  conn_alloc(c, NC, NC * (NC - 1));
  for (k = 0; k < NC; k++) {
    c->offsets[k + 1] = (k + 1) * (NC - 1);
    i = 0;
    for (j = 0; j < NC; j++) if (j != k) {
      c->indices[k * (NC - 1) + i++] = j;
      {
        uint32 a, b, ok = 0;
        for (a = first[k]; a < first[k + 1]; a++)
          for (b = first[j]; b < first[j + 1]; b++)
            if (sx_in[a] == sx_in[b]) ok = 1;
        ASSUME(ok);
      }
    }
  }
  mesh_build(mesh, DO_ENTITIES);
  check_entities(DO_ENTITIES, DO_ENTITIES == 1 ? mesh->topology->edge_oris
                 : mesh->topology->face_oris);
#endif
  END();
  return 0;
}
