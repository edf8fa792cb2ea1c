/* Prints a metadata database through the public query interface: one line per declaration with what the
 * queries say about it. The database comes from a file, or is the one linked into the program. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <crefl/model.h>
#include <crefl/db.h>

#ifdef EMBEDDED
extern const u8 __crefl_main_data[];
extern const size_t __crefl_main_size;
#endif

static void text(const char *s) { putchar('"'); for (; *s; s++) printf("%02x", (unsigned char)*s); putchar('"'); }

typedef int (*list_fn)(decl_ref, decl_ref*, size_t*);
static void list(const char *key, list_fn fn, decl_ref d)
{
    size_t n = 0, i, m; decl_ref *r;
    if (fn(d, NULL, &n) != 0) return;
    r = calloc(n + 1, sizeof(decl_ref)); m = n;
    if (fn(d, r, &m) != 0 || m != n) { printf(" %s=bad", key); free(r); return; }
    printf(" %s=", key); for (i = 0; i < n; i++) printf("%s%llu", i ? "," : "", (unsigned long long)crefl_decl_idx(r[i]));
    free(r);
}

static void ref(const char *key, decl_ref d) { printf(" %s=%llu", key, (unsigned long long)crefl_decl_idx(d)); }

static void one(decl_ref d)
{
    size_t n = 0, i;
    printf("N %llu tag=%s props=%llu qty=%llu name=", (unsigned long long)crefl_decl_idx(d), crefl_tag_name(crefl_decl_tag(d)), (unsigned long long)crefl_decl_props(d), (unsigned long long)crefl_decl_qty(d));
    text(crefl_decl_name(d));
    ref("next", crefl_decl_next(d)); ref("link", crefl_decl_link(d)); ref("attr", crefl_decl_attr(d));
    if (crefl_is_type(d)) printf(" width=%llu", (unsigned long long)crefl_type_width(d));
    if (crefl_is_intrinsic(d)) printf(" iwidth=%llu", (unsigned long long)crefl_intrinsic_width(d));
    if (crefl_is_typedef(d)) ref("type", crefl_typedef_type(d));
    if (crefl_is_field(d)) ref("type", crefl_field_type(d));
    if (crefl_is_array(d)) { ref("type", crefl_array_type(d)); printf(" count=%llu", (unsigned long long)crefl_array_count(d)); }
    if (crefl_is_pointer(d)) { ref("type", crefl_pointer_type(d)); printf(" pwidth=%llu", (unsigned long long)crefl_pointer_width(d)); }
    if (crefl_is_param(d)) ref("type", crefl_param_type(d));
    if (crefl_is_constant(d)) { decl_raw v = crefl_constant_value(d); ref("type", crefl_constant_type(d)); printf(" value=%llu", (unsigned long long)v.ux); }
    if (crefl_is_union(d)) printf(" uwidth=%llu", (unsigned long long)crefl_union_width(d));
    if (crefl_is_struct(d)) {
        printf(" swidth=%llu", (unsigned long long)crefl_struct_width(d));
        if (crefl_struct_fields_offsets(d, NULL, NULL, &n) == 0) {
            decl_ref *r = calloc(n + 1, sizeof(decl_ref)); size_t *o = calloc(n + 1, sizeof(size_t)), m = n;
            crefl_struct_fields_offsets(d, r, o, &m); printf(" offs=");
            for (i = 0; i < n; i++) printf("%s%llu:%llu", i ? "," : "", (unsigned long long)crefl_decl_idx(r[i]), (unsigned long long)o[i]);
            free(r); free(o);
        }
    }
    list("enums", crefl_enum_constants, d); list("fields", crefl_struct_fields, d); list("ufields", crefl_union_fields, d); list("params", crefl_function_params, d);
    list("decls", crefl_source_decls, d); list("types", crefl_source_types, d); list("sfields", crefl_source_fields, d); list("funcs", crefl_source_functions, d); list("sources", crefl_archive_sources, d);
    putchar('\n');
}

int main(int argc, char **argv)
{
    size_t i; int k; decl_db *db = crefl_db_new();
#ifdef EMBEDDED
    (void)argc; (void)argv; (void)k;
    if (crefl_db_read_mem(db, __crefl_main_data, __crefl_main_size) != 0) { printf("embedded metadata rejected\n"); return 1; }
    printf("ROOT %llu\n", (unsigned long long)crefl_decl_idx(crefl_root(db))); for (i = 0; i < db->decl_offset; i++) one(crefl_lookup(db, i));
    crefl_db_destroy(db);
#else
    for (k = 1; k < argc; k++) {
        if (k > 1) db = crefl_db_new();
        if (crefl_db_read_file(db, argv[k]) != 0) { printf("FILE %s\nrejected\n", argv[k]); crefl_db_destroy(db); continue; }
        printf("FILE %s\nROOT %llu\n", argv[k], (unsigned long long)crefl_decl_idx(crefl_root(db))); for (i = 0; i < db->decl_offset; i++) one(crefl_lookup(db, i));
        crefl_db_destroy(db);
    }
#endif
#ifdef PROBES
    extern void probes(void); probes();
#endif
    return 0;
}
