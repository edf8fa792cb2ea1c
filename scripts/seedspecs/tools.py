R = "src/reflect.cc"; M = "src/model.cc"; L = "src/link.cc"; P = "src/dump.cc"; U = "include/crefl/util.h"; T = "tool/crefltool.cc"; A1 = "tool/asn1tool.cc"; SHA = "src/sha256.cc"; O = "src/oid.cc"
PRE = r'''
#!/bin/bash
# exits 0 when the program behaves, 1 when the planted change shows
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 2
refl() { timeout 60 python3 /repo/scripts/creflcc.py -p /repo/_build -o "$2" "$1" >/dev/null 2>&1 || { echo "plugin failed"; exit 2; }; }
T=/repo/_build/crefltool
'''
RD = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/link.h>
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
static decl_db *load(const char *f) { decl_db *db = crefl_db_new(); if (crefl_db_read_file(db, f) != 0) { printf("cannot read %s\n", f); exit(2); } return db; }
static decl_ref find(decl_db *db, decl_tag t, const char *n) {
    for (size_t i = db->decl_builtin; i < db->decl_offset; i++) { decl_ref d = crefl_lookup(db, i); if (crefl_decl_tag(d) == t && !strcmp(crefl_decl_name(d), n)) return d; }
    printf("no %s\n", n); exit(1);
}
'''
CC = 'g++ -std=c++17 -include cstdint -O1 -g -I/repo/include "$here/demo.cc" /repo/_build/libcmodel.a -o demo || exit 2\n'
def PL(src, main): return dict(demo_sh=PRE + 'cp "$here/in.c" in.c\nrefl in.c in.refl\n' + CC + 'timeout 60 ./demo in.refl\n', demo_cc=RD + main, files={"in.c": src})
# C03
S("s-c03-enum-int", "C03", "an enumerator above INT_MAX",
  "enumerator values are cut to 32 bits",
  [(R, "uint64_t value = d->getInitVal().extOrTrunc(64).getZExtValue();", "uint64_t value = (int32_t)d->getInitVal().extOrTrunc(64).getZExtValue();")],
  **PL("enum e { a = -1, b = 2147483647, c = 2147483648u, d = 0x123456789abcdefll };\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]);
    struct { const char *n; u64 x; } w[] = { { "a", ~0ull }, { "b", 2147483647 }, { "c", 2147483648u }, { "d", 0x123456789abcdefull } };
    for (auto &i : w) if (crefl_constant_value(find(db, _decl_constant, i.n)).ux != i.x) FAIL("%s is %llx", i.n, (unsigned long long)crefl_constant_value(find(db, _decl_constant, i.n)).ux);
    return 0;
}'''))
S("s-c03-aligned-byte", "C03", "an alignment attribute of 256 or more",
  "large alignments are recorded as zero",
  [(R, "                unsigned align = cast<AlignedAttr>(*at).getAlignment(context);", "                unsigned char align = cast<AlignedAttr>(*at).getAlignment(context);")],
  **PL("struct s { int a; } __attribute__((aligned(4096)));\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]); decl_ref a = crefl_decl_attr(find(db, _decl_struct, "s")), x = crefl_decl_link(a);
    if (crefl_decl_qty(x) != 4096 * 8) FAIL("aligned %llu", (unsigned long long)crefl_decl_qty(x));
    return 0;
}'''))
S("s-c03-pop-once", "C03", "a declaration after a record whose last member is itself a nested record definition",
  "only one level is closed, so what follows is chained to the wrong list",
  [(R, "        while (stack.size() > 0 && stack.back().decl_idx != p.decl_idx) {", "        if (stack.size() > 0 && stack.back().decl_idx != p.decl_idx) {")],
  **PL("struct a { int x; struct b { int y; struct c { int z; }; }; };\nstruct d { int w; };\nint last;\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]); size_t n = 0; crefl_source_decls(crefl_root(db), nullptr, &n);
    if (n != 3) FAIL("%zu declarations at file scope", n);
    return 0;
}'''))
S("s-c03-bitfield-width", "C03", "a bit-field of width zero",
  "zero-width bit-fields are recorded as ordinary fields",
  [(R, "        crefl_decl_ptr(r)->_props |= (-(int)d->isBitField() & _decl_bitfield);", "        crefl_decl_ptr(r)->_props |= (-(int)(width > 0) & _decl_bitfield);")],
  **PL("struct s { int a:3; int :0; int b:2; };\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]); decl_ref f[3]; size_t o[4], n = 3; crefl_struct_fields(find(db, _decl_struct, "s"), f, &n);
    if (n != 3) FAIL("%zu fields", n);
    for (int i = 0; i < 3; i++) if (!(crefl_decl_props(f[i]) & _decl_bitfield)) FAIL("field %d is no bit-field", i);
    return 0;
}'''))
S("s-c03-param-next", "C03", "a function parameter with a listed attribute ahead of further parameters of anonymous types",
  "unnamed parameters are left out of the parameter list",
  [(R, "            crefl_decl_ptr(pr)->_next = crefl_decl_idx(ar);", "            if (parm->getIdentifier() || i + 1 == parms.size()) crefl_decl_ptr(pr)->_next = crefl_decl_idx(ar); else continue;")],
  **PL("int f(int a, int, int, char *b);\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]); size_t n = 0; crefl_function_params(find(db, _decl_function, "f"), nullptr, &n);
    if (n != 5) FAIL("%zu parameters", n);
    return 0;
}'''))
# C04
S("s-c04-array-32", "C04", "an array type whose dimensions multiply to 2^32 elements or more",
  "array sizes wrap at 32 bits",
  [(M, "    size_t qty = 1;\n", "    unsigned qty = 1;\n")],
  **PL("struct s { char a[70000][70000]; int b; };\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]); decl_ref s = find(db, _decl_struct, "s");
    if (crefl_type_width(s) != 8ull * 4900000004ull) FAIL("width %zu", crefl_type_width(s));
    return 0;
}'''))
S("s-c04-complex-part", "C04", "a long double or 128-bit integer member after a smaller one",
  "alignment is limited to 64 bits",
  [(M, "        if (n > maxalign) n = maxalign;", "        if (n >= maxalign) n = maxalign - 1;")],
  **PL("struct s { char a; long double b; };\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]); decl_ref s = find(db, _decl_struct, "s"); size_t o[3], n = 3; crefl_struct_fields_offsets(s, nullptr, o, &n);
    if (n != 3 || o[1] != 128 || o[2] != 256) FAIL("offsets %zu %zu", o[1], o[2]);
    return 0;
}'''))
S("s-c04-array-2d", "C04", "an array whose element type is reached through a qualifier or typedef that is itself an array",
  "only the outermost bound counts when the element type is an array behind a qualifier",
  [(M, "        d = crefl_array_type(d);\n    } while (crefl_is_array(d));", "        d = crefl_array_type(d);\n        while (crefl_is_qualifier(d)) d = crefl_decl_link(d);\n        d = crefl_is_array(d) ? crefl_array_type(d) : d;\n    } while (crefl_is_array(d) && qty);")],
  **PL("typedef const int v3[3];\nstruct s { v3 a[5]; int m[2][7]; };\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]); decl_ref s = find(db, _decl_struct, "s");
    if (crefl_type_width(s) != 32 * (15 + 14)) FAIL("width %zu", crefl_type_width(s));
    return 0;
}'''))
# C18
S("s-c18-trailing-zeros", "C18", "a file whose last octets are all zero, as when no declaration has a name",
  "trailing zero octets are trimmed before the array is written",
  [(T, "    for (size_t i = 0; i < sz; i++) {\n        fprintf(f, \"0x%02hhx\", buf[i]);", "    while (sz > 1 && !buf[sz - 1] && !buf[sz - 2]) sz--;\n    for (size_t i = 0; i != sz; i++) {\n        fprintf(f, \"0x%02hhx\", buf[i]);")],
  demo_sh=PRE + CC + r'''
./demo make in.refl || exit 2
$T --emit out.c in.refl || exit 1
cat > main.c <<'E'
#include <stdio.h>
#include "out.c"
int main() { return fwrite(__crefl_main_data, 1, __crefl_main_size, stdout) == __crefl_main_size ? 0 : 1; }
E
gcc main.c -o main && ./main > back || exit 1
cmp in.refl back
''', demo_cc=RD + r'''
int main(int c, char **v) {
    decl_db *db = crefl_db_new(); crefl_db_defaults(db); decl_ref s = crefl_decl_new(db, _decl_source), t = crefl_decl_new(db, _decl_struct);
    db->root_element = crefl_decl_idx(s); crefl_decl_ptr(s)->_link = crefl_decl_idx(t);
    return crefl_db_write_file(db, v[2]) == 0 ? 0 : 2;
}''')
S("s-c18-stats-total", "C18", "the statistics of any file",
  "the reported file size counts the builtin names, which files do not hold",
  [(P, "        sizeof(decl_db_hdr) + sizeof(decl_node) * decl_user + name_user\n", "        sizeof(decl_db_hdr) + sizeof(decl_node) * decl_user + name_total - 1\n")],
  demo_sh=PRE + r'''
echo 'struct s { int a; }; int b;' > in.c; refl in.c in.refl
n=$($T --stats in.refl | awk '/file.size/ { print $2 }'); [ "$n" = "$(stat -c %s in.refl)" ]
''')
# C19
S("s-c19-format", "C19", "a name with a percent sign, such as a source file or an annotation",
  "rows are used as format strings, so percent signs in names garble or crash the dump",
  [(P, "    printf(\"%s\\n\", crefl_field_iter(fields,\n        [&](auto f) { return _pad_str(f->format(f, &row), f->width); }).c_str());",
       "    printf((crefl_field_iter(fields,\n        [&](auto f) { return _pad_str(f->format(f, &row), f->width); }) + \"\\n\").c_str());")],
  demo_sh=PRE + r'''
echo 'int a __attribute__((annotate("100%d sure")));' > in.c; refl in.c in.refl
$T --dump in.refl | grep -qF '100%d sure'
''')
S("s-c19-alias-fqn", "C19", "a dump with qualified names of a merged file that shares a definition",
  "alias rows lose the qualified name of the definition they stand for",
  [(P, "        er = crefl_entry_ref(ld, a);\n", "")],
  demo_sh=PRE + r'''
echo 'struct shared { int a; }; int b;' > x.c; echo 'struct shared { int a; }; int c;' > y.c; refl x.c x.refl; refl y.c y.refl
$T --merge m.refl x.refl y.refl || exit 2
[ "$($T --dump-ext-fqn m.refl | grep -c 'struct shared')" = 2 ]
''')
S("s-c19-anon-width", "C19", "an unnamed declaration with a value, such as the alignment of an attribute",
  "values without a name are shown without their value",
  [(P, "    case _decl_constant:\n    case _decl_value:     props =", "    case _decl_value:     if (!crefl_decl_has_name(r)) break;\n    case _decl_constant:  props =")],
  demo_sh=PRE + r'''
echo 'struct s { int a; } __attribute__((aligned(64)));' > in.c; refl in.c in.refl
$T --dump in.refl | grep -q 'value=512'
''')
# C20
S("s-c20-oid-nul", "C20", "an object identifier whose contents hold a zero octet",
  "identifiers are copied as strings and lose what follows a zero octet",
  [(A1, "    memcpy(buf->data, data, sz);\n\n", "    memset(buf->data, 0, sz);\n    strncpy(buf->data, data, sz);\n\n")],
  demo_sh=PRE + r'''
printf '\x06\x05\x2a\x00\x03\x00\x07' > in; /repo/_build/asn1tool --dump in > out || exit 1; grep -qF '1.2.0.3.0.7' out
''')
S("s-c20-hex-long", "C20", "a bit string, integer or real of more than 256 octets",
  "long contents are shown only in part",
  [(A1, "    for (size_t i = 0; i < sz; i++) {\n        snprintf(hex, sizeof(hex), \"%02hhx\", data[i]);\n        if (i != 0) s.append(\",\");", "    for (uint8_t i = 0; i < sz; i++) {\n        snprintf(hex, sizeof(hex), \"%02hhx\", data[i]);\n        if (i == 255) sz = i;\n        if (i != 0) s.append(\",\");")],
  demo_sh=PRE + r'''
python3 -c 'import sys; sys.stdout.buffer.write(bytes([3,0x82,1,0x2c]) + bytes(i % 251 for i in range(300)))' > in
/repo/_build/asn1tool --dump in > out || exit 1
[ "$(grep -o ',' out | wc -l)" = 299 ]
''')
S("s-c20-utc-time", "C20", "a UTCTime element",
  "times are printed without their content",
  [(A1, "    case asn1_tag_utc_time:\n", "")],
  demo_sh=PRE + r'''
printf '\x30\x0f\x17\x0d200101000000Z' > in; /repo/_build/asn1tool --dump in > out || exit 1; grep -qF '200101000000Z' out
''')
# C21
TS = r'''
clang++ -std=c++17 -include cstdint -include cstring -include cerrno -O1 -g -fsanitize=thread -I/repo/include "$here/demo.cc" /repo/src/{asn1,buf,db,dump,link,model,oid,sha256,types}.cc -o demo -lpthread >/dev/null 2>err || { head -5 err; exit 2; }
TSAN_OPTIONS=exitcode=1 timeout 200 ./demo
'''
TM = RD + r'''
#include <thread>
#include <crefl/sha256.h>
static void work(int k) {
    for (int i = 0; i < 20; i++) {
        decl_db *db = crefl_db_new(); crefl_db_defaults(db); decl_ref s = crefl_decl_new(db, _decl_source); db->root_element = crefl_decl_idx(s);
        decl_ref t = crefl_decl_new(db, _decl_struct); decl_id n = crefl_name_new(db, k ? "one" : "other"); crefl_decl_ptr(t)->_name = n; crefl_decl_ptr(s)->_link = crefl_decl_idx(t);
        decl_ref f = crefl_decl_new(db, _decl_field); crefl_decl_ptr(t)->_link = crefl_decl_idx(f); crefl_decl_ptr(f)->_link = crefl_decl_idx(crefl_intrinsic(db, _decl_sint, 32));
        decl_index *x = crefl_index_new(); crefl_index_scan(x, db); crefl_index_destroy(x); crefl_db_destroy(db);
    }
}
int main() { std::thread a(work, 0), b(work, 1); a.join(); b.join(); return 0; }
'''
S("s-c21-static-prefix", "C21", "two threads that hash databases of their own at the same time",
  "the separator used while building qualified names is shared between threads",
  [(L, "    std::string osep = prefix.size() > 0 ? sep : \"\";", "    static std::string osep;\n    osep = prefix.size() > 0 ? sep : \"\";")],
  demo_sh=PRE + TS, demo_cc=TM)
S("s-c21-static-schedule", "C21", "two threads that compute digests at the same time",
  "the message schedule is shared between threads, so concurrent digests are wrong",
  [(SHA, "    uint32_t H[8], W[64], T0, T1;", "    static uint32_t W[64];\n    uint32_t H[8], T0, T1;")],
  demo_sh=PRE + TS, demo_cc=TM)
S("s-c21-intrinsic-cache", "C21", "two threads that look up builtin types in databases of their own",
  "the last builtin found is remembered in a place all threads share",
  [(M, "    for (size_t i = 0; i < db->decl_offset; i++) {\n        decl_ref d = crefl_lookup(db, i);\n        if (crefl_is_intrinsic(d) &&", "    static size_t hint = 0;\n    size_t from = hint < db->decl_builtin && crefl_decl_qty(crefl_lookup(db, hint)) == width && crefl_decl_props(crefl_lookup(db, hint)) == props ? hint : 0;\n    for (size_t i = from; i < db->decl_offset; i++) {\n        decl_ref d = crefl_lookup(db, i);\n        if (crefl_is_intrinsic(d)) hint = i;\n        if (crefl_is_intrinsic(d) &&")],
  demo_sh=PRE + TS, demo_cc=TM)
# C23
S("s-c23-short-read", "C23", "a read that returns less than the size of the file, as when it shrinks or the device fails",
  "a file read in part is treated as read completely",
  [(U, "    size_t len = fread(buf.data(), 1, buf.size(), f);\n    fclose(f);\n\n    return buf.size() == len ? 0 : -1;", "    size_t len = fread(buf.data(), 1, buf.size(), f);\n    fclose(f);\n\n    return len > 0 || buf.size() == 0 ? 0 : -1;")],
  demo_sh=PRE + r'''
echo 'struct s { int a; }; int b;' > in.c; refl in.c in.refl
cat > short.c <<'E'
#define _GNU_SOURCE
#include <stdio.h>
#include <dlfcn.h>
size_t fread(void *p, size_t s, size_t n, FILE *f) { size_t (*r)(void*, size_t, size_t, FILE*) = dlsym(RTLD_NEXT, "fread"); return r(p, s, n > 4 ? n - 4 : n, f); }
E
gcc -shared -fPIC short.c -o short.so || exit 2
LD_PRELOAD=./short.so $T --stats in.refl >/dev/null 2>&1 && { echo "short read reported as success"; exit 1; }
exit 0
''')
S("s-c23-write-len", "C23", "a device that fills up while a large file is written and whose error does not recur on close",
  "the number of octets written is not checked",
  [(U, "    size_t len = fwrite(buf.data(), 1, buf.size(), f);", "    fwrite(buf.data(), 1, buf.size(), f);"),
   (U, "    return buf.size() == len ? 0 : -1;\n}", "    return 0;\n}", 2)],
  demo_sh=PRE + CC + r'''
cat > short.c <<'E'
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <dlfcn.h>
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { size_t (*r)(const void*, size_t, size_t, FILE*) = dlsym(RTLD_NEXT, "fwrite"); return r(p, s, n > 100 ? n / 2 : n, f); }
E
gcc -shared -fPIC short.c -o short.so || exit 2
LD_PRELOAD=./short.so ./demo
''', demo_cc=RD + r'''
int main() {
    decl_db *db = crefl_db_new(); crefl_db_defaults(db); decl_ref s = crefl_decl_new(db, _decl_source); db->root_element = crefl_decl_idx(s);
    for (int i = 0; i < 100; i++) crefl_decl_new(db, _decl_field);
    if (crefl_db_write_file(db, "out") == 0) FAIL("a partial write is reported as success");
    return 0;
}''')
S("s-c23-emit-open", "C23", "an emit output that cannot be opened",
  "the failure to open the output exits with success",
  [(T, "        free(buf);\n        fprintf(stderr, \"error: writing db\\n\");\n        exit(1);", "        free(buf);\n        fprintf(stderr, \"error: writing db\\n\");\n        exit(errno == ENOSPC);"),
   (T, "#include <crefl/link.h>", "#include <cerrno>\n#include <crefl/link.h>")],
  demo_sh=PRE + r'''
echo 'int b;' > in.c; refl in.c in.refl
$T --emit /nonexistent-dir/out.c in.refl 2>/dev/null && { echo "emit reports success"; exit 1; }
exit 0
''')
# C25
S("s-c25-merge-pairs", "C25", "a merge of three or more files",
  "the archive names only the last of the sources after the second",
  [(L, "    decl_ref l { db, 0 };\n    for (size_t i = 0; i < n; i++) {", "    decl_ref l { db, 0 };\n    for (size_t i = 0; i < n; l = i++ < 2 ? l : crefl_decl_link(r)) {")],
  demo_sh=PRE + CC + r'''
in=""; for i in 1 2 3 4 5; do echo "struct s$i { int a; };" > $i.c; refl $i.c $i.refl; in="$in $i.refl"; done
$T --merge m.refl $in && ./demo m.refl
''', demo_cc=RD + r'''
int main(int c, char **v) { decl_db *db = load(v[1]); size_t n = 0; crefl_archive_sources(crefl_root(db), nullptr, &n); if (n != 5) FAIL("%zu sources", n); return 0; }''')

# C27
S("s-c27-dump-clears", "C27", "-dump given after -o", "with -dump behind the output option no metadata file is written",
  [(R, "            ++i; dump = true;", "            ++i; dump = true; outputFile.clear();")],
  demo_sh=PRE + r'''
echo 'struct a { int x; };' > in.c
X="-Xclang -load -Xclang /repo/_build/libcrefl.so -Xclang -plugin -Xclang crefl"; A="-Xclang -plugin-arg-crefl -Xclang"
/opt/llvm/bin/clang -c $X $A -o $A one.refl $A -dump in.c > /dev/null || exit 1
[ -s one.refl ] || { echo "no metadata"; exit 1; }
exit 0
''')
S("s-c27-debug-resolves", "C27", "a variable or parameter of derived type, with -debug", "debugging output creates declarations, so the metadata differs with -debug",
  [(R, '        debugf("\\tname:\\"%s\\"\\n",\n            d->NamedDecl::getNameAsString().c_str());\n\n        /* FunctionDecl handles params */', '        debugf("\\tname:\\"%s\\" type:%s\\n",\n            d->NamedDecl::getNameAsString().c_str(),\n            crefl_decl_name(get_intrinsic_type(d->getType())));\n\n        /* FunctionDecl handles params */')],
  demo_sh=PRE + r'''
echo 'struct a { int x; }; extern struct a *v[3];' > in.c
refl in.c a.refl
python3 /repo/scripts/creflcc.py -d -p /repo/_build -o b.refl in.c > /dev/null 2>&1 || exit 1
cmp a.refl b.refl
''')
S("s-c27-cpp-include", "C27", "creflcc --cpp together with -I", "include directories are dropped in C++ mode, and what the headers declare is lost",
  [("scripts/creflcc.py", "    if includes:\n        for include in includes:", "    if includes and not is_cpp:\n        for include in includes:")],
  demo_sh=PRE + r'''
mkdir inc; echo 'struct from_header { int x; };' > inc/h.h; printf '#include "h.h"\nint after;\n' > in.cc
python3 /repo/scripts/creflcc.py --cpp -I inc -p /repo/_build -o a.refl in.cc > /dev/null 2>&1 || exit 1
$T --dump a.refl | grep -q from_header
''')
S("s-c27-linkage-static", "C27", "C++ mode: a static function inside a linkage specification", "internal functions are marked extern_c",
  [(R, "            (-(int)d->isExternC() & _decl_extern_c) |\n            (-(int)d->isStatic() & _decl_static) |", "            (-(int)(d->isExternC() || d->isInExternCContext()) & _decl_extern_c) |\n            (-(int)d->isStatic() & _decl_static) |")],
  demo_sh=PRE + r'''
printf 'int before;\nextern "C" {\nstatic int inner(void);\nint outer(void);\n}\n' > in.cc
python3 /repo/scripts/creflcc.py --cpp -p /repo/_build -o a.refl in.cc > /dev/null 2>&1 || exit 1
cat > d.c <<'EOF'
#include <stdio.h>
#include <string.h>
#include <crefl/model.h>
#include <crefl/db.h>
int main() { decl_db *db = crefl_db_new(); if (crefl_db_read_file(db, "a.refl")) return 2; int bad = 1;
  for (size_t i = 0; i < db->decl_offset; i++) { decl_ref d = crefl_lookup(db, i); if (!strcmp(crefl_decl_name(d), "inner")) bad = (crefl_decl_props(d) & _decl_extern_c) != 0; }
  return bad; }
EOF
gcc -I/repo/include -w -c d.c -o d.o && g++ d.o /repo/_build/libcmodel.a -o d || exit 2
./d
''')

# ---- C28
EX3 = "samples/example3_printer/printer.c"; EX2 = "samples/example2_embed/main.c"
def SHOW(src, body, want, pre=""):
    """print objects of in.h with the sample printer; want: what the lines must be"""
    return dict(demo_sh=PRE + r'''cp "$here/in.h" "$here/main.c" . ; cp in.h in.c
refl in.c in.refl
$T --merge all.refl in.refl >/dev/null && $T --emit all.c all.refl >/dev/null || exit 2
S=/repo/samples/example3_printer
gcc -w -O0 -I/repo/include -I$S main.c $S/printer.c all.c /repo/_build/libcmodel.a -lstdc++ -lpthread -lm -o show || exit 2
timeout 60 ./show > got || { echo "the printer fails"; exit 1; }
cut -c1-200000 got | cmp - "$here/want" || { echo "the printer shows something else"; exit 1; }
exit 0
''', files={"in.h": src, "main.c": '#include <stdio.h>\n#include <string.h>\n#include "in.h"\n#include "printer.h"\nint main(void) {\n    decl_db *db = crefl_db_internal();\n' + body + '\n    crefl_db_destroy(db); return 0;\n}\n', "want": want})
S("s-c28-offset-or", "C28", "a nested struct at an offset that has bits in common with the offset of one of its own members", "members of nested structs are read from the wrong place",
  [(EX3, "_print_field(_fields[j], ptr, _offsets[j] + offset, depth + 1);", "_print_field(_fields[j], ptr, _offsets[j] | offset, depth + 1);")],
  **SHOW("struct in { int a, b, c, d; };\nstruct out { int x; struct in i; };\n", "    struct out o = { 1, { 2, 3, 4, 5 } };\n    crefl_print(crefl_type(db, struct out), &o);", "out { x : 1; i : in { a : 2; b : 3; c : 4; d : 5; }; }\n"))
S("s-c28-offset-16", "C28", "an object of more than 64 KiB", "members beyond the first 64 KiB are read from its beginning",
  [(EX3, "#define ptr_offset(ptr,offset) ((u8*)ptr + (offset >> 3))", "#define ptr_offset(ptr,offset) ((u8*)ptr + (u16)(offset >> 3))")],
  **SHOW("struct big { long (*p)[2]; union { char c[70000]; } *u; int a[1]; };\nstruct out { char c[65536]; int x; };\n", '    static struct out o; o.x = 77;\n    static char line[400000]; setvbuf(stdout, line, _IOFBF, sizeof line);\n    crefl_print(crefl_type(db, struct out), &o);', "out { c : [ " + ", ".join(["0"] * 65536) + " ]; x : 77; }\n"))
S("s-c28-name-prefix", "C28", "asking for a struct whose name is the beginning of an earlier one's", "the printer finds a different type",
  [(EX3, 'if (crefl_is_struct(r) && strcmp(crefl_decl_name(r), name) == 0) {', 'if (crefl_is_struct(r) && strncmp(crefl_decl_name(r), name, strlen(name)) == 0) {')],
  **SHOW("struct points { int n; };\nstruct point { int x, y; };\n", "    struct point o = { 1, 2 };\n    crefl_print(crefl_type(db, struct point), &o);", "point { x : 1; y : 2; }\n"))
S("s-c28-union-array", "C28", "a union inside an array or struct, beyond its beginning", "unions are read from the start of the outermost object",
  [(EX3, "        _print_field(_fields[j], ptr, offset, depth + 1);", "        _print_field(_fields[j], ptr, depth > 1 ? 0 : offset, depth + 1);")],
  **SHOW("struct out { int x; struct { union { int a; short b; } u[2]; } s; };\n", "    struct out o = { 5, { { { 65537 }, { 131075 } } } };\n    crefl_print(crefl_type(db, struct out), &o);", "out { x : 5; s :  { u : [  { a : 65537; b : 1; },  { a : 131075; b : 3; } ]; }; }\n"))
S("s-c28-stride", "C28", "an array of structs with padding at their end", "elements after the first are read from the wrong place",
  [("src/model.cc", "if (o) o[count] = _align(offset, max.align);", "if (o) o[count] = offset;"),
   (EX3, "    width = crefl_type_width(r);\n\n    printf(\"[ \");", "    width = crefl_type_width(r);\n    if (crefl_is_struct(r)) {\n        size_t n = 0;\n        crefl_struct_fields_offsets(r, NULL, NULL, &n);\n        size_t *offsets = calloc(n + 1, sizeof(size_t));\n        crefl_struct_fields_offsets(r, NULL, offsets, &n);\n        if (n > 0) width = offsets[n - 1];\n        free(offsets);\n    }\n\n    printf(\"[ \");")],
  **SHOW("struct e { int a; char b; };\nstruct out { struct e e[3]; };\n", "    struct out o = { { { 1, 2 }, { 3, 4 }, { 5, 6 } } };\n    crefl_print(crefl_type(db, struct out), &o);", "out { e : [ e { a : 1; b : 2; }, e { a : 3; b : 4; }, e { a : 5; b : 6; } ]; }\n"))
S("s-c28-listing-param", "C28", "a function with a parameter after one of a struct type", "the listing gives a parameter the type of the one before it",
  [(EX2, "        decl_ref pt = crefl_param_type(_params[j]);\n        if (j > 1)", "        decl_ref pt = crefl_param_type(_params[j > 1 && crefl_is_struct(crefl_param_type(_params[j - 1])) ? j - 1 : j]);\n        if (j > 1)")],
  demo_sh=PRE + r'''printf 'struct s { int a; };\nint f(struct s a, long b);\n' > in.c
refl in.c in.refl
$T --merge all.refl in.refl >/dev/null && $T --emit all.c all.refl >/dev/null || exit 2
gcc -w -O0 -I/repo/include /repo/samples/example2_embed/main.c all.c /repo/_build/libcmodel.a -lstdc++ -lpthread -lm -o show || exit 2
timeout 60 ./show > got || { echo "the listing fails"; exit 1; }
grep -qF 'f(s a, long b);' got || { echo "the listing shows: $(tail -1 got)"; exit 1; }
exit 0
''')

# ---- C29
NR = "scripts/ISO-6093-NR3.pl"
def NRD(*cases): return dict(demo_sh=PRE + "n() { g=$(perl /repo/scripts/ISO-6093-NR3.pl \"$1\" \"$2\"); [ \"$g\" = \"$3\" ] || { echo \"$1 $2: $g\"; exit 1; }; }\n" + "".join("n '%s' '%s' '%s'\n" % c for c in cases) + "exit 0\n")
S("s-c29-strict-exp-zero", "C29", "a strict number whose exponent is zero", "a zero exponent is refused",
  [(NR, "([eE] ( -? ( ([1-9][0-9]*) | 0 ) ) )?  # exponent", "([eE] ( -? ( ([1-9][0-9]*) ) ) )?      # exponent")],
  **NRD(("strict", "1.5e0", "{ integer:1 fraction:5 exponent:0 }")))
S("s-c29-strict-point", "C29", "a strict number without digits after its point", "a number that ends in its point is taken as strict",
  [(NR, "\\. ( ([0-9]*[1-9]) | 0 )               # fraction", "\\. ( ([0-9]*[1-9]) | 0? )              # fraction")],
  **NRD(("strict", "1.", ""), ("strict", "2.e5", "")))
S("s-c29-relaxed-sign", "C29", "a relaxed number with a positive sign in its exponent", "the sign of an exponent is lost",
  [(NR, "([eE] ( [-+]? [0-9]+ ) )?              # exponent", "([eE] \\\\+? ( -? [0-9]+ ) )?            # exponent".replace("\\\\", "\\"))],
  **NRD(("relaxed", "1.5e+07", "{ integer:1 fraction:5 exponent:+07 }")))
S("s-c25-count-8", "C25", "a merge of 256 files or more", "the tool merges only the number of files modulo 256",
  [("tool/crefltool.cc", "crefl_link_merge(db_out, output, db_in, n)", "crefl_link_merge(db_out, output, db_in, (u8)n)")],
  demo_sh=PRE + r'''printf 'struct a { int x; };\n' > a.c
refl a.c a.refl
$T --merge all.refl $(for i in $(seq 1 258); do echo a.refl; done) > /dev/null || exit 1
n=$($T --dump all.refl | grep -cw 'a\.c')
[ "$n" -ge 258 ] || { echo "$n sources of 258"; exit 1; }
exit 0
''')
S("s-c18-emit-32k", "C18", "a metadata file of 64 KiB or more", "the size constant that is emitted keeps only its low sixteen bits",
  [("tool/crefltool.cc", 'fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\\n",\n        name, name);', 'fprintf(f, "const size_t __crefl_%s_size = %uu;\\n",\n        name, (unsigned)(u16)sz);')],
  demo_sh=PRE + r'''for i in $(seq 1 3000); do echo "extern int a_rather_long_variable_name_$i;"; done > a.c
refl a.c a.refl
$T --emit a_refl.c a.refl || exit 1
printf '#include <stdio.h>\nextern const size_t __crefl_main_size;\nint main(void) { printf("%%zu\\n", __crefl_main_size); return 0; }\n' > m.c
gcc -w m.c a_refl.c -o m || exit 1
[ "$(./m)" = "$(stat -c %s a.refl)" ] || { echo "the size is $(./m)"; exit 1; }
exit 0
''')
S("s-c20-oid-text", "C20", "an object identifier of more than 99 characters", "the text of a long identifier is cut",
  [(A1, "    s.resize(len+1);", "    s.resize(len < 100 ? len+1 : 100);")],
  demo_sh=PRE + r'''
python3 -c 'import sys; sys.stdout.buffer.write(bytes([6,1+8*13,0x2a]) + bytes([0xff]*7 + [0x7f])*13)' > in
/repo/_build/asn1tool --dump in > out || exit 1
[ "$(grep -o '72057594037927935' out | wc -l)" = 13 ] || { cat out; exit 1; }
''')
S("s-c23-db-write", "C23", "a database that cannot be written to its file", "a merge whose output fails is reported as done",
  [("src/db.cc", "    return crefl_write_file(buf, output_filename);", "    crefl_write_file(buf, output_filename);\n    return 0;")],
  demo_sh=PRE + r'''
printf 'struct a { int x; };\n' > a.c
refl a.c a.refl
mkdir out.refl
$T --merge out.refl a.refl > /dev/null 2>&1 && { echo "merge into a directory succeeds"; exit 1; }
$T --merge /dev/full a.refl > /dev/null 2>&1 && { echo "merge into a full device succeeds"; exit 1; }
exit 0
''')
S("s-c03-count-32", "C03", "an array of 2^32 elements or more", "the length of huge arrays is cut to 32 bits",
  [(R, "crefl_decl_ptr(tr)->_count = _count;", "crefl_decl_ptr(tr)->_count = (unsigned)_count;")],
  **PL("struct s { char small[100]; char huge[0x123456789ull]; };\nextern short more[1ull << 33];\n", r'''
int main(int c, char **v) {
    decl_db *db = load(v[1]); decl_ref h = crefl_decl_link(find(db, _decl_field, "huge")), m = crefl_decl_link(find(db, _decl_field, "more"));
    if (crefl_array_count(h) != 0x123456789ull || crefl_array_count(m) != 1ull << 33) FAIL("counts %llu %llu", (unsigned long long)crefl_array_count(h), (unsigned long long)crefl_array_count(m));
    return 0;
}'''))
