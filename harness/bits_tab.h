/* one implementation of <crefl/bits.h> and <crefl/endian.h> as a table of functions */
#ifndef BITS_TAB_H
#define BITS_TAB_H
typedef unsigned (*f32_t)(unsigned int);
typedef unsigned (*f64_t)(unsigned long long);
struct bits_tab
{
    const char *name;
    unsigned (*clz32)(unsigned), (*clz32s)(int), (*clz64)(unsigned long long), (*clz64s)(long long);
    unsigned (*ctz32)(unsigned), (*ctz32s)(int), (*ctz64)(unsigned long long), (*ctz64s)(long long);
    unsigned (*pop32)(unsigned), (*pop32s)(int), (*pop64)(unsigned long long), (*pop64s)(long long);
    unsigned (*clzl)(unsigned long), (*clzls)(long), (*ctzl)(unsigned long), (*ctzls)(long), (*popl)(unsigned long), (*popls)(long);
};
/* byte order: kind 0 swap, 1 big, 2 little */
struct endian_tab
{
    const char *name;
    unsigned short (*e16[16])(unsigned short); unsigned (*e32[16])(unsigned); unsigned long long (*e64[16])(unsigned long long);
    unsigned char (*e8[2])(unsigned char);
    int k16[16], k32[16], k64[16]; int n16, n32, n64;
};
#endif
