// Interface between the scanner and a library variant.
#pragma once
#include <stdint.h>
typedef union { float f; double d; long double l; unsigned char raw[16]; uint64_t u[2]; } Word;
typedef struct { Word r[2]; int q; } Out;
typedef struct {
    const char* name;
    char t;            // 'f' 'd' 'l'
    int na;            // floating-point arguments
    int hasn;          // takes an int after them
    int nr;            // floating-point results
    int hasq;          // integer result
    void (*fn)(const Word* a, int n, Out* o);
} Entry;
typedef const Entry* (*TableFn)(int* count);
