#pragma once
#include "abi.h"
typedef struct {
    const char* name; const char* base;
    const char* ts;    // argument types, a letter each
    char rt;           // type of the result
    int na;
    void (*fn)(const Word* a, int n, Out* o);   // null: there is no such overload
} OvEntry;
